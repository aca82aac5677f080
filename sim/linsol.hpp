// Control of the simulated sparse linear solver (stands in for the HSL routines, which are not available here).
#pragma once
#include <cstdint>
namespace linsol {
void reset();
void arm(int64_t fail_at, int kind, bool persist, int mode);   // fail the k-th entry-point call from now on
int64_t calls(); int64_t fired();
bool available();
}
