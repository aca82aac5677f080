#include "linsol.hpp"
namespace linsol { void reset() {} void arm(int64_t, int, bool, int) {} int64_t calls() { return 0; } int64_t fired() { return 0; } bool available() { return false; } }
