#include <qpOASES.hpp>
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "blkstub.hpp"
extern "C" { void* sim_calloc(size_t, size_t); void* sim_malloc(size_t); void sim_free(void*); }
namespace std { using ::sim_calloc; using ::sim_malloc; using ::sim_free; }
#define calloc sim_calloc
#define malloc sim_malloc
#define free sim_free
namespace blk_b {
#include "simulink/qpOASES_QProblemB.cpp"
}
namespace sim { BlkFns blk_b() { BlkFns f = {blk_b::mdlInitializeSizes, blk_b::mdlInitializeSampleTimes, blk_b::mdlStart, blk_b::mdlOutputs, blk_b::mdlTerminate}; return f; } }
