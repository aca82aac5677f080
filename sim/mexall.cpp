#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
// All four MEX interfaces of /repo in one program, each in a namespace of its own.
#include <qpOASES.hpp>
#include "mex.h"
#include "matrix.h"
#include "string.h"
#include <vector>
#include "mexstub.hpp"
USING_NAMESPACE_QPOASES
namespace oct_seq {
#include "octave/qpOASES_sequence.cpp"
}
#undef myMexErrMsgTxt
namespace oct_one {
#include "octave/qpOASES.cpp"
}
#undef myMexErrMsgTxt
namespace mat_seq {
#include "matlab/qpOASES_sequence.cpp"
}
#undef myMexErrMsgTxt
namespace mat_one {
#include "matlab/qpOASES.cpp"
}
namespace sim { mex_fn mex_entry[4] = {oct_seq::mexFunction, oct_one::mexFunction, mat_seq::mexFunction, mat_one::mexFunction}; }
