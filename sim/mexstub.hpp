// The scripting engine's side of the MEX interface: arrays lent to and created by a call, errors, warnings.
#pragma once
#include <cstddef>
#include <string>
#include <utility>
#include <vector>
#include "mexinc/mex.h"
enum { MX_DOUBLE = 0, MX_CHAR, MX_STRUCT, MX_INT32, MX_SINGLE, MX_LOGICAL, MX_CELL };
struct mxArray_tag {
	int cls = MX_DOUBLE; size_t m = 0, n = 0; bool sparse = false;
	char* mem = 0; size_t bytes = 0;              // data, followed by a guard area (not with AddressSanitizer, which has its own)
	size_t *ir = 0, *jc = 0; size_t nz = 0, nzmax = 0;
	std::vector<std::pair<std::string, mxArray*> > f;
	std::vector<char> orig; std::vector<size_t> oir, ojc; bool lent = false;
	~mxArray_tag();
	void alloc(size_t bytes);
	void lend();                                  // from here on the callee must not change it
	int state() const;                            // 0 fine, 1 modified, 2 written past its end
	double* d() const { return (double*)mem; }
};
namespace sim {
struct MexError { std::string msg; };
mxArray* mx_new(int cls, size_t m, size_t n, const std::vector<double>& v);       // column-major values
mxArray* mx_sparse(size_t m, size_t n, const std::vector<double>& v, bool explicit_zeros, size_t extra);
mxArray* mx_string(const std::string& s);
mxArray* mx_struct();
void mx_field(mxArray* s, const std::string& k, mxArray* v);
struct MexCall { std::vector<mxArray*> out; std::string err; bool failed = false; int bad = 0; int warnings = 0; };   // bad: 21 an array was written past its end, 22 an output is missing
typedef void (*mex_fn)(int, mxArray**, int, const mxArray**);
extern mex_fn mex_entry[4];                       // sequence (Octave), one call (Octave), sequence (Matlab), one call (Matlab)
void mex_call(mex_fn f, int nlhs, const std::vector<mxArray*>& in, MexCall& c);   // throws whatever is no error of the interface
void mex_free(MexCall& c);
extern int64_t mex_arrays;                        // arrays alive
}
