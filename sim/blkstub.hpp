// Simulink's and Scilab's side of the block and gateway interfaces.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "mexstub.hpp"
#include "simstruc.h"
namespace sim {
struct BlkFns { void (*sizes)(SimStruct*); void (*times)(SimStruct*); void (*start)(SimStruct*); void (*outputs)(SimStruct*, int_T); void (*terminate)(SimStruct*); };
extern BlkFns blk_fns[3];                         // QProblemB, QProblem, SQProblem
struct Block {                                    // one block of a model
	SimStruct S; int kind = 0; bool scattered = false, failed = false; std::vector<int> width; std::vector<std::vector<double> > mem; std::vector<std::vector<size_t> > at; std::string err;
	~Block();
	void start(int kind, const std::vector<mxArray*>& params, const std::vector<int>& widths, bool scattered, uint64_t seed);   // params become the block's
	void step(const std::vector<std::vector<double> >& in, std::vector<double>& out);
	void terminate();
	int state();                                  // 0 fine, 1 data of the engine modified, 2 written past the end of something
};
struct SciArg { int m = 0, n = 0; std::vector<double> v; bool str = false; };
struct SciCall { bool failed = false; std::string err; int errnr = 0; std::vector<std::vector<double> > out; std::vector<std::pair<int, int> > size; bool overrun = false; };
void sci_call(int fin, int nlhs, const std::vector<SciArg>& in, SciCall& c, uint64_t garbage);
}
