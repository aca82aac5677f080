// Generation of QPs with a known answer, and an independent optimality check.
#pragma once
#include <cmath>
#include <string>
#include <vector>
#include "seams.hpp"

namespace sim {
const double INF = 1.0e20;          // documented infinity of the interface
enum HKind { HK_POSDEF = 0, HK_SEMI = 1, HK_ZERO = 2, HK_IDENT = 3, HK_DIAG = 4, HK_INDEF = 5 };
enum VKind {                         // what the vectors are made to be
	VK_NICE = 0,                     // unique solution, strictly complementary, well conditioned
	VK_DEGEN = 1,                    // solution known, but degenerate (zero slacks/multipliers, redundant rows)
	VK_INF_BOUNDS = 2,               // lb > ub for some variable
	VK_INF_CONSTR = 3,               // contradictory constraints against bounds, with margin
	VK_UNBOUNDED = 4,                // recession direction with negative slope
	VK_INF_CONBND = 5                // lbA > ubA for some constraint
};
enum Truth { T_SOLVABLE, T_INFEASIBLE, T_UNBOUNDED };

struct QP {
	int nv = 0, nc = 0;
	int hk = 0;
	std::vector<double> H, A, g, lb, ub, lbA, ubA;   // row major
	std::vector<double> x, y;       // the planted solution (if solvable)
	std::vector<int> ws;            // planted working set: -1 lower, 1 upper, 0 inactive (nv+nc)
	double f = 0;                   // planted optimal value
	bool unique = false;            // solution (x and y) unique and well conditioned
	Truth truth = T_SOLVABLE;
	bool ok = false;
};

// matrices are a function of (mseed, nv, nc, hk, sparse), vectors of the matrices and (vseed, vkind, flags)
struct QPSpec {
	uint64_t mseed = 1, vseed = 1;
	int nv = 1, nc = 0, hk = HK_POSDEF, vk = VK_NICE;
	int sparse = 0;                  // percentage of zero entries
	int fin = 60;                    // percentage of finite inactive bounds
	int act = 50;                    // percentage of activity (of the admissible number)
	int eq = 15;                     // percentage of equality rows among active ones
	int spread = 0;                  // scale spread of slacks/multipliers (decades)
};
QP make_qp(const QPSpec& s);

struct KKT { double stat, feas, compl_, sign, obj, objmag; double worst() const; };
KKT kkt(const QP& q, const std::vector<double>& x, const std::vector<double>& y);
double objective(const QP& q, const std::vector<double>& x);
double data_scale(const QP& q);
} // namespace sim
