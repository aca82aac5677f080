// Steps of Simulink blocks and calls of the Scilab gateway, and the same on objects of the classes (included by exec.cpp).
#pragma once
static const double ANY = 1.2345e300;             // the class gives no value here: whatever the interface says must only not depend on garbage
struct YSlot { bool live = false, tainted = false; char cls = 'Q'; int nv = 0, nc = 0, nb = 0; bool he = false, inf = false; Block* blk = 0; QProblemB* b = 0; std::vector<double*> keep; };
static double* ykeep(YSlot& s, const std::vector<double>& v) { Out g; double* p = new double[v.size() + 1]; std::copy(v.begin(), v.end(), p); s.keep.push_back(p); return p; }
static std::vector<double> ytr(const std::vector<double>& v, int rows, int cols) { std::vector<double> t((size_t)rows * cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) t[(size_t)j * rows + i] = v[(size_t)i * cols + j]; return t; }
static double yclamp(double d) { return d != d ? INF : d > INF ? INF : d < -INF ? -INF : d; }
