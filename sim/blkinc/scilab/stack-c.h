/* Stand-in for Scilab's gateway interface: arguments and results live on a stack that is the call's own. */
#ifndef SIM_STACK_C_H
#define SIM_STACK_C_H
#ifdef __cplusplus
extern "C" {
#endif
int sim_checkrhs(const char* f, int lo, int hi); int sim_checklhs(const char* f, int lo, int hi);
int sim_getrhs(int n, const char* t, int* m, int* k, int* l); int sim_create(int n, const char* t, int* m, int* k, int* l);
double* stk(int l); int* istk(int l); extern int sim_lhs[16], sim_rhs, sim_fin;
#ifdef __cplusplus
}
#endif
#define C2F(n) n##_
#define CheckRhs(a, b) if (!sim_checkrhs(fname, a, b)) return 0
#define CheckLhs(a, b) if (!sim_checklhs(fname, a, b)) return 0
#define GetRhsVar(n, t, m, k, l) if (!sim_getrhs(n, t, m, k, l)) return 0
#define CreateVar(n, t, m, k, l) if (!sim_create(n, t, m, k, l)) return 0
#define LhsVar(i) sim_lhs[i]
#define Rhs sim_rhs
#define Fin sim_fin
#define Max(a, b) ((a) > (b) ? (a) : (b))
#endif
