#ifndef SIM_SCIERROR_H
#define SIM_SCIERROR_H
#ifdef __cplusplus
extern "C" {
#endif
int Scierror(int n, const char* fmt, ...);
#ifdef __cplusplus
}
#endif
#endif
