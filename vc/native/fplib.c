/* libm on 80-bit memory images, for evaluating specifications on concrete values. */
#include <math.h>
#include <string.h>
#define F1(n) void vc_##n(char *o, const char *a) { long double x; memcpy(&x, a, 16); x = n(x); memset(o, 0, 16); memcpy(o, &x, 10); }
#define F2(n) void vc_##n(char *o, const char *a, const char *b) { long double x, y; memcpy(&x, a, 16); memcpy(&y, b, 16); x = n(x, y); memset(o, 0, 16); memcpy(o, &x, 10); }
F1(expl) F1(logl) F1(sinl) F1(cosl) F1(atanl) F1(sqrtl) F1(log10l) F2(powl)
