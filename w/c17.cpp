#include "common.h"
static inline Spectrum S(const float *p) { Spectrum::spectrum a{}; for (int i = 0; i < 400; i++) a[i] = p[i]; return Spectrum(a); }
W c_fetch(const float *s, int n, const float *p, float *o) { o[0] = Spectrum::fetch(s, n, p[0], p[1], p[2]); }
W c_mem(const float *s, const float *p, float *o) { o[0] = S(s).fetch(p[0]); }
W c_ctor(const float *s, int n, const float *p, float *o) { Spectrum q(s, n, p[0], p[1]); for (int i = 0; i < 400; i++) o[i] = q[i]; }
W c_ctor0(const float *s, float *o) { Spectrum q(s); for (int i = 0; i < 400; i++) o[i] = q[i]; }
