#include "common.h"
static inline Spectrum S(const float *p) { Spectrum::spectrum a{}; for (int i = 0; i < 400; i++) a[i] = p[i]; return Spectrum(a); }
static inline void OS(float *o, const Spectrum &s) { for (int i = 0; i < 400; i++) o[i] = s[i]; }
W c_id(const float *a, float *o) { Spectrum s = S(a); OS(o, s); for (int i = 0; i < 400; i++) o[400 + i] = s.s()[i]; }
W c_scale(const float *a, const float *k, float *o) { Spectrum s = S(a); OS(o, Spectrum::mul(s, k[0])); OS(o + 400, s * k[0]); OS(o + 800, s); }
W c_mul(const float *a, const float *b, float *o) { Spectrum s = S(a), t = S(b); OS(o, Spectrum::mul(s, t)); OS(o + 400, s * t); OS(o + 800, s); OS(o + 1200, t); }
W c_add(const float *a, const float *b, float *o) { Spectrum s = S(a), t = S(b); OS(o, Spectrum::add(s, t)); OS(o + 400, s + t); OS(o + 800, s); OS(o + 1200, t); }
W c_e(const float *k, float *o) { OS(o, Spectrum::E(k[0])); OS(o + 400, Spectrum::E()); OS(o + 800, Spectrum()); }
W c_sum(const float *a, float *o) { Spectrum s = S(a); o[0] = Spectrum::sum(s); o[1] = s.sum(); }
W c_dot(const float *a, const float *b, float *o) { Spectrum s = S(a), t = S(b); o[0] = Spectrum::dot(s, t); o[1] = s.dot(t); }
W c_dot3(const float *a, const float *b, const float *c, float *o) { o[0] = Spectrum::dot3(S(a), S(b), S(c)); }
// the same object as both operands
W c_same(const float *a, float *o) { Spectrum s = S(a); OS(o, Spectrum::mul(s, s)); OS(o + 400, s * s); OS(o + 800, Spectrum::add(s, s)); OS(o + 1200, s + s); OS(o + 1600, s); }
W c_same1(const float *a, float *o) { Spectrum s = S(a); o[0] = Spectrum::dot(s, s); o[1] = s.dot(s); o[2] = Spectrum::dot3(s, s, s); }
W c_same3(const float *a, const float *b, float *o) { Spectrum s = S(a), t = S(b); o[0] = Spectrum::dot3(s, s, t); o[1] = Spectrum::dot3(s, t, s); o[2] = Spectrum::dot3(t, s, s); }
