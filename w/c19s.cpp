#include "common.h"
static inline Spectrum S(const float *p) { Spectrum::spectrum a{}; for (int i = 0; i < 400; i++) a[i] = p[i]; return Spectrum(a); }
// the unnormalised integrals, distinct objects and one object in several roles
W c_raw(const float *x, const float *y, const float *z, const float *s, const float *l, float *o) { const Spectrum X_ = S(x), Y_ = S(y), Z_ = S(z), a = S(s), b = S(l); O(o, Observer::SpectrumIntegrate(a, X_, Y_, Z_)); O(o + 3, Observer::SpectrumIntegrate3(a, b, X_, Y_, Z_)); }
W c_rawsame(const float *x, const float *y, const float *s, const float *l, float *o) { const Spectrum X_ = S(x), Y_ = S(y), a = S(s), b = S(l); O(o, Observer::SpectrumIntegrate(a, X_, Y_, X_)); O(o + 3, Observer::SpectrumIntegrate(X_, X_, Y_, Y_)); O(o + 6, Observer::SpectrumIntegrate3(a, b, X_, Y_, X_)); O(o + 9, Observer::SpectrumIntegrate3(a, a, X_, X_, Y_)); }
