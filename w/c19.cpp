#include "common.h"
static inline Spectrum S(const float *p) { Spectrum::spectrum a{}; for (int i = 0; i < 400; i++) a[i] = p[i]; return Spectrum(a); }
W c_int(const float *x, const float *y, const float *z, const float *s, float *o) { Observer ob(S(x), S(y), S(z)); O(o, ob.fromSpectrum(S(s))); }
W c_one(const float *x, const float *y, const float *z, float *o) { Observer ob(S(x), S(y), S(z)); O(o, ob.fromSpectrum(Spectrum::E(1.f))); O(o + 3, ob.fromReflectanceAndLight(Spectrum::E(1.f), Spectrum::E(1.f))); }
W c_refl(const float *x, const float *y, const float *z, const float *r, const float *l, float *o) { Observer ob(S(x), S(y), S(z)); Spectrum a = S(r), b = S(l); O(o, ob.fromReflectanceAndLight(a, b)); O(o + 3, ob.fromSpectrum(a * b)); }
W c_mono(const float *x, const float *y, const float *z, const float *p, float *o) { Observer ob(S(x), S(y), S(z)); o[0] = ob.lumensFromMonochromaticFlux(p[0], p[1]); O(o + 1, ob.candellasFromMonochromaticRadiance(p[0], p[1])); O(o + 4, ob.xyz(p[0])); }
W c_named(const float *s, float *o) {
    O(o, CIE1931.fromSpectrum(S(s))); O(o + 3, CIE31JV.fromSpectrum(S(s))); O(o + 6, CIE2012.fromSpectrum(S(s)));
    O(o + 9, CIE1931.fromSpectrum(Spectrum::E(1.f))); O(o + 12, CIE31JV.fromSpectrum(Spectrum::E(1.f))); O(o + 15, CIE2012.fromSpectrum(Spectrum::E(1.f))); }
// the same object in two roles
W c_self(const float *x, const float *y, const float *z, const float *s, float *o) { const Spectrum a = S(s); Observer ob(S(x), S(y), S(z)); O(o, ob.fromReflectanceAndLight(a, a)); const Spectrum e = S(x); Observer oc(e, e, e); O(o + 3, oc.fromSpectrum(e)); O(o + 6, oc.fromReflectanceAndLight(a, e)); }
