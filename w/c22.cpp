#include "common.h"
static inline std::vector<Tristimulus> VT(const float *p, int n) { std::vector<Tristimulus> v; v.reserve(n); for (int i = 0; i < n; i++) v.push_back(T(p + 3 * i)); return v; }
static inline Spectrum S(const float *p) { Spectrum::spectrum a{}; for (int i = 0; i < 400; i++) a[i] = p[i]; return Spectrum(a); }
W c_solve(const float *p, int n, const float *t, int k, float *o) { const std::vector<Tristimulus> a = VT(p, n), b = VT(t, k); O(o, Corrector::solve(a, b)); }
W c_chart(const float *p, int n, const float *l, float *o) { std::vector<Tristimulus> a = VT(p, n); O(o, Corrector::solve(a, S(l), CIE2012)); }
W c_chart0(const float *p, int n, float *o) { std::vector<Tristimulus> a = VT(p, n); O(o, Corrector::solve(a)); }
W c_gamut(const float *p, int n, const float *l, float *o) { std::vector<Tristimulus> a = VT(p, n); Gamut g = Corrector::makeGamut("x", a, S(l), CIE2012); O(o, g.fromXYZ()); O(o + 9, g.toXYZ()); O(o + 18, g.toXYZ(T(p))); }
W c_gamut0(const float *p, int n, float *o) { std::vector<Tristimulus> a = VT(p, n); Gamut g = Corrector::makeGamut("x", a); O(o, g.fromXYZ()); O(o + 9, g.toXYZ()); }
W c_ref(const float *l, float *o, int *n) { std::vector<Tristimulus> r = Macbeth::reference(S(l), CIE2012); n[0] = (int)r.size(); for (int i = 0; i < 24; i++) O(o + 3 * i, r[i]); }
W c_ref0(const float *l, float *o, int *n) { std::vector<Tristimulus> r = Macbeth::reference(S(l)); n[0] = (int)r.size(); for (int i = 0; i < 24; i++) O(o + 3 * i, r[i]); }
