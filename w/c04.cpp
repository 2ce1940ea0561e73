#include "common.h"
static inline Gamut G(const float *p) { return Gamut("g", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); }
W c_prim(const float *p, float *o) { Gamut g = G(p); O(o, g.toXYZ()); O(o + 9, g.fromXYZ()); O(o + 18, g.toXYZ(Tristimulus(1.f, 1.f, 1.f))); }
W c_from(const float *p, float *o) { O(o, Gamut::fromPrimaries(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])); O(o + 9, Gamut::primMat(p[0], p[1], p[2], p[3], p[4], p[5])); }
W c_back(const float *p, float *o) { Gamut g = G(p); O(o, g.primaryRed()); O(o + 3, g.primaryGreen()); O(o + 6, g.primaryBlue()); O(o + 9, g.primaryWhite()); O(o + 12, g.primaryVector()); O(o + 15, g.primaryMatrix()); }
W c_conv(const float *p, const float *t, float *o) { Gamut g = G(p); O(o, g.toXYZ(T(t))); O(o + 3, g.fromXYZ(T(t))); O(o + 6, g.fromXYZ(g.toXYZ(T(t)))); O(o + 9, g.toXYZ(g.fromXYZ(T(t)))); }
W c_mat(const float *a, const float *t, float *o) { Gamut g("m", M(a)); O(o, g.fromXYZ()); O(o + 9, g.toXYZ()); O(o + 18, g.fromXYZ(T(t))); O(o + 21, g.toXYZ(T(t))); O(o + 24, g.primaryVector()); O(o + 27, g.primaryMatrix()); O(o + 36, g.primaryRed()); O(o + 39, g.primaryGreen()); O(o + 42, g.primaryBlue()); O(o + 45, g.primaryWhite()); }
W c_diag(const float *a, const float *v, float *o) { O(o, Gamut::mulDiag(M(a), V(v))); }
extern "C" const char *c_name(const char *s) { Gamut g(s, M((const float[9]){1, 0, 0, 0, 1, 0, 0, 0, 1})); return g.name(); }
