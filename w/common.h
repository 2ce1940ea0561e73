// helpers for witness translation units: symbolic float arrays in, float arrays out, public API only
#include "colorsystem.hpp"
using namespace ColorSystem;
#define W extern "C" void
static inline Matrix3     M(const float *p) { return Matrix3(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8]); }
static inline Tristimulus T(const float *p) { return Tristimulus(p[0], p[1], p[2]); }
static inline Vector3     V(const float *p) { return Vector3(p[0], p[1], p[2]); }
static inline void O(float *o, const Matrix3 &m) { for (int i = 0; i < 9; i++) o[i] = m[i]; }
static inline void O(float *o, const Tristimulus &t) { for (int i = 0; i < 3; i++) o[i] = t[i]; }
static inline void O(float *o, const Vector3 &t) { for (int i = 0; i < 3; i++) o[i] = t[i]; }
