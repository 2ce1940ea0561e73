#include "common.h"
W c_ctor(const float *a, float s, float *o) { O(o, T(a)); O(o + 3, Tristimulus(s)); O(o + 6, Tristimulus(V(a))); O(o + 9, Tristimulus()); Tristimulus t = T(a); o[12] = t.a(); o[13] = t.b(); o[14] = t.c(); O(o + 15, t.vec3()); int k = 18; for (auto x : t) o[k++] = x; o[21] = (float)t.size(); }
W c_scale(const float *a, float s, float *o) { O(o, Tristimulus::scale(T(a), s)); O(o + 3, T(a).scale(s)); O(o + 6, T(a) * s); O(o + 9, T(a) / s); }
W c_addmul(const float *a, const float *b, float *o) { O(o, Tristimulus::add(T(a), T(b))); O(o + 3, T(a).add(T(b))); O(o + 6, T(a) + T(b)); O(o + 9, Tristimulus::mul(T(a), T(b))); O(o + 12, T(a).mul(T(b))); O(o + 15, T(a) * T(b)); o[18] = Tristimulus::dot(T(a), T(b)); o[19] = T(a).dot(T(b)); }
W c_minmax(const float *a, const float *b, float *o) { O(o, Tristimulus::min(T(a), T(b))); O(o + 3, T(a).min(T(b))); O(o + 6, Tristimulus::max(T(a), T(b))); O(o + 9, T(a).max(T(b))); o[12] = T(a).min3(); o[13] = T(a).max3(); }
W c_clip(const float *a, float l, float h, float *o) { O(o, T(a).clip(l, h)); O(o + 3, Tristimulus::clip(T(a), l, h)); }
W c_pos(const float *a, float *o) { O(o, T(a).positive()); O(o + 3, Tristimulus::positive(T(a))); o[6] = T(a).hasNegative() ? 1.f : 0.f; o[7] = Tristimulus::hasNegative(T(a)) ? 1.f : 0.f; }
// the same object as both operands
W c_same(const float *a, float *o) { const Tristimulus t = T(a); O(o, Tristimulus::add(t, t)); O(o + 3, t.add(t)); O(o + 6, t + t); O(o + 9, Tristimulus::mul(t, t)); O(o + 12, t.mul(t)); O(o + 15, t * t); O(o + 18, Tristimulus::min(t, t)); O(o + 21, t.min(t)); O(o + 24, Tristimulus::max(t, t)); O(o + 27, t.max(t)); o[30] = Tristimulus::dot(t, t); o[31] = t.dot(t); O(o + 32, t * t[0]); O(o + 35, t * t[2]); O(o + 38, t.clip(t[0], t[0])); }
