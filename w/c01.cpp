#include "common.h"
W c_ctor(const float *a, float *o) { O(o, M(a)); O(o + 9, Matrix3::fromArray(a)); }
W c_mul(const float *a, const float *b, float *o) { O(o, Matrix3::mul(M(a), M(b))); O(o + 9, M(a).mul(M(b))); }
W c_apply(const float *a, const float *v, float *o) { O(o, Matrix3::apply(M(a), V(v))); O(o + 3, M(a).apply(V(v))); O(o + 6, Tristimulus::apply(T(v), M(a))); O(o + 9, T(v).apply(M(a))); }
W c_transpose(const float *a, float *o) { O(o, Matrix3::transpose(M(a))); O(o + 9, M(a).transpose()); }
W c_rowcol(const float *a, float *o) { for (int i = 0; i < 3; i++) { O(o + 3 * i, M(a).row(i)); O(o + 9 + 3 * i, M(a).col(i)); } }
W c_index(const float *a, float *o) { Matrix3 m = M(a); int k = 0; for (auto x : m) o[k++] = x; o[9] = (float)m.size(); }
W c_scale(const float *a, float s, float *o) { O(o, Matrix3::mul(M(a), s)); O(o + 9, M(a).mul(s)); O(o + 18, Matrix3::div(M(a), s)); O(o + 27, M(a).div(s)); }
W c_add(const float *a, const float *b, float *o) { O(o, Matrix3::add(M(a), M(b))); O(o + 9, M(a).add(M(b))); }
W c_diag(const float *v, float *o) { O(o, Matrix3::diag(V(v))); O(o + 9, Gamut::diag(V(v))); }
W c_det(const float *a, float *o) { o[0] = Matrix3::det(M(a)); o[1] = M(a).det(); }
W c_inv(const float *a, float *o) { O(o, Matrix3::invert(M(a))); O(o + 9, M(a).invert()); O(o + 18, Matrix3::mul(M(a), Matrix3::invert(M(a)))); O(o + 27, Matrix3::mul(Matrix3::invert(M(a)), M(a))); }
W c_cross(float r, float *o) { O(o, Matrix3::crosstalk(r)); O(o + 9, Matrix3::crosstalkInvert(r)); O(o + 18, Matrix3::mul(Matrix3::crosstalk(r), Matrix3::crosstalkInvert(r))); }
W c_dot(const float *a, const float *b, float *o) { o[0] = Vector3::dot(V(a), V(b)); o[1] = V(a).dot(V(b)); }
W c_vec(const float *a, float *o) { Vector3 v = V(a); o[0] = v.x(); o[1] = v.y(); o[2] = v.z(); o[3] = v[0]; o[4] = v[1]; o[5] = v[2]; int k = 6; for (auto x : v) o[k++] = x; o[9] = (float)v.size(); }
// the same object as both operands
W c_same(const float *a, const float *v, float *o) { const Matrix3 m = M(a); O(o, Matrix3::mul(m, m)); O(o + 9, m.mul(m)); O(o + 18, Matrix3::add(m, m)); O(o + 27, m.add(m)); const Vector3 u = V(v); o[36] = Vector3::dot(u, u); o[37] = u.dot(u); }
