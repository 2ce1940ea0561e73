#include "common.h"
W c_conv(const float *a, const float *b, float *o) { Gamut s("s", M(a)), d("d", M(b)); O(o, GamutConvert(s, d)); O(o + 9, GamutConvert(s, s)); O(o + 18, GamutConvert(d, s)); }
W c_conv2(const float *p, const float *b, float *o) { Gamut s("s", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), d("d", M(b)); O(o, GamutConvert(s, d)); O(o + 9, s.toXYZ()); }
W c_brad(const float *a, const float *b, float *o) { O(o, Bradford(T(a), T(b))); O(o + 9, T(a).apply(Bradford(T(a), T(b)))); O(o + 12, Bradford(T(a), T(a))); }
W c_scale(const float *a, const float *b, float k, float *o) { O(o, Bradford(T(a) * k, T(b) * k)); }
W c_lms(float *o) { O(o, LMS.fromXYZ()); O(o + 9, LMS.toXYZ()); }
W c_convn(const float *a, const float *b, float *o) { Gamut s("g", M(a)), d("g", M(b)); O(o, GamutConvert(s, d)); O(o + 9, GamutConvert(d, s)); }
