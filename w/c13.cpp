#include "common.h"
typedef Tristimulus Q;
W c_to(const float *a, float *o) { O(o, Q::toHSV(T(a))); O(o + 3, T(a).toHSV()); }
W c_from(const float *a, float *o) { O(o, Q::fromHSV(T(a))); O(o + 3, T(a).fromHSV()); }
W c_rt(const float *a, float *o) { O(o, T(a).toHSV().fromHSV()); }
W c_atan(const float *a, float *o) { O(o, Q::toHSV_atan(T(a))); O(o + 3, T(a).toHSV_atan()); }
