#include "common.h"
typedef Tristimulus Q;
W c_toYxy(const float *a, float *o) { O(o, Q::toYxy(a[0], a[1], a[2])); O(o + 3, Q::toYxy(T(a))); O(o + 6, T(a).toYxy()); }
W c_fromYxy(const float *a, float *o) { O(o, Q::fromYxy(a[0], a[1], a[2])); O(o + 3, Q::fromYxy(T(a))); O(o + 6, T(a).fromYxy()); }
W c_toYuv(const float *a, float *o) { O(o, Q::toYuv(a[0], a[1], a[2])); O(o + 3, Q::toYuv(T(a))); O(o + 6, T(a).toYuv()); }
W c_fromYuv(const float *a, float *o) { O(o, Q::fromYuv(a[0], a[1], a[2])); O(o + 3, Q::fromYuv(T(a))); O(o + 6, T(a).fromYuv()); }
W c_xyuv(const float *a, float *o) { O(o, Q::YxyToYuv(T(a))); O(o + 3, Q::YuvToYxy(T(a))); O(o + 6, Q::YuvToYxy(Q::YxyToYuv(T(a)))); O(o + 9, Q::YxyToYuv(Q::YuvToYxy(T(a)))); }
W c_rtYxy(const float *a, float *o) { O(o, T(a).toYxy().fromYxy()); }
W c_rtXYZ(const float *a, float *o) { O(o, T(a).fromYxy().toYxy()); }
W c_rtYuv(const float *a, float *o) { O(o, T(a).toYuv().fromYuv()); }
W c_rtuv(const float *a, float *o) { O(o, T(a).fromYuv().toYuv()); }
