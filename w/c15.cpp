#include "common.h"
W c_uv(const float *a, const float *b, float *o) { o[0] = Delta::UV(T(a), T(b)); }
W c_e76(const float *a, const float *b, float *o) { o[0] = Delta::E76(T(a), T(b)); }
W c_e00(const float *a, const float *b, const float *k, float *o) { o[0] = Delta::E00(T(a), T(b), k[0], k[1], k[2]); }
W c_e00d(const float *a, const float *b, float *o) { o[0] = Delta::E00(T(a), T(b)); }
W c_it(const float *a, const float *b, float *o) { o[0] = Delta::ICtCp(T(a), T(b)); }
W c_itp(const float *a, float *o) { O(o, XYZ_to_ICtCp(T(a))); }
