#include "common.h"
W c_pl(const float *a, float *o) { O(o, Tristimulus::fromPlanckianLocus(a[0], a[1])); O(o + 3, Tristimulus::fromPlanckianLocus(a[0])); }
W c_ct(const float *a, float *o) { O(o, Tristimulus::fromCT(a[0], a[1])); O(o + 3, Tristimulus::fromCT(a[0])); }
W c_cct(const float *a, float *o) { O(o, Tristimulus::fromCCT(a[0], a[2], a[1])); O(o + 3, Tristimulus::fromCCT(a[0], a[2])); }
extern "C" float c_sqrt(float x) { return util::sqrtf(x); }
