#include "common.h"
W c_ok(const float *a, float *o) { O(o, XYZ_to_OKLAB(T(a))); }
W c_oki(const float *a, float *o) { O(o, OKLAB_to_XYZ(T(a))); }
W c_it(const float *a, float *o) { O(o, XYZ_to_ICtCp(T(a))); }
W c_iti(const float *a, float *o) { O(o, ICtCp_to_XYZ(T(a))); }
W c_pq(const float *a, float *o) { O(o, OTF::toScreen(OTF::ST2084, T(a))); }
W c_pqi(const float *a, float *o) { O(o, OTF::toScene(OTF::ST2084, T(a))); }
