#include "common.h"
typedef Tristimulus Q;
W c_to(const float *a, const float *w, float *o) { O(o, Q::toCIELAB(T(a), T(w))); O(o + 3, T(a).toCIELAB(T(w))); }
W c_from(const float *a, const float *w, float *o) { O(o, Q::fromCIELAB(T(a), T(w))); O(o + 3, T(a).fromCIELAB(T(w))); }
W c_rt(const float *a, const float *w, float *o) { O(o, T(a).toCIELAB(T(w)).fromCIELAB(T(w))); }
W c_rt2(const float *a, const float *w, float *o) { O(o, T(a).fromCIELAB(T(w)).toCIELAB(T(w))); }
W c_to0(const float *a, float *o) { O(o, T(a).toCIELAB()); }
W c_from0(const float *a, float *o) { O(o, T(a).fromCIELAB()); }
