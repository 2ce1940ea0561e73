#include "common.h"
W c_pl(const float *a, double *o) { o[0] = Spectrum::planck((double)a[0], (double)a[1]); }
W c_bb(const float *a, float *o) { Spectrum s = Spectrum::blackbody(a[0]); for (int i = 0; i < 400; i++) o[i] = s[i]; }
