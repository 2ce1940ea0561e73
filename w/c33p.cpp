#include "common.h"
W c_pyth(const float *p, float *o) { o[0] = SOLVER::PYTHAG(p[0], p[1]); }
W c_sign(const float *p, float *o) { o[0] = SOLVER::DSIGN(p[0], p[1]); }
