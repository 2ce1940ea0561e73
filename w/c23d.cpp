#include "c23.cpp"
W s_bksb(const float *u, int m, int n, const float *w, const float *v, const float *b, float *x) { SOLVER::Matrix U = MX(u, m, n), V_ = MX(v, n, n); SOLVER::Vector w_ = VX(w, n), B = VX(b, m), X(n); SOLVER::svbksb(U, w_, V_, B, X); for (int i = 0; i < n; i++) x[i] = X[i]; }
extern "C" int s_svd(float *a, int m, int n, float *w, float *v) { SOLVER::Matrix A = MX(a, m, n), V_(n, n); SOLVER::Vector w_(n); int r = SOLVER::svdcmp(A, w_, V_); for (int i = 0; i < n; i++) w[i] = w_[i]; return r; }
