#include "c23.cpp"
extern "C" int s_svdu(const float *a, int m, int n, float *u, float *w, float *v) { SOLVER::Matrix A = MX(a, m, n), V_(n, n); SOLVER::Vector w_(n); int r = SOLVER::svdcmp(A, w_, V_); for (int i = 0; i < n; i++) w[i] = w_[i]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v[i * n + j] = V_[i][j]; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) u[i * n + j] = A[i][j]; return r; }
