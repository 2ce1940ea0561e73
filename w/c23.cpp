#include "common.h"
// all entry points build the matrices from float arrays; sizes are given as integers
static inline SOLVER::Matrix MX(const float *p, int r, int c) { SOLVER::Matrix m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = p[i * c + j]; return m; }
static inline SOLVER::Vector VX(const float *p, int n) { SOLVER::Vector v(n); for (int i = 0; i < n; i++) v[i] = p[i]; return v; }
extern "C" int s_solve(const float *a, int m, int n, const float *b, float *x, float tol) { SOLVER::Matrix A = MX(a, m, n); SOLVER::Vector B = VX(b, m), X = VX(x, n); int r = SOLVER::solve(A, B, X, tol); for (int i = 0; i < n; i++) x[i] = X[i]; return r; }
extern "C" int s_solve0(const float *a, int m, int n, const float *b, float *x) { SOLVER::Matrix A = MX(a, m, n); SOLVER::Vector B = VX(b, m), X = VX(x, n); int r = SOLVER::solve(A, B, X); for (int i = 0; i < n; i++) x[i] = X[i]; return r; }
