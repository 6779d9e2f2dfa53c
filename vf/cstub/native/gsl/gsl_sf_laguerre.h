#pragma once
static inline double gsl_sf_laguerre_n(const int n, const double a, const double x) {
    double p = 1, q = 1 + a - x, r;
    int k;
    if (n <= 0) return 1;
    for (k = 1; k < n; ++k) r = ((2 * k + 1 + a - x) * q - (k + a) * p) / (k + 1), p = q, q = r;
    return q;
}
