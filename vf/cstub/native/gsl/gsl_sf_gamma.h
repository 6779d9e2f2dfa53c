#pragma once
#include <math.h>
static inline double gsl_sf_fact(const unsigned int n) { return tgamma((double)n + 1); }
static inline double gsl_sf_lnfact(const unsigned int n) { return lgamma((double)n + 1); }
static inline double gsl_sf_choose(unsigned int n, unsigned int m) { return round(exp(lgamma(n + 1.0) - lgamma(m + 1.0) - lgamma(n - m + 1.0))); }
