#ifndef VF_GSL_RANDIST
#define VF_GSL_RANDIST
#include "gsl_rng.h"
#include <math.h>
static inline double gsl_ran_gaussian(gsl_rng *r, double sigma) {
  double u = gsl_rng_uniform(r) + 1e-300, v = gsl_rng_uniform(r);
  return sigma * sqrt(-2.0 * log(u)) * cos(6.283185307179586 * v);
}
#endif
