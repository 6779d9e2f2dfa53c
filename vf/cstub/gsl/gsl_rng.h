/* stand-in for the GNU Scientific Library (not installed): only what the FDTD sources use */
#ifndef VF_GSL_RNG
#define VF_GSL_RNG
#include <stdlib.h>
typedef struct { int unused; } gsl_rng_type;
typedef struct { unsigned long s; } gsl_rng;
static const gsl_rng_type vf_gsl_type = {0};
static const gsl_rng_type *const vf_gsl_default = &vf_gsl_type;
#define gsl_rng_default vf_gsl_default
static inline const gsl_rng_type *gsl_rng_env_setup(void) { return vf_gsl_default; }
static inline gsl_rng *gsl_rng_alloc(const gsl_rng_type *t) { (void)t; return (gsl_rng *)calloc(1, sizeof(gsl_rng)); }
static inline void gsl_rng_set(gsl_rng *r, unsigned long s) { r->s = s; }
static inline double gsl_rng_uniform(gsl_rng *r) {
  r->s = r->s * 6364136223846793005UL + 1442695040888963407UL;
  return (double)(r->s >> 11) / 9007199254740992.0;
}
#endif
