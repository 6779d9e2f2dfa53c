/* allocations with red zones, filled with a pattern that is neither a number nor a valid pointer */
#include <stdlib.h>
#include <string.h>
void *vf_malloc(size_t n);
void *vf_calloc(size_t m, size_t n);
void *vf_realloc(void *p, size_t n);
void vf_free(void *p);
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
