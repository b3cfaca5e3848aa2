// analysed, never run: one of the generator's functions applied to an arbitrary generator
#include "tinymt64.h"
#include <cstddef>
#if defined(SA_INIT)
void sa_rng(tinymt64_t *g, uint64_t seed) { tinymt64_init(g, seed); }
#elif defined(SA_ARRAY)
void sa_rng(tinymt64_t *g, const uint64_t *key, int length) { tinymt64_init_by_array(g, key, length); }
#elif defined(SA_OFF)
unsigned long sa_rng() { return offsetof(tinymt64_t, SA_OFF); }
#else
SA_TYPE sa_rng(tinymt64_t *g) { return SA_DRAW(g); }
#endif
