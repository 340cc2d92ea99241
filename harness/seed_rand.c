/* Linked into the stand-alone tools: lets a case choose the seed of rand(), which the tools never seed themselves. */
#include <stdlib.h>
__attribute__((constructor)) static void seed_rand(void) { const char *s = getenv("PBT_SRAND"); if (s) srand((unsigned)atol(s)); }
