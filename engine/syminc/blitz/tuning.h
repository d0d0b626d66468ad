// For the proofs the array library takes its plain element loop and its plain allocation: the paths
// that these constants choose otherwise unroll the same loop, or shift a block to a cache line.
#include_next <blitz/tuning.h>
#undef BZ_MAX_BITS_FOR_BINARY_UNROLL
#undef BZ_VECTORIZED_LOOP_WIDTH
#undef BZ_CACHE_LINES_TO_ALIGN
#define BZ_MAX_BITS_FOR_BINARY_UNROLL 1
#define BZ_VECTORIZED_LOOP_WIDTH 1
#define BZ_CACHE_LINES_TO_ALIGN (1L << 55)
