// C21: the math, vector and integer primitives of Terathon, in each build variant (see c21v.cpp).
#include "engine.h"
namespace pbt
{
    const char* const kProperty = "C21";
    const char* const kRule     = "One case takes one build variant (SSE2, AVX, no SIMD) and either 256 integers, or 192 single floats, or a run of 4096 consecutive floats from a random starting bit pattern, or 48 sets of vectors, and puts them through every function whose domain "
                                  "holds them; floats are taken from all bit patterns, powers of two, integers and half integers, table steps (n/64, n tau/256, n) and their neighbours, the 2^22..2^25 region, and the range ends of each function; integers from powers of two, limits and all "
                                  "widths; oracle: plain integer definitions, exact IEEE arithmetic of the same operation, and the C library in double precision within stated tolerances; non-trivial = a value within 4 ulp of a table step, power of two, "
                                  "or domain end, or a vector whose lanes differ; distinct by inputs.";
    void setup() {}
    void c21_sse2( Src&, Ctx& );
    void c21_avx( Src&, Ctx& );
    void c21_nosimd( Src&, Ctx& );

    void runCase( Src& s, Ctx& c )
    {
        static const bool avx = __builtin_cpu_supports( "avx" );
        uint32_t          k   = s.pick( { 4, 3, 3 } );
        if ( k == 1 && !avx ) k = 0;
        c.note( k == 0 ? "variant: SSE2" : k == 1 ? "variant: AVX" : "variant: TERATHON_NO_SIMD" );
        c.label( k == 0 ? "SSE2" : k == 1 ? "AVX" : "NO_SIMD" );
        if ( k == 0 ) c21_sse2( s, c );
        else if ( k == 1 ) c21_avx( s, c );
        else c21_nosimd( s, c );
    }
}
