// One build variant of C21; the namespace Terathon is renamed on the command line (-DTerathon=T_x).
#include "engine.h"
#include <cmath>
#include <cstring>
#include <limits>
#include "TSBasic.h"
#include "TSMath.h"
#define CAT2( a, b ) a##b
#define CAT( a, b ) CAT2( a, b )
using namespace Terathon;
namespace
{
    using pbt::Ctx;
    using pbt::Src;
    using pbt::fmt;

    float    fbits( uint32_t u ) { float f; memcpy( &f, &u, 4 ); return f; }
    uint32_t ubits( float f ) { uint32_t u; memcpy( &u, &f, 4 ); return u; }
    bool     finite( float f ) { return ( ubits( f ) & 0x7F800000 ) != 0x7F800000; }
    bool     isnan_( float f ) { return f != f; }
    bool     normal( float f ) { uint32_t e = ubits( f ) >> 23 & 255; return e != 0 && e != 255; }
    bool     same( float a, float b ) { return a == b || ( isnan_( a ) && isnan_( b ) ); }
    const float kInf = std::numeric_limits<float>::infinity();
#ifdef TERATHON_NO_SIMD
    const double kRoot = 1.5e-5, kArc = 1e-5;
#else
    const double kRoot = 2e-6, kArc = 4e-6;
#endif

    [[noreturn]] void bad( Ctx& c, const char* f, float x, double got, double want )
    {
        c.fail( fmt( "%s( %.9g [%08x] ) = %.9g, expected %.9g", f, x, ubits( x ), got, want ) );
    }
    void eq( Ctx& c, const char* f, float x, float got, float want )
    {
        if ( !same( got, want ) ) bad( c, f, x, got, want );
    }
    void rel( Ctx& c, const char* f, float x, double got, double want, double tol )
    {
        if ( !( std::fabs( got - want ) <= tol * std::fabs( want ) ) ) bad( c, f, x, got, want );
    }
    void abs_( Ctx& c, const char* f, float x, double got, double want, double tol )
    {
        if ( !( std::fabs( got - want ) <= tol ) ) bad( c, f, x, got, want );
    }
    void root( Ctx& c, const char* f, float x, float got )
    {
        if ( !finite( x ) ) return;
        if ( normal( x ) && x > 0 ) rel( c, f, x, got, std::sqrt( double( x ) ), kRoot );
        else if ( got != 0.0F ) bad( c, f, x, got, 0 );
    }

    // ------------------------------------------------------------------ scalar functions of one float
    void scalar( Ctx& c, float x )
    {
        if ( isnan_( x ) ) return;
        const double d = double( x ), ad = std::fabs( d );
        // exact
        eq( c, "Fabs", x, Fabs( x ), std::fabs( x ) );
        eq( c, "Fnabs", x, Fnabs( x ), -std::fabs( x ) );
        eq( c, "Fsgn", x, Fsgn( x ), x < 0 ? -1.0F : x > 0 ? 1.0F : 0.0F );
        eq( c, "Fnsgn", x, Fnsgn( x ), x < 0 ? 1.0F : x > 0 ? -1.0F : 0.0F );
        if ( x != 0 )
        {
            eq( c, "NonzeroFsgn", x, NonzeroFsgn( x ), x < 0 ? -1.0F : 1.0F );
            eq( c, "NonzeroFnsgn", x, NonzeroFnsgn( x ), x < 0 ? 1.0F : -1.0F );
        }
        else
        {
            eq( c, "|NonzeroFsgn|", x, std::fabs( NonzeroFsgn( x ) ), 1.0F );
            eq( c, "|NonzeroFnsgn|", x, std::fabs( NonzeroFnsgn( x ) ), 1.0F );
        }
        eq( c, "FminZero", x, FminZero( x ), x < 0 ? x : 0.0F );
        eq( c, "FmaxZero", x, FmaxZero( x ), x > 0 ? x : 0.0F );
        eq( c, "Saturate", x, Saturate( x ), x < 0 ? 0.0F : x > 1 ? 1.0F : x );
        const float fl = std::floor( x ), ce = std::ceil( x );
        eq( c, "Floor", x, Floor( x ), fl );
        eq( c, "Ceil", x, Ceil( x ), ce );
        float a = 7, b = 7;
        FloorCeil( x, &a, &b );
        eq( c, "FloorCeil (floor)", x, a, fl );
        eq( c, "FloorCeil (ceil)", x, b, ce );
        if ( finite( x ) ) eq( c, "Frac", x, Frac( x ), x - fl );
        if ( x >= 0 && x <= 8388608.0F )
        {
            eq( c, "PositiveFloor", x, PositiveFloor( x ), fl );
            eq( c, "PositiveCeil", x, PositiveCeil( x ), ce );
            eq( c, "PositiveFrac", x, PositiveFrac( x ), x - fl );
            a = b = 7.5F;
            PositiveFloorCeil( x, &a, &b );
            eq( c, "PositiveFloorCeil (floor)", x, a, fl );
            eq( c, "PositiveFloorCeil (ceil)", x, b, ce );
        }
        if ( x <= 0 && x >= -8388608.0F )
        {
            eq( c, "NegativeFloor", x, NegativeFloor( x ), fl );
            eq( c, "NegativeCeil", x, NegativeCeil( x ), ce );
            eq( c, "NegativeFrac", x, NegativeFrac( x ), x - fl );
            a = b = 7.5F;
            NegativeFloorCeil( x, &a, &b );
            eq( c, "NegativeFloorCeil (floor)", x, a, fl );
            eq( c, "NegativeFloorCeil (ceil)", x, b, ce );
        }
        // roots
        root( c, "Sqrt", x, Sqrt( x ) );
        if ( finite( x ) )
        {
            float r = InverseSqrt( x );
            if ( normal( x ) && x > 0 ) rel( c, "InverseSqrt", x, r, 1.0 / std::sqrt( d ), kRoot );
            else eq( c, "InverseSqrt", x, r, kInf );
        }
        // trigonometry
        if ( ad <= 200000.0 )
        {
            const double tol = 6e-7 * ( ad > 1 ? ad : 1 ), si = std::sin( d ), co = std::cos( d );
            const float  fs = Sin( x ), fc = Cos( x );
            abs_( c, "Sin", x, fs, si, tol );
            abs_( c, "Cos", x, fc, co, tol );
            a = b = 7.5F;
            CosSin( x, &a, &b );
            abs_( c, "CosSin (cos)", x, a, co, tol );
            abs_( c, "CosSin (sin)", x, b, si, tol );
            if ( std::fabs( co ) > 0.05 && tol < 1e-4 ) abs_( c, "Tan", x, Tan( x ), si / co, 2 * tol / ( co * co ) );
        }
        if ( ad <= 1.0 )
        {
            abs_( c, "Arcsin", x, Arcsin( x ), std::asin( d ), kArc );
            abs_( c, "Arccos", x, Arccos( x ), std::acos( d ), kArc );
            if ( normal( x ) ) rel( c, "Arctan", x, Arctan( x ), std::atan( d ), 6e-7 );
        }
        abs_( c, "Arctan", x, Arctan( x ), std::atan( d ), 6e-7 );
        // exponential and logarithm
        {
            const float e = Exp( x );
            if ( x >= 89.0F ) eq( c, "Exp", x, e, kInf );
            else if ( x > 88.7F ) { if ( !( e >= 3.3e38F ) ) bad( c, "Exp", x, e, std::exp( d ) ); }
            else if ( x >= -87.0F ) rel( c, "Exp", x, e, std::exp( d ), 1e-6 );
            else if ( !( e >= 0.0F && e <= 1.7e-38F ) ) bad( c, "Exp", x, e, std::exp( d ) );
            const float l = Log( x );
            if ( x == 0 ) eq( c, "Log", x, l, -kInf );
            else if ( x < 0 ) { if ( !isnan_( l ) ) bad( c, "Log", x, l, NAN ); }
            else if ( normal( x ) )
            {
                const double w = std::log( d );
                abs_( c, "Log", x, l, w, 5e-7 * ( std::fabs( w ) > 1 ? std::fabs( w ) : 1 ) );
                if ( x >= 1.0F && x < 2.0F ) rel( c, "Log", x, l, w, 1e-6 );
            }
        }
    }

    // ------------------------------------------------------------------ scalar functions of several floats
    void multi( Ctx& c, float x, float y, float z, float w )
    {
        if ( isnan_( x ) || isnan_( y ) || isnan_( z ) || isnan_( w ) ) return;
        auto mn = []( float p, float q ) { return p < q ? p : q; };
        auto mx = []( float p, float q ) { return p > q ? p : q; };
        auto chk = [ & ]( const char* f, float got, float want ) {
            if ( got != want ) c.fail( fmt( "%s( %.9g, %.9g, %.9g, %.9g ) = %.9g, expected %.9g", f, x, y, z, w, got, want ) );
        };
        chk( "Fmin/2", Fmin( x, y ), mn( x, y ) );
        chk( "Fmin/3", Fmin( x, y, z ), mn( mn( x, y ), z ) );
        chk( "Fmin/4", Fmin( x, y, z, w ), mn( mn( x, y ), mn( z, w ) ) );
        chk( "Fmax/2", Fmax( x, y ), mx( x, y ) );
        chk( "Fmax/3", Fmax( x, y, z ), mx( mx( x, y ), z ) );
        chk( "Fmax/4", Fmax( x, y, z, w ), mx( mx( x, y ), mx( z, w ) ) );
        const float lo = mn( y, z ), hi = mx( y, z );
        const float g = Clamp( x, lo, hi ), e = x < lo ? lo : x > hi ? hi : x;
        if ( g != e ) c.fail( fmt( "Clamp( %.9g, %.9g, %.9g ) = %.9g, expected %.9g", x, lo, hi, g, e ) );
        // Arctan( y, x )
        auto in = []( float v ) { float k = std::fabs( v ); return k == 0 || ( k >= 1.2e-38F && k <= 3.4e38F ); };
        if ( in( x ) && in( y ) )
        {
            double want = y == 0 ? ( x < 0 ? 3.14159265358979323846 : 0.0 ) : std::atan2( double( y ), double( x ) );
            if ( x == 0 && y != 0 ) want = y < 0 ? -1.57079632679489661923 : 1.57079632679489661923;
            const float r = Arctan( y, x );
            if ( !( std::fabs( double( r ) - want ) <= 1e-6 ) ) c.fail( fmt( "Arctan( %.9g, %.9g ) = %.9g, expected %.9g", y, x, r, want ) );
        }
        // Pow
        float base = std::fabs( x );
        if ( normal( base ) && std::fabs( double( y ) ) < 1e6 )
        {
            const double l = std::log( double( base ) ), t = l * double( y );
            if ( std::fabs( t ) < 80 )
            {
                const double want = std::exp( t ), tol = 2e-6 + std::fabs( double( y ) ) * ( std::fabs( l ) > 1 ? std::fabs( l ) : 1 ) * 1e-6;
                const float  r = Pow( base, y );
                if ( tol < 0.05 && !( std::fabs( double( r ) - want ) <= 1.5 * tol * want ) ) c.fail( fmt( "Pow( %.9g, %.9g ) = %.9g, expected %.9g", base, y, r, want ) );
            }
        }
    }

    // ------------------------------------------------------------------ integers
    template <int32_t M>
    void modular( Ctx& c, int32_t v )
    {
        int32_t x = int32_t( uint32_t( v ) % uint32_t( M ) );
        if ( IncMod<M>( x ) != ( int64_t( x ) + 1 ) % M ) c.fail( fmt( "IncMod<%d>( %d ) = %d", M, x, IncMod<M>( x ) ) );
        if ( DecMod<M>( x ) != ( int64_t( x ) + M - 1 ) % M ) c.fail( fmt( "DecMod<%d>( %d ) = %d", M, x, DecMod<M>( x ) ) );
    }
    template <class T>
    void exchange( Ctx& c, T a, T b, const char* n )
    {
        T x = a, y = b;
        Exchange( x, y );
        if ( memcmp( &x, &b, sizeof( T ) ) || memcmp( &y, &a, sizeof( T ) ) ) c.fail( fmt( "Exchange of two %s did not swap them", n ) );
        T arr[ 3 ] = { a, b, a };
        Exchange( arr[ 1 ], arr[ 1 ] );
        if ( memcmp( &arr[ 1 ], &b, sizeof( T ) ) ) c.fail( fmt( "Exchange of a %s with itself changed it", n ) );
    }
    void integers( Ctx& c, int64_t A, int64_t B )
    {
        const int32_t x = int32_t( A ), y = int32_t( B );
        const uint32_t u = uint32_t( x );
        auto chk = [ & ]( const char* f, int64_t got, int64_t want ) {
            if ( got != want ) c.fail( fmt( "%s( %lld, %lld ) = %lld, expected %lld", f, (long long)A, (long long)B, (long long)got, (long long)want ) );
        };
        if ( x != INT32_MIN ) chk( "Abs", Abs( x ), x < 0 ? -x : x );
        if ( A != INT64_MIN ) chk( "Abs64", Abs64( A ), A < 0 ? -A : A );
        chk( "Sgn", Sgn( x ), x < 0 ? -1 : x > 0 ? 1 : 0 );
        chk( "Sgn64", Sgn64( A ), A < 0 ? -1 : A > 0 ? 1 : 0 );
        chk( "Min", Min( x, y ), x < y ? x : y );
        chk( "Max", Max( x, y ), x < y ? y : x );
        chk( "Min64", Min64( A, B ), A < B ? A : B );
        chk( "Max64", Max64( A, B ), A < B ? B : A );
        chk( "MinZero", MinZero( x ), x < 0 ? x : 0 );
        chk( "MaxZero", MaxZero( x ), x > 0 ? x : 0 );
        chk( "MinZero64", MinZero64( A ), A < 0 ? A : 0 );
        chk( "MaxZero64", MaxZero64( A ), A > 0 ? A : 0 );
        if ( int64_t( x ) - y == int64_t( int32_t( int64_t( x ) - y ) ) ) chk( "OverflowZero", OverflowZero( x, y ), x < y ? x : 0 );
        modular<1>( c, x );
        modular<2>( c, x );
        modular<7>( c, x );
        modular<256>( c, x );
        modular<1000003>( c, x );
        modular<INT32_MAX>( c, x );
        int32_t lz = 0;
        while ( lz < 32 && !( u >> ( 31 - lz ) & 1 ) ) lz++;
        chk( "Cntlz", Cntlz( u ), lz );
        chk( "IntLog2", IntLog2( u ), 31 - lz );
        if ( u )
        {
            uint64_t p = 1;
            while ( p * 2 <= u ) p *= 2;
            chk( "Pow2Floor", Pow2Floor( u ), int64_t( p ) );
            if ( u <= 0x80000000u ) chk( "Pow2Ceil", Pow2Ceil( u ), int64_t( p == u ? p : p * 2 ) );
        }
        exchange<int32_t>( c, x, y, "int32" );
        exchange<int64_t>( c, A, B, "int64" );
        exchange<uint8_t>( c, uint8_t( A ), uint8_t( B ), "uint8" );
        exchange<uint16_t>( c, uint16_t( A ), uint16_t( B ), "uint16" );
        exchange<float>( c, fbits( u ), fbits( uint32_t( y ) ), "float" );
    }

    // ------------------------------------------------------------------ constants and tables
    void constants( Ctx& c )
    {
        const double pi = 3.14159265358979323846264338327950288, tau = 2 * pi;
        struct K { const char* n; float v; double w; };
        const K k[] = {
            { "tau", Math::tau, tau }, { "two_tau", Math::two_tau, 2 * tau }, { "three_tau_over_4", Math::three_tau_over_4, 3 * tau / 4 }, { "three_tau_over_8", Math::three_tau_over_8, 3 * tau / 8 },
            { "tau_over_2", Math::tau_over_2, tau / 2 }, { "tau_over_3", Math::tau_over_3, tau / 3 }, { "two_tau_over_3", Math::two_tau_over_3, 2 * tau / 3 }, { "tau_over_4", Math::tau_over_4, tau / 4 },
            { "tau_over_6", Math::tau_over_6, tau / 6 }, { "tau_over_8", Math::tau_over_8, tau / 8 }, { "tau_over_12", Math::tau_over_12, tau / 12 }, { "tau_over_16", Math::tau_over_16, tau / 16 },
            { "tau_over_24", Math::tau_over_24, tau / 24 }, { "tau_over_40", Math::tau_over_40, tau / 40 }, { "one_over_tau", Math::one_over_tau, 1 / tau }, { "two_over_tau", Math::two_over_tau, 2 / tau },
            { "four_over_tau", Math::four_over_tau, 4 / tau }, { "one_over_two_tau", Math::one_over_two_tau, 0.5 / tau },
            { "pi", Math::pi, pi }, { "two_pi", Math::two_pi, 2 * pi }, { "four_pi", Math::four_pi, 4 * pi }, { "three_pi_over_2", Math::three_pi_over_2, 3 * pi / 2 }, { "three_pi_over_4", Math::three_pi_over_4, 3 * pi / 4 },
            { "two_pi_over_3", Math::two_pi_over_3, 2 * pi / 3 }, { "four_pi_over_3", Math::four_pi_over_3, 4 * pi / 3 }, { "pi_over_2", Math::pi_over_2, pi / 2 }, { "pi_over_3", Math::pi_over_3, pi / 3 },
            { "pi_over_4", Math::pi_over_4, pi / 4 }, { "pi_over_6", Math::pi_over_6, pi / 6 }, { "pi_over_8", Math::pi_over_8, pi / 8 }, { "pi_over_12", Math::pi_over_12, pi / 12 }, { "pi_over_20", Math::pi_over_20, pi / 20 },
            { "one_over_pi", Math::one_over_pi, 1 / pi }, { "one_over_two_pi", Math::one_over_two_pi, 0.5 / pi }, { "one_over_four_pi", Math::one_over_four_pi, 0.25 / pi },
            { "sqrt_2", Math::sqrt_2, std::sqrt( 2.0 ) }, { "sqrt_2_over_2", Math::sqrt_2_over_2, std::sqrt( 2.0 ) / 2 }, { "sqrt_2_over_3", Math::sqrt_2_over_3, std::sqrt( 2.0 ) / 3 },
            { "sqrt_3", Math::sqrt_3, std::sqrt( 3.0 ) }, { "sqrt_3_over_2", Math::sqrt_3_over_2, std::sqrt( 3.0 ) / 2 }, { "sqrt_3_over_3", Math::sqrt_3_over_3, std::sqrt( 3.0 ) / 3 },
            { "ln_2", Math::ln_2, std::log( 2.0 ) }, { "one_over_ln_2", Math::one_over_ln_2, 1 / std::log( 2.0 ) }, { "ln_10", Math::ln_10, std::log( 10.0 ) }, { "one_over_ln_10", Math::one_over_ln_10, 1 / std::log( 10.0 ) },
            { "ln_256", Math::ln_256, std::log( 256.0 ) },
        };
        for ( const K& e : k )
            if ( !( std::fabs( double( e.v ) / e.w - 1 ) <= 2.5e-7 ) ) c.fail( fmt( "Math::%s = %.9g, expected %.9g", e.n, e.v, e.w ) );
        if ( Math::infinity != kInf || Math::minus_infinity != -kInf || Math::min_float != std::numeric_limits<float>::min() || Math::max_float != std::numeric_limits<float>::max() ) c.fail( "a limit constant of Math is wrong" );
        for ( int n = 0; n < 256; n++ )
        {
            const float x = fbits( Math::trigTable[ n ][ 0 ] ), y = fbits( Math::trigTable[ n ][ 1 ] );
            if ( !( std::fabs( x - std::cos( tau * n / 256 ) ) <= 3e-7 && std::fabs( y - std::sin( tau * n / 256 ) ) <= 3e-7 ) ) c.fail( fmt( "trigTable[%d] = { %.9g, %.9g }", n, x, y ) );
        }
    }

#ifndef TERATHON_NO_SIMD
    // ------------------------------------------------------------------ vectors
    struct F4 { alignas( 16 ) float f[ 4 ]; };
    F4 st( const vec_float& v ) { F4 r; VecStore( v, r.f ); return r; }
    vec_float ld( const F4& a ) { return VecLoad( a.f ); }
    void vfail( Ctx& c, const char* n, const F4& a, const F4& b, const F4& d, int lane, float got, float want )
    {
        c.fail( fmt( "%s lane %d = %.9g, expected %.9g; operands {%.9g,%.9g,%.9g,%.9g} {%.9g,%.9g,%.9g,%.9g} {%.9g,%.9g,%.9g,%.9g}", n, lane, got, want, a.f[ 0 ], a.f[ 1 ], a.f[ 2 ], a.f[ 3 ], b.f[ 0 ], b.f[ 1 ], b.f[ 2 ], b.f[ 3 ], d.f[ 0 ],
                     d.f[ 1 ], d.f[ 2 ], d.f[ 3 ] ) );
    }
    // finite operands, and every intermediate finite as well
    void vectors( Src& s, Ctx& c, const F4& a, const F4& b, const F4& d, const F4& e, const F4& g )
    {
        const vec_float A = ld( a ), B = ld( b ), D = ld( d ), E = ld( e ), G = ld( g );
        auto lanes = [ & ]( const char* n, const vec_float& r, int k, auto&& want ) {
            F4 o = st( r );
            for ( int i = 0; i < k; i++ )
            {
                float w = want( i );
                if ( !same( o.f[ i ], w ) ) vfail( c, n, a, b, d, i, o.f[ i ], w );
            }
        };
        auto bitsof = [ & ]( const char* n, const vec_float& r, auto&& want ) {
            F4 o = st( r );
            for ( int i = 0; i < 4; i++ )
            {
                uint32_t w = want( i );
                if ( ubits( o.f[ i ] ) != w ) c.fail( fmt( "%s lane %d = %08x, expected %08x", n, i, ubits( o.f[ i ] ), w ) );
            }
        };
        auto ai = [ & ]( int i ) { return a.f[ i ]; };
        auto bi = [ & ]( int i ) { return b.f[ i ]; };
        auto di = [ & ]( int i ) { return d.f[ i ]; };
        // moves
        bitsof( "VecLoad", A, [ & ]( int i ) { return ubits( ai( i ) ); } );
        float un[ 6 ];
        for ( int off = 0; off < 2; off++ )
        {
            memcpy( un + off, a.f, 16 );
            bitsof( "VecLoadUnaligned", VecLoadUnaligned( un + off ), [ & ]( int i ) { return ubits( ai( i ) ); } );
            float o[ 6 ] = { 3, 3, 3, 3, 3, 3 };
            VecStoreUnaligned( A, o + off );
            if ( memcmp( o + off, a.f, 16 ) || o[ off ? 0 : 5 ] != 3 ) c.fail( "VecStoreUnaligned" );
        }
        bitsof( "VecSmearX", VecSmearX( A ), [ & ]( int ) { return ubits( ai( 0 ) ); } );
        bitsof( "VecSmearY", VecSmearY( A ), [ & ]( int ) { return ubits( ai( 1 ) ); } );
        bitsof( "VecSmearZ", VecSmearZ( A ), [ & ]( int ) { return ubits( ai( 2 ) ); } );
        bitsof( "VecSmearW", VecSmearW( A ), [ & ]( int ) { return ubits( ai( 3 ) ); } );
        bitsof( "VecLoadSmearScalar", VecLoadSmearScalar( &a.f[ 2 ] ), [ & ]( int ) { return ubits( ai( 2 ) ); } );
        bitsof( "VecFloatGetZero", VecFloatGetZero(), []( int ) { return 0u; } );
        bitsof( "VecFloatGetMinusZero", VecFloatGetMinusZero(), []( int ) { return 0x80000000u; } );
        bitsof( "VecLoadVectorConstant", VecLoadVectorConstant<0x40490FDB>(), []( int ) { return 0x40490FDBu; } );
        if ( ubits( st( VecLoadScalarConstant<0x40490FDB>() ).f[ 0 ] ) != 0x40490FDBu || ubits( st( VecLoadScalar( &a.f[ 1 ] ) ).f[ 0 ] ) != ubits( ai( 1 ) ) ) c.fail( "VecLoadScalar" );
        {
            auto sh = [ & ]( const char* n, const vec_float& r, int p3, int p2, int p1, int p0 ) {
                F4 o = st( r );
                if ( ubits( o.f[ 0 ] ) != ubits( a.f[ p0 ] ) || ubits( o.f[ 1 ] ) != ubits( a.f[ p1 ] ) || ubits( o.f[ 2 ] ) != ubits( b.f[ p2 ] ) || ubits( o.f[ 3 ] ) != ubits( b.f[ p3 ] ) ) c.fail( n );
            };
            sh( "VecShuffle<3,2,1,0>", VecShuffle<3, 2, 1, 0>( A, B ), 3, 2, 1, 0 );
            sh( "VecShuffle<0,1,2,3>", VecShuffle<0, 1, 2, 3>( A, B ), 0, 1, 2, 3 );
            sh( "VecShuffle<1,3,0,2>", VecShuffle<1, 3, 0, 2>( A, B ), 1, 3, 0, 2 );
        }
        {
            float x = 0, y = 0, z = 0, w = 0, t[ 4 ] = { 9, 9, 9, 9 };
            VecStoreX( A, &x );
            VecStoreY( A, &y );
            VecStoreZ( A, &z );
            VecStoreW( A, &w );
            VecStore3D( A, t );
            if ( ubits( x ) != ubits( ai( 0 ) ) || ubits( y ) != ubits( ai( 1 ) ) || ubits( z ) != ubits( ai( 2 ) ) || ubits( w ) != ubits( ai( 3 ) ) ) c.fail( "VecStoreX/Y/Z/W stored another lane" );
            if ( memcmp( t, a.f, 12 ) || t[ 3 ] != 9 ) c.fail( "VecStore3D" );
        }
        // arithmetic, exactly as the single operations
        lanes( "VecNegate", VecNegate( A ), 4, [ & ]( int i ) { return -ai( i ); } );
        lanes( "unary -", -A, 4, [ & ]( int i ) { return -ai( i ); } );
        lanes( "VecMin", VecMin( A, B ), 4, [ & ]( int i ) { return ai( i ) < bi( i ) ? ai( i ) : bi( i ); } );
        lanes( "VecMax", VecMax( A, B ), 4, [ & ]( int i ) { return ai( i ) > bi( i ) ? ai( i ) : bi( i ); } );
        lanes( "VecMinScalar", VecMinScalar( A, B ), 1, [ & ]( int i ) { return ai( i ) < bi( i ) ? ai( i ) : bi( i ); } );
        lanes( "VecMaxScalar", VecMaxScalar( A, B ), 1, [ & ]( int i ) { return ai( i ) > bi( i ) ? ai( i ) : bi( i ); } );
        lanes( "VecAdd", VecAdd( A, B ), 4, [ & ]( int i ) { return ai( i ) + bi( i ); } );
        lanes( "+", A + B, 4, [ & ]( int i ) { return ai( i ) + bi( i ); } );
        lanes( "VecAddScalar", VecAddScalar( A, B ), 1, [ & ]( int i ) { return ai( i ) + bi( i ); } );
        lanes( "VecSub", VecSub( A, B ), 4, [ & ]( int i ) { return ai( i ) - bi( i ); } );
        lanes( "-", A - B, 4, [ & ]( int i ) { return ai( i ) - bi( i ); } );
        lanes( "VecSubScalar", VecSubScalar( A, B ), 1, [ & ]( int i ) { return ai( i ) - bi( i ); } );
        lanes( "VecMul", VecMul( A, B ), 4, [ & ]( int i ) { return ai( i ) * bi( i ); } );
        lanes( "*", A * B, 4, [ & ]( int i ) { return ai( i ) * bi( i ); } );
        lanes( "VecMulScalar", VecMulScalar( A, B ), 1, [ & ]( int i ) { return ai( i ) * bi( i ); } );
        lanes( "VecDiv", VecDiv( A, B ), 4, [ & ]( int i ) { return ai( i ) / bi( i ); } );
        lanes( "/", A / B, 4, [ & ]( int i ) { return ai( i ) / bi( i ); } );
        lanes( "VecDivScalar", VecDivScalar( A, B ), 1, [ & ]( int i ) { return ai( i ) / bi( i ); } );
        // sums of products, within the rounding of either order of evaluation
        auto near_ = [ & ]( const char* n, const vec_float& r, int k, auto&& want, auto&& mag ) {
            F4 o = st( r );
            for ( int i = 0; i < k; i++ )
            {
                double w = want( i ), m = mag( i );
                if ( !( m < 1e37 ) ) continue;
                if ( !( std::fabs( double( o.f[ i ] ) - w ) <= 6e-7 * m + 1e-37 ) ) vfail( c, n, a, b, d, i, o.f[ i ], float( w ) );
            }
        };
        auto P = []( float p, float q ) { return double( p ) * double( q ); };
        auto M = []( float p, float q ) { return std::fabs( double( p ) * double( q ) ); };
        near_( "VecMadd", VecMadd( A, B, D ), 4, [ & ]( int i ) { return P( ai( i ), bi( i ) ) + di( i ); }, [ & ]( int i ) { return M( ai( i ), bi( i ) ) + std::fabs( di( i ) ); } );
        near_( "VecMaddScalar", VecMaddScalar( A, B, D ), 1, [ & ]( int i ) { return P( ai( i ), bi( i ) ) + di( i ); }, [ & ]( int i ) { return M( ai( i ), bi( i ) ) + std::fabs( di( i ) ); } );
        near_( "VecNmsub", VecNmsub( A, B, D ), 4, [ & ]( int i ) { return di( i ) - P( ai( i ), bi( i ) ); }, [ & ]( int i ) { return M( ai( i ), bi( i ) ) + std::fabs( di( i ) ); } );
        near_( "VecNmsubScalar", VecNmsubScalar( A, B, D ), 1, [ & ]( int i ) { return di( i ) - P( ai( i ), bi( i ) ); }, [ & ]( int i ) { return M( ai( i ), bi( i ) ) + std::fabs( di( i ) ); } );
        auto dot = [ & ]( const F4& p, const F4& q, int k ) { double r = 0; for ( int i = 0; i < k; i++ ) r += P( p.f[ i ], q.f[ i ] ); return r; };
        auto mag = [ & ]( const F4& p, const F4& q, int k ) { double r = 0; for ( int i = 0; i < k; i++ ) r += M( p.f[ i ], q.f[ i ] ); return r; };
        near_( "VecHorizontalSum3D", VecHorizontalSum3D( A ), 1, [ & ]( int ) { return double( ai( 0 ) ) + ai( 1 ) + ai( 2 ); }, [ & ]( int ) { return std::fabs( double( ai( 0 ) ) ) + std::fabs( double( ai( 1 ) ) ) + std::fabs( double( ai( 2 ) ) ); } );
        near_( "VecDot3D", VecDot3D( A, B ), 1, [ & ]( int ) { return dot( a, b, 3 ); }, [ & ]( int ) { return mag( a, b, 3 ); } );
        near_( "VecDot4D", VecDot4D( A, B ), 1, [ & ]( int ) { return dot( a, b, 4 ); }, [ & ]( int ) { return mag( a, b, 4 ); } );
        near_( "VecPlaneDotPoint3D", VecPlaneDotPoint3D( A, B ), 1, [ & ]( int ) { return dot( a, b, 3 ) + ai( 3 ); }, [ & ]( int ) { return mag( a, b, 3 ) + std::fabs( double( ai( 3 ) ) ); } );
        bool moderate = true; // no underflow of the inner product
        for ( int i = 0; i < 4; i++ )
            for ( float q : { ai( i ), bi( i ) } )
                if ( q != 0 && !( std::fabs( q ) >= 1e-6F && std::fabs( q ) <= 1e6F ) ) moderate = false;
        if ( moderate )
        {
            near_( "VecProject3D", VecProject3D( A, B ), 3, [ & ]( int i ) { return dot( a, b, 3 ) * bi( i ); }, [ & ]( int i ) { return mag( a, b, 3 ) < 1e36 ? 2 * mag( a, b, 3 ) * std::fabs( bi( i ) ) : 1e38; } );
            near_( "VecReject3D", VecReject3D( A, B ), 3, [ & ]( int i ) { return ai( i ) - dot( a, b, 3 ) * bi( i ); }, [ & ]( int i ) { return mag( a, b, 3 ) < 1e36 ? std::fabs( double( ai( i ) ) ) + 2 * mag( a, b, 3 ) * std::fabs( bi( i ) ) : 1e38; } );
        }
        near_( "VecCross3D", VecCross3D( A, B ), 3, [ & ]( int i ) { int j = ( i + 1 ) % 3, k = ( i + 2 ) % 3; return P( ai( j ), bi( k ) ) - P( ai( k ), bi( j ) ); },
               [ & ]( int i ) { int j = ( i + 1 ) % 3, k = ( i + 2 ) % 3; return M( ai( j ), bi( k ) ) + M( ai( k ), bi( j ) ); } );
        near_( "VecTransformVector3D", VecTransformVector3D( A, B, D, G ), 3, [ & ]( int i ) { return P( ai( i ), g.f[ 0 ] ) + P( bi( i ), g.f[ 1 ] ) + P( di( i ), g.f[ 2 ] ); },
               [ & ]( int i ) { return M( ai( i ), g.f[ 0 ] ) + M( bi( i ), g.f[ 1 ] ) + M( di( i ), g.f[ 2 ] ); } );
        near_( "VecTransformPoint3D", VecTransformPoint3D( A, B, D, E, G ), 3, [ & ]( int i ) { return P( ai( i ), g.f[ 0 ] ) + P( bi( i ), g.f[ 1 ] ) + P( di( i ), g.f[ 2 ] ) + e.f[ i ]; },
               [ & ]( int i ) { return M( ai( i ), g.f[ 0 ] ) + M( bi( i ), g.f[ 1 ] ) + M( di( i ), g.f[ 2 ] ) + std::fabs( double( e.f[ i ] ) ); } );
        // bits and comparisons
        auto ua = [ & ]( int i ) { return ubits( ai( i ) ); };
        auto ub = [ & ]( int i ) { return ubits( bi( i ) ); };
        bitsof( "VecAnd", VecAnd( A, B ), [ & ]( int i ) { return ua( i ) & ub( i ); } );
        bitsof( "&", A & B, [ & ]( int i ) { return ua( i ) & ub( i ); } );
        bitsof( "VecAndc", VecAndc( A, B ), [ & ]( int i ) { return ua( i ) & ~ub( i ); } );
        bitsof( "VecOr", VecOr( A, B ), [ & ]( int i ) { return ua( i ) | ub( i ); } );
        bitsof( "|", A | B, [ & ]( int i ) { return ua( i ) | ub( i ); } );
        bitsof( "VecXor", VecXor( A, B ), [ & ]( int i ) { return ua( i ) ^ ub( i ); } );
        bitsof( "^", A ^ B, [ & ]( int i ) { return ua( i ) ^ ub( i ); } );
        const vec_float lt = VecMaskCmplt( A, B );
        bitsof( "VecMaskCmplt", lt, [ & ]( int i ) { return ai( i ) < bi( i ) ? ~0u : 0u; } );
        bitsof( "VecMaskCmpgt", VecMaskCmpgt( A, B ), [ & ]( int i ) { return ai( i ) > bi( i ) ? ~0u : 0u; } );
        bitsof( "VecMaskCmpeq", VecMaskCmpeq( A, B ), [ & ]( int i ) { return ai( i ) == bi( i ) ? ~0u : 0u; } );
        bitsof( "VecSelect", VecSelect( D, E, lt ), [ & ]( int i ) { return ubits( ai( i ) < bi( i ) ? e.f[ i ] : d.f[ i ] ); } );
        if ( VecCmpeqScalar( A, B ) != ( ai( 0 ) == bi( 0 ) ) || VecCmpltScalar( A, B ) != ( ai( 0 ) < bi( 0 ) ) || VecCmpgtScalar( A, B ) != ( ai( 0 ) > bi( 0 ) ) ) c.fail( "a scalar comparison is wrong" );
        if ( VecCmpltAny3D( A, B ) != ( ai( 0 ) < bi( 0 ) || ai( 1 ) < bi( 1 ) || ai( 2 ) < bi( 2 ) ) ) vfail( c, "VecCmpltAny3D", a, b, d, 0, 0, 0 );
        if ( VecCmpgtAny3D( A, B ) != ( ai( 0 ) > bi( 0 ) || ai( 1 ) > bi( 1 ) || ai( 2 ) > bi( 2 ) ) ) vfail( c, "VecCmpgtAny3D", a, b, d, 0, 0, 0 );
        // element-wise functions
        lanes( "VecFloor", VecFloor( A ), 4, [ & ]( int i ) { return std::floor( ai( i ) ); } );
        lanes( "VecFloorScalar", VecFloorScalar( A ), 1, [ & ]( int i ) { return std::floor( ai( i ) ); } );
        lanes( "VecCeil", VecCeil( A ), 4, [ & ]( int i ) { return std::ceil( ai( i ) ); } );
        lanes( "VecCeilScalar", VecCeilScalar( A ), 1, [ & ]( int i ) { return std::ceil( ai( i ) ); } );
        vec_float       f1, c1;
        F4              seven;
        for ( float& z : seven.f ) z = 7.5F;
        const vec_float poison = ld( seven );
        f1 = c1 = poison;
        VecFloorCeil( A, &f1, &c1 );
        lanes( "VecFloorCeil (floor)", f1, 4, [ & ]( int i ) { return std::floor( ai( i ) ); } );
        lanes( "VecFloorCeil (ceil)", c1, 4, [ & ]( int i ) { return std::ceil( ai( i ) ); } );
        f1 = c1 = poison;
        VecFloorCeilScalar( A, &f1, &c1 );
        lanes( "VecFloorCeilScalar (floor)", f1, 1, [ & ]( int i ) { return std::floor( ai( i ) ); } );
        lanes( "VecFloorCeilScalar (ceil)", c1, 1, [ & ]( int i ) { return std::ceil( ai( i ) ); } );
        F4 p = a, q = a;
        for ( int i = 0; i < 4; i++ )
        {
            float m = std::fabs( a.f[ i ] );
            if ( m > 8388608.0F ) m = std::fmod( m, 8388608.0F );
            p.f[ i ] = m;
            q.f[ i ] = -m;
        }
        const vec_float PV = ld( p ), Q = ld( q );
        auto pf = [ & ]( int i ) { return std::floor( p.f[ i ] ); };
        auto pc = [ & ]( int i ) { return std::ceil( p.f[ i ] ); };
        auto nf = [ & ]( int i ) { return std::floor( q.f[ i ] ); };
        auto nc = [ & ]( int i ) { return std::ceil( q.f[ i ] ); };
        lanes( "VecPositiveFloor", VecPositiveFloor( PV ), 4, pf );
        lanes( "VecPositiveFloorScalar", VecPositiveFloorScalar( PV ), 1, pf );
        lanes( "VecPositiveCeil", VecPositiveCeil( PV ), 4, pc );
        lanes( "VecPositiveCeilScalar", VecPositiveCeilScalar( PV ), 1, pc );
        lanes( "VecNegativeFloor", VecNegativeFloor( Q ), 4, nf );
        lanes( "VecNegativeFloorScalar", VecNegativeFloorScalar( Q ), 1, nf );
        lanes( "VecNegativeCeil", VecNegativeCeil( Q ), 4, nc );
        lanes( "VecNegativeCeilScalar", VecNegativeCeilScalar( Q ), 1, nc );
        f1 = c1 = poison;
        VecPositiveFloorCeil( PV, &f1, &c1 );
        lanes( "VecPositiveFloorCeil (floor)", f1, 4, pf );
        lanes( "VecPositiveFloorCeil (ceil)", c1, 4, pc );
        f1 = c1 = poison;
        VecPositiveFloorCeilScalar( PV, &f1, &c1 );
        lanes( "VecPositiveFloorCeilScalar (floor)", f1, 1, pf );
        lanes( "VecPositiveFloorCeilScalar (ceil)", c1, 1, pc );
        f1 = c1 = poison;
        VecNegativeFloorCeil( Q, &f1, &c1 );
        lanes( "VecNegativeFloorCeil (floor)", f1, 4, nf );
        lanes( "VecNegativeFloorCeil (ceil)", c1, 4, nc );
        f1 = c1 = poison;
        VecNegativeFloorCeilScalar( Q, &f1, &c1 );
        lanes( "VecNegativeFloorCeilScalar (floor)", f1, 1, nf );
        lanes( "VecNegativeFloorCeilScalar (ceil)", c1, 1, nc );
        auto sg = []( float x ) { return x < 0 ? -1.0F : x > 0 ? 1.0F : 0.0F; };
        lanes( "VecFsgn", VecFsgn( A ), 4, [ & ]( int i ) { return sg( ai( i ) ); } );
        lanes( "VecFnsgn", VecFnsgn( A ), 4, [ & ]( int i ) { return -sg( ai( i ) ); } );
        lanes( "VecNonzeroFsgn", VecNonzeroFsgn( A ), 4, [ & ]( int i ) { return ai( i ) == 0 ? st( VecNonzeroFsgn( A ) ).f[ i ] : sg( ai( i ) ); } );
        lanes( "VecNonzeroFnsgn", VecNonzeroFnsgn( A ), 4, [ & ]( int i ) { return ai( i ) == 0 ? st( VecNonzeroFnsgn( A ) ).f[ i ] : -sg( ai( i ) ); } );
        {
            F4 r = p;
            for ( int i = 0; i < 4; i++ ) { r.f[ i ] = std::fabs( a.f[ i ] ); if ( !normal( r.f[ i ] ) ) r.f[ i ] = 0; }
            F4 o = st( VecSqrt( ld( r ) ) ), v = st( VecInverseSqrt( ld( r ) ) ), o1 = st( VecSqrtScalar( ld( r ) ) ), v1 = st( VecInverseSqrtScalar( ld( r ) ) );
            for ( int i = 0; i < 4; i++ )
            {
                const double w = std::sqrt( double( r.f[ i ] ) );
                rel( c, "VecSqrt", r.f[ i ], o.f[ i ], w, kRoot );
                if ( i == 0 ) rel( c, "VecSqrtScalar", r.f[ i ], o1.f[ i ], w, kRoot );
                if ( w == 0 ) continue;
                rel( c, "VecInverseSqrt", r.f[ i ], v.f[ i ], 1 / w, kRoot );
                if ( i == 0 ) rel( c, "VecInverseSqrtScalar", r.f[ i ], v1.f[ i ], 1 / w, kRoot );
            }
        }
        if ( std::fabs( ai( 0 ) ) < 2147483000.0F && VecTruncateConvert( A ) != int32_t( ai( 0 ) ) ) c.fail( fmt( "VecTruncateConvert( %.9g ) = %d", ai( 0 ), VecTruncateConvert( A ) ) );
        {
            F4 r = a;
            for ( int i = 0; i < 4; i++ ) if ( !( std::fabs( r.f[ i ] ) < 2147483000.0F ) ) r.f[ i ] = 0;
            alignas( 16 ) int32_t o[ 4 ];
            vec_int32 iv = VecConvertInt32( ld( r ) );
            memcpy( o, &iv, 16 );
            for ( int i = 0; i < 4; i++ )
                if ( o[ i ] != int32_t( std::nearbyint( double( r.f[ i ] ) ) ) ) c.fail( fmt( "VecConvertInt32 lane %d of %.9g = %d", i, r.f[ i ], o[ i ] ) );
        }
        (void)s;
    #if defined( TERATHON_AVX )
        {
            struct alignas( 32 ) F8 { float f[ 8 ]; } x, o, y;
            memcpy( x.f, a.f, 16 );
            memcpy( x.f + 4, b.f, 16 );
            memcpy( y.f, d.f, 16 );
            memcpy( y.f + 4, e.f, 16 );
            const exv_float X = ExvFloat( A, B ), Y = ExvLoad( y.f );
            auto ex = [ & ]( const char* n, const exv_float& r, auto&& want ) {
                ExvStore( r, o.f );
                for ( int i = 0; i < 8; i++ )
                {
                    float w = want( i );
                    if ( ubits( o.f[ i ] ) != ubits( w ) && !( isnan_( w ) && isnan_( o.f[ i ] ) ) ) vfail( c, n, a, b, d, i, o.f[ i ], w );
                }
            };
            ex( "ExvFloat", X, [ & ]( int i ) { return x.f[ i ]; } );
            ex( "ExvLoad", Y, [ & ]( int i ) { return y.f[ i ]; } );
            ex( "ExvFloatGetZero", ExvFloatGetZero(), []( int ) { return 0.0F; } );
            ex( "ExvFloatGetMinusZero", ExvFloatGetMinusZero(), []( int ) { return -0.0F; } );
            ex( "ExvSmearX", ExvSmearX( X ), [ & ]( int i ) { return x.f[ i & 4 ]; } );
            ex( "ExvSmearY", ExvSmearY( X ), [ & ]( int i ) { return x.f[ ( i & 4 ) + 1 ]; } );
            ex( "ExvSmearZ", ExvSmearZ( X ), [ & ]( int i ) { return x.f[ ( i & 4 ) + 2 ]; } );
            ex( "ExvSmearW", ExvSmearW( X ), [ & ]( int i ) { return x.f[ ( i & 4 ) + 3 ]; } );
            ex( "ExvSmearVecLo", ExvSmearVecLo( X ), [ & ]( int i ) { return x.f[ i & 3 ]; } );
            ex( "ExvSmearVecHi", ExvSmearVecHi( X ), [ & ]( int i ) { return x.f[ 4 + ( i & 3 ) ]; } );
            ex( "ExvLoadSmearScalar", ExvLoadSmearScalar( &x.f[ 5 ] ), [ & ]( int ) { return x.f[ 5 ]; } );
            float q4[ 4 ];
            ExvStoreX( X, &q4[ 0 ] );
            ExvStoreY( X, &q4[ 1 ] );
            ExvStoreZ( X, &q4[ 2 ] );
            ExvStoreW( X, &q4[ 3 ] );
            if ( memcmp( q4, a.f, 16 ) ) c.fail( "ExvStoreX/Y/Z/W stored another lane" );
            ex( "ExvMul", ExvMul( X, Y ), [ & ]( int i ) { return x.f[ i ] * y.f[ i ]; } );
            ex( "Exv *", X * Y, [ & ]( int i ) { return x.f[ i ] * y.f[ i ]; } );
            ExvStore( ExvMadd( X, Y, X ), o.f );
            for ( int i = 0; i < 8; i++ )
            {
                const double w = P( x.f[ i ], y.f[ i ] ) + x.f[ i ], m = M( x.f[ i ], y.f[ i ] ) + std::fabs( double( x.f[ i ] ) );
                if ( m < 1e37 && !( std::fabs( o.f[ i ] - w ) <= 6e-7 * m + 1e-37 ) ) vfail( c, "ExvMadd", a, b, d, i, o.f[ i ], float( w ) );
            }
        }
    #endif
    }

    // ------------------------------------------------------------------ integer vectors
    template <class T>
    struct alignas( 16 ) IV
    {
        T v[ 16 / sizeof( T ) ];
    };
    template <class T, class V>
    IV<T> iv( const V& v ) { IV<T> r; memcpy( &r, &v, 16 ); return r; }
    void intVectors( Ctx& c, const uint8_t* raw, const uint8_t* raw2 )
    {
        IV<int8_t>   a, a2;
        IV<int16_t>  h;
        IV<uint16_t> uh;
        IV<uint8_t>  u, u2;
        IV<int32_t>  w, w2;
        memcpy( &a, raw, 16 );
        memcpy( &a2, raw2, 16 );
        memcpy( &h, raw, 16 );
        memcpy( &uh, raw, 16 );
        memcpy( &u, raw, 16 );
        memcpy( &u2, raw2, 16 );
        memcpy( &w, raw, 16 );
        memcpy( &w2, raw2, 16 );
        auto cmp = [ & ]( const char* n, auto got, auto&& want, int cnt ) {
            for ( int i = 0; i < cnt; i++ )
                if ( got.v[ i ] != want( i ) ) c.fail( fmt( "%s element %d = %lld, expected %lld", n, i, (long long)got.v[ i ], (long long)want( i ) ) );
        };
        alignas( 16 ) uint8_t buf[ 32 ];
        memcpy( buf + 1, raw, 16 );
        cmp( "VecInt8Load", iv<int8_t>( VecInt8Load( a.v ) ), [ & ]( int i ) { return a.v[ i ]; }, 16 );
        cmp( "VecInt8LoadUnaligned", iv<int8_t>( VecInt8LoadUnaligned( reinterpret_cast<int8*>( buf + 1 ) ) ), [ & ]( int i ) { return a.v[ i ]; }, 16 );
        cmp( "VecUInt8Load", iv<uint8_t>( VecUInt8Load( u.v ) ), [ & ]( int i ) { return u.v[ i ]; }, 16 );
        cmp( "VecUInt8LoadUnaligned", iv<uint8_t>( VecUInt8LoadUnaligned( buf + 1 ) ), [ & ]( int i ) { return u.v[ i ]; }, 16 );
        cmp( "VecInt16Load", iv<int16_t>( VecInt16Load( h.v ) ), [ & ]( int i ) { return h.v[ i ]; }, 8 );
        memcpy( buf + 2, raw, 16 );
        cmp( "VecInt16LoadUnaligned", iv<int16_t>( VecInt16LoadUnaligned( reinterpret_cast<int16*>( buf + 2 ) ) ), [ & ]( int i ) { return h.v[ i ]; }, 8 );
        cmp( "VecUInt16Load", iv<uint16_t>( VecUInt16Load( uh.v ) ), [ & ]( int i ) { return uh.v[ i ]; }, 8 );
        cmp( "VecUInt16LoadUnaligned", iv<uint16_t>( VecUInt16LoadUnaligned( reinterpret_cast<uint16*>( buf + 2 ) ) ), [ & ]( int i ) { return uh.v[ i ]; }, 8 );
        cmp( "VecInt8GetZero", iv<int8_t>( VecInt8GetZero() ), []( int ) { return 0; }, 16 );
        cmp( "VecInt16GetZero", iv<int16_t>( VecInt16GetZero() ), []( int ) { return 0; }, 8 );
        cmp( "VecInt32GetZero", iv<int32_t>( VecInt32GetZero() ), []( int ) { return 0; }, 4 );
        cmp( "VecInt8GetInfinity", iv<int8_t>( VecInt8GetInfinity() ), []( int ) { return -128; }, 16 );
        const vec_int8 A = VecInt8Load( a.v ), A2 = VecInt8Load( a2.v );
        int32_t x = 0, y = 0, z = 0, t = 0;
        VecInt32StoreX( A, &x );
        VecInt32StoreY( A, &y );
        VecInt32StoreZ( A, &z );
        VecInt32StoreW( A, &t );
        if ( x != w.v[ 0 ] || y != w.v[ 1 ] || z != w.v[ 2 ] || t != w.v[ 3 ] ) c.fail( "VecInt32StoreX/Y/Z/W stored another element" );
        auto sat = []( int64_t v, int64_t lo, int64_t hi ) { return v < lo ? lo : v > hi ? hi : v; };
        cmp( "VecInt32PackSaturate/1", iv<int16_t>( VecInt32PackSaturate( A ) ), [ & ]( int i ) { return sat( w.v[ i ], -32768, 32767 ); }, 4 );
        cmp( "VecInt32PackSaturate/2", iv<int16_t>( VecInt32PackSaturate( A, A2 ) ), [ & ]( int i ) { return sat( i < 4 ? w.v[ i ] : w2.v[ i - 4 ], -32768, 32767 ); }, 8 );
        cmp( "VecInt16PackSaturate", iv<int8_t>( VecInt16PackSaturate( A ) ), [ & ]( int i ) { return sat( h.v[ i ], -128, 127 ); }, 8 );
        cmp( "VecInt16PackUnsignedSaturate", iv<uint8_t>( VecInt16PackUnsignedSaturate( A ) ), [ & ]( int i ) { return sat( h.v[ i ], 0, 255 ); }, 8 );
        cmp( "VecInt8UnpackA", iv<int16_t>( VecInt8UnpackA( A ) ), [ & ]( int i ) { return int( a.v[ i ] ); }, 8 );
        cmp( "VecInt8UnpackB", iv<int16_t>( VecInt8UnpackB( A ) ), [ & ]( int i ) { return int( a.v[ 8 + i ] ); }, 8 );
        cmp( "VecUInt8UnpackA", iv<uint16_t>( VecUInt8UnpackA( A ) ), [ & ]( int i ) { return int( u.v[ i ] ); }, 8 );
        cmp( "VecUInt8UnpackB", iv<uint16_t>( VecUInt8UnpackB( A ) ), [ & ]( int i ) { return int( u.v[ 8 + i ] ); }, 8 );
        cmp( "VecInt16UnpackA", iv<int32_t>( VecInt16UnpackA( A ) ), [ & ]( int i ) { return int( h.v[ i ] ); }, 4 );
        cmp( "VecInt16UnpackB", iv<int32_t>( VecInt16UnpackB( A ) ), [ & ]( int i ) { return int( h.v[ 4 + i ] ); }, 4 );
        cmp( "VecUInt16UnpackA", iv<uint32_t>( VecUInt16UnpackA( A ) ), [ & ]( int i ) { return uint32_t( uh.v[ i ] ); }, 4 );
        cmp( "VecUInt16UnpackB", iv<uint32_t>( VecUInt16UnpackB( A ) ), [ & ]( int i ) { return uint32_t( uh.v[ 4 + i ] ); }, 4 );
        cmp( "VecInt8MergeA", iv<int8_t>( VecInt8MergeA( A, A2 ) ), [ & ]( int i ) { return i & 1 ? a2.v[ i / 2 ] : a.v[ i / 2 ]; }, 16 );
        cmp( "VecInt8MergeB", iv<int8_t>( VecInt8MergeB( A, A2 ) ), [ & ]( int i ) { return i & 1 ? a2.v[ 8 + i / 2 ] : a.v[ 8 + i / 2 ]; }, 16 );
        cmp( "VecUInt8MergeA", iv<uint8_t>( VecUInt8MergeA( A, A2 ) ), [ & ]( int i ) { return i & 1 ? u2.v[ i / 2 ] : u.v[ i / 2 ]; }, 16 );
        cmp( "VecUInt8MergeB", iv<uint8_t>( VecUInt8MergeB( A, A2 ) ), [ & ]( int i ) { return i & 1 ? u2.v[ 8 + i / 2 ] : u.v[ 8 + i / 2 ]; }, 16 );
        cmp( "VecInt16Deinterleave", iv<int16_t>( VecInt16Deinterleave( A ) ), [ & ]( int i ) { return h.v[ i < 4 ? 2 * i : 2 * ( i - 4 ) + 1 ]; }, 8 );
        F4 f = st( VecInt32ConvertFloat( A ) );
        for ( int i = 0; i < 4; i++ ) if ( f.f[ i ] != float( w.v[ i ] ) ) c.fail( fmt( "VecInt32ConvertFloat( %d ) = %.9g", w.v[ i ], f.f[ i ] ) );
        cmp( "VecInt32Add", iv<int32_t>( VecInt32Add( A, A2 ) ), [ & ]( int i ) { return int32_t( uint32_t( w.v[ i ] ) + uint32_t( w2.v[ i ] ) ); }, 4 );
        cmp( "VecInt32Sub", iv<int32_t>( VecInt32Sub( A, A2 ) ), [ & ]( int i ) { return int32_t( uint32_t( w.v[ i ] ) - uint32_t( w2.v[ i ] ) ); }, 4 );
    }
#endif

    // ------------------------------------------------------------------ generators
    float genFloat( Src& s, bool& edge )
    {
        float r;
        auto ulps = [ & ]( float f ) { int32_t k = int32_t( s.below( 9 ) ) - 4; edge = true; return finite( f ) && f != 0 ? fbits( ubits( f ) + uint32_t( k ) ) : f; };
        auto sgn = [ & ]( float f ) { return s.chance( 1, 2 ) ? -f : f; };
        switch ( s.pick( { 3, 3, 3, 3, 4, 3, 4, 3, 3, 6 } ) )
        {
            case 0: { static const float k[] = { 0.0F, -0.0F, 1.0F, -1.0F, 0.5F, 2.0F, 1.17549435e-38F, 3.40282347e+38F, 8388608.0F, 16777216.0F, 4194304.0F, 88.0F, 89.0F, 90.0F, 91.0F, 92.0F, -87.0F, -88.0F, -89.0F, 1e-45F }; r = sgn( s.oneOf( k ) ); edge = true; return r; }
            case 1: return sgn( float( s.below( 1000 ) ) );
            case 2: return ulps( sgn( std::ldexp( 1.0F, int( s.below( 252 ) ) - 125 ) ) );
            case 3: return ulps( sgn( float( s.below( 200 ) ) * 0.5F ) );
            case 4: return ulps( sgn( float( double( s.below( 1024 ) ) * 0.02454369260617026 ) ) );
            case 5: return ulps( sgn( float( s.below( 66 ) ) / 64.0F ) );
            case 6: edge = true; return sgn( fbits( 0x4A000000u + s.below( 0x02000000u ) ) ); // 2^21 .. 2^25
            case 7: return sgn( float( s.u16() ) / 65536.0F );
            case 8: return sgn( float( s.u32() ) / float( 1u << s.below( 32 ) ) );
            default: return fbits( s.u32() );
        }
    }
    int64_t genInt( Src& s )
    {
        switch ( s.pick( { 3, 4, 3, 4 } ) )
        {
            case 0: return int64_t( s.below( 40 ) ) - 20;
            case 1: { int64_t v = int64_t( ( uint64_t( 1 ) << s.below( 64 ) ) + uint64_t( int64_t( s.below( 5 ) ) - 2 ) ); return s.chance( 1, 2 ) ? int64_t( 0 - uint64_t( v ) ) : v; }
            case 2: { static const int64_t k[] = { INT64_MIN, INT64_MAX, INT32_MIN, INT32_MAX, int64_t( UINT32_MAX ), 0, -1, 1, int64_t( INT32_MIN ) - 1, int64_t( INT32_MAX ) + 1 }; return s.oneOf( k ); }
            default: return int64_t( s.u64() >> s.below( 64 ) ) * ( s.chance( 1, 2 ) ? 1 : -1 );
        }
    }
}

namespace pbt
{
    void CAT( c21_, C21_VARIANT )( Src& s, Ctx& c )
    {
        bool edge = false;
        switch ( s.pick( { 4, 2, 4, 4 } ) )
        {
            case 0:
            {
                c.label( "single floats" );
                c.note( "single floats" );
                uint32_t n = s.range( 1, 192 );
                float    w[ 4 ] = { 0, 0, 0, 0 };
                for ( uint32_t i = 0; i < n; i++ )
                {
                    float f = genFloat( s, edge );
                    c.input( ubits( f ) );
                    if ( i + 1 == n ) c.noteLazy( [ & ] { return fmt( "last float: %.9g [%08x]", f, ubits( f ) ); } );
                    scalar( c, f );
                    w[ i & 3 ] = f;
                    multi( c, w[ 0 ], w[ 1 ], w[ 2 ], w[ 3 ] );
                    multi( c, w[ 2 ], w[ 0 ], w[ 3 ], w[ 1 ] );
                }
                c.evals      = n;
                c.nontrivial = edge;
                break;
            }
            case 1:
            {
                c.label( "run of floats" );
                uint32_t u = s.chance( 1, 2 ) ? ubits( genFloat( s, edge ) ) - 2048 : s.u32();
                c.noteLazy( [ & ] { return fmt( "4096 floats from bits %08x", u ); } );
                c.input( u );
                for ( uint32_t i = 0; i < 4096; i++ ) scalar( c, fbits( u + i ) );
                c.evals      = 4096;
                c.nontrivial = true;
                break;
            }
            case 2:
            {
                c.label( "integers" );
                c.note( "integers" );
                constants( c );
                uint32_t n = s.range( 1, 256 );
                int64_t  p = 0;
                for ( uint32_t i = 0; i < n; i++ )
                {
                    int64_t v = genInt( s );
                    c.input( uint64_t( v ) );
                    integers( c, v, p );
                    integers( c, p, v );
                    p = v;
                }
                c.evals      = n;
                c.nontrivial = n > 4;
                break;
            }
            default:
            {
#ifdef TERATHON_NO_SIMD
                c.label( "no vectors in this variant" );
                for ( int i = 0; i < 64; i++ ) { float f = genFloat( s, edge ); c.input( ubits( f ) ); scalar( c, f ); }
                c.evals      = 64;
                c.nontrivial = edge;
#else
                c.label( "vectors" );
                uint32_t n = s.range( 1, 48 );
                for ( uint32_t i = 0; i < n; i++ )
                {
                    F4 v[ 5 ];
                    bool spread = false;
                    bool small = s.chance( 1, 2 );
                    for ( F4& q : v )
                        for ( float& f : q.f )
                        {
                            bool e = false;
                            f      = small ? float( int32_t( s.below( 2001 ) ) - 1000 ) / 64.0F : genFloat( s, e );
                            if ( !finite( f ) ) f = 1.25F;
                            c.input( ubits( f ) );
                            spread = spread || f != q.f[ 0 ];
                        }
                    if ( s.chance( 1, 4 ) ) v[ 1 ] = v[ 0 ];
                    if ( s.chance( 1, 4 ) ) v[ 1 ].f[ s.below( 4 ) ] = v[ 0 ].f[ s.below( 4 ) ];
                    vectors( s, c, v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ] );
                    uint8_t raw[ 32 ];
                    uint32_t style = s.below( 3 );
                    for ( uint8_t& b : raw ) b = style == 0 ? s.u8() : style == 1 ? uint8_t( s.chance( 1, 2 ) ? 0x80 + s.below( 3 ) - 1 : 0 ) : uint8_t( s.chance( 1, 2 ) ? 0xFF : s.below( 3 ) );
                    intVectors( c, raw, raw + 16 );
                    c.nontrivial = c.nontrivial || spread;
                }
                c.note( "vectors" );
                c.evals = n;
#endif
            }
        }
    }
}
