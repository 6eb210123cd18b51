#include "common.h"
#include "gen.h"
#include "TSString.h"
#include "TSText.h"
#include <memory>
#include <utility>
namespace pbt
{
#if !defined( FAM_PARTS ) || FAM_PART == 0
    const char* const kProperty = "C16";
    const char* const kRule     = "Histories of up to 60 operations on three dynamic strings and three strings of one fixed capacity (1, 2, 3, 4, 7, 15, 16, 31, 63 or 256): construct (text, range, UTF-16 text, integer, float, copy, move), assign (text, range, "
                                  "number, another string, itself, a part of itself), append (text, own text, character, integers, range), concatenate, truncate, grow and fill, purge, change case, replace characters, escape, edit in place, any of these with memory running out; rarely texts of up to 150000 bytes, and sweeps of every length from 0 to 330; texts of arbitrary non-NUL "
                                  "bytes with lengths around 15/16, 63/64, multiples of 64 and the capacity, passed in buffers of exactly their size; integers at the limits of 32 and 64 bits; oracle: std::string (cut to the capacity for fixed strings), length and "
                                  "terminator after every step, all six comparisons against each other string; non-trivial = a string changed between inline and allocated storage, was cut to its capacity, or was given a part of itself; distinct by history.";
    void setup() {}
#endif

    using namespace Terathon;
    using Dyn = String<>;

    // text in a heap block of exactly its size, so that reading beyond it is reported
    struct Blk
    {
        std::unique_ptr<char[]> p;
        Blk( const std::string& s, bool z ) : p( new char[ s.size() + ( z ? 1 : 0 ) + ( s.empty() && !z ? 1 : 0 ) ] )
        {
            memcpy( p.get(), s.data(), s.size() );
            if ( z ) p[ s.size() ] = 0;
        }
        const char* get() const { return p.get(); }
    };

    static uint32_t genLen( Src& s, uint32_t cap )
    {
        switch ( s.pick( { 6, 5, 3, 3, 3, 1 } ) )
        {
            case 0: return s.below( 6 );
            case 1: return 12 + s.below( 8 );
            case 2: return 60 + s.below( 8 );
            case 3: return cap < 3 ? s.below( 5 ) : cap - 2 + s.below( 5 );
            case 4: return s.below( 100 );
            default: return 64 * s.range( 1, 5 ) - 4 + s.below( 8 );
        }
    }
    static char genChar( Src& s, uint32_t style )
    {
        switch ( style )
        {
            case 0: return char( 'a' + s.below( 3 ) );
            case 1: return char( 1 + s.below( 255 ) );
            case 2: { static const char k[] = "aAzZ@[`{mM09"; return k[ s.below( sizeof( k ) - 1 ) ]; }
            case 3: { static const char k[] = "\a\b\t\n\v\f\r\"\\\x1b\x7f\x01?'x/\x1f\x20\x80\xff"; return k[ s.below( sizeof( k ) - 1 ) ]; }
            default: return char( 0x20 + s.below( 0x5f ) );
        }
    }
    static bool        big = false; // this history also has very long texts
    static std::string genText( Src& s, uint32_t cap )
    {
        if ( big && s.chance( 1, 4 ) )
        {
            std::string r, u;
            uint32_t    n = gen::largeSize( s, 70000 );
            for ( int i = 0; i < 5; i++ ) u += genChar( s, 1 );
            while ( r.size() < n ) r += u;
            r.resize( n );
            return r;
        }
        if ( s.chance( 1, 12 ) )
        {
            std::string d = s.dictStr();
            d             = d.substr( 0, d.find( '\0' ) );
            return d;
        }
        uint32_t    n = genLen( s, cap ), st = s.below( 5 );
        std::string r;
        for ( uint32_t i = 0; i < n; i++ ) r += genChar( s, st );
        return r;
    }
    static int64_t genI64( Src& s )
    {
        switch ( s.below( 5 ) )
        {
            case 0: return int64_t( s.below( 200 ) ) - 100;
            case 1: { int64_t p = 1; for ( uint32_t k = s.below( 19 ); k; k-- ) p *= 10; p += int64_t( s.below( 3 ) ) - 1; return s.chance( 1, 2 ) ? -p : p; }
            case 2: { static const int64_t k[] = { INT64_MIN, INT64_MAX, INT64_MIN + 1, INT32_MIN, INT32_MAX, int64_t( UINT32_MAX ), int64_t( INT32_MIN ) - 1, 0, -1 }; return s.oneOf( k ); }
            case 3: return s.dictInt();
            default: return int64_t( s.u64() >> s.below( 64 ) ) * ( s.chance( 1, 2 ) ? -1 : 1 );
        }
    }
    static std::string lower( std::string x ) { for ( char& c : x ) if ( c >= 'A' && c <= 'Z' ) c += 32; return x; }
    static std::string upper( std::string x ) { for ( char& c : x ) if ( c >= 'a' && c <= 'z' ) c -= 32; return x; }
    static std::string escaped( const std::string& x )
    {
        std::string r;
        for ( unsigned char c : x )
        {
            if ( c >= 7 && c <= 13 ) { r += '\\'; r += "abtnvfr"[ c - 7 ]; }
            else if ( c == '"' || c == '\\' ) { r += '\\'; r += char( c ); }
            else if ( c < 32 || c == 127 ) r += fmt( "\\x%02X", c );
            else r += char( c );
        }
        return r;
    }

    static void verify( Ctx& c, const char* p, int32 len, const std::string& m, const char* what )
    {
        if ( len < 0 || size_t( len ) != m.size() ) c.fail( fmt( "%s: length is %d instead of %zu (text %s)", what, int( len ), m.size(), quote( m, 80 ).c_str() ) );
        if ( memcmp( p, m.data(), m.size() ) ) c.fail( fmt( "%s: the text is %s instead of %s", what, quote( std::string( p, m.size() ), 120 ).c_str(), quote( m, 120 ).c_str() ) );
        if ( p[ m.size() ] != 0 ) c.fail( fmt( "%s: the text is not terminated", what ) );
    }

    template <class A>
    static void comparisons( Ctx& c, const A& a, const std::string& ma, const char* b, const std::string& mb )
    {
        // std::string compares by unsigned bytes
        int  k  = ma.compare( mb );
        bool r[ 6 ] = { a == b, a != b, a < b, a <= b, a > b, a >= b };
        bool e[ 6 ] = { k == 0, k != 0, k < 0, k <= 0, k > 0, k >= 0 };
        for ( int i = 0; i < 6; i++ )
            if ( r[ i ] != e[ i ] ) c.fail( fmt( "%s %s %s is %s", quote( ma, 120 ).c_str(), ( const char*[] ) { "==", "!=", "<", "<=", ">", ">=" }[ i ], quote( mb, 120 ).c_str(), r[ i ] ? "true" : "false" ) );
    }

    // every length from 0 on: construct, assign, append, cut
    template <int32 N>
    void sweep( Src& s, Ctx& c )
    {
        using Fix = String<N>;
        std::string u;
        for ( int i = 0; i < 7; i++ ) u += genChar( s, 1 );
        uint32_t step = 1 + s.below( 20 );
        Dyn      grown, assigned, bits;
        std::string m, g;
        for ( uint32_t n = 0; n <= 330; n++ )
        {
            std::string at = fmt( "length %u", n );
            Blk z( m, true ), r( m, false );
            Dyn a( z.get() ), b( r.get(), int32( n ) ), e( a );
            Fix f( z.get() ), h( r.get(), int32( n ) );
            verify( c, a, a.GetStringLength(), m, ( at + " from a text" ).c_str() );
            verify( c, b, b.GetStringLength(), m, ( at + " from a range" ).c_str() );
            verify( c, e, e.GetStringLength(), m, ( at + " copied" ).c_str() );
            Dyn mv( static_cast<Dyn&&>( e ) );
            verify( c, mv, mv.GetStringLength(), m, ( at + " moved" ).c_str() );
            verify( c, f, f.GetStringLength(), m.substr( 0, N ), ( at + " from a text, fixed" ).c_str() );
            verify( c, h, h.GetStringLength(), m.substr( 0, N ), ( at + " from a range, fixed" ).c_str() );
            verify( c, grown, grown.GetStringLength(), m, ( at + " grown by characters" ).c_str() );
            assigned = z.get();
            verify( c, assigned, assigned.GetStringLength(), m, ( at + " assigned" ).c_str() );
            Blk piece( u.substr( 0, n % 8 ), true );
            a += piece.get();
            verify( c, a, a.GetStringLength(), m + u.substr( 0, n % 8 ), ( at + " with a piece appended" ).c_str() );
            f += piece.get();
            verify( c, f, f.GetStringLength(), ( m.substr( 0, N ) + u.substr( 0, n % 8 ) ).substr( 0, N ), ( at + " with a piece appended, fixed" ).c_str() );
            a += a;
            verify( c, a, a.GetStringLength(), m + u.substr( 0, n % 8 ) + m + u.substr( 0, n % 8 ), ( at + " doubled" ).c_str() );
            b.SetStringLength( int32( n / 2 ) );
            verify( c, b, b.GetStringLength(), m.substr( 0, n / 2 ), ( at + " cut to half" ).c_str() );
            if ( n % step == 0 )
            {
                bits += z.get();
                g += m;
                verify( c, bits, bits.GetStringLength(), g, ( at + " appended to all before" ).c_str() );
            }
            comparisons( c, grown, m, static_cast<const char*>( bits ), g );
            grown += u[ n % u.size() ];
            m += u[ n % u.size() ];
        }
        c.input( u );
        c.input( uint64_t( N * 100 + step ) );
        c.evals      = 331;
        c.nontrivial = true;
        c.label( "sweeps" );
    }

    template <int32 N>
    void run( Src& s, Ctx& c )
    {
        using Fix = String<N>;
        if ( s.chance( 1, 200 ) ) { sweep<N>( s, c ); return; }
        std::unique_ptr<Dyn> d[ 3 ];
        std::unique_ptr<Fix> f[ 3 ];
        std::string          dm[ 3 ], fm[ 3 ];
        auto cut = [ & ]( const std::string& x ) { if ( x.size() > size_t( N ) ) { c.label( "cut to the capacity" ); c.nontrivial = true; } return x.substr( 0, N ); };
        for ( int i = 0; i < 3; i++ )
        {
            d[ i ].reset( new Dyn );
            f[ i ].reset( new Fix( "" ) );
        }
        c.input( uint64_t( N ) );
        big = s.chance( 1, 100 );
        if ( big ) c.label( "very long texts" );
        uint32_t ops = s.range( 1, 60 );
        for ( uint32_t op = 0; op < ops && !s.exhausted(); op++ )
        {
            int  i = int( s.below( 3 ) ), j = int( s.below( 3 ) );
            bool dyn = s.chance( 2, 3 );
            bool was = dm[ i ].size() < 16;
            std::string what;
            auto note = [ & ]( const std::string& w )
            {
                what = w;
                c.input( w );
                c.input( uint64_t( i ) );
                c.noteLazy( [ & ] { return fmt( " %s%d.%s", dyn ? "d" : "f", i, w.c_str() ); } );
            };
            if ( dyn )
            {
                Dyn&         x = *d[ i ];
                std::string& m = dm[ i ];
                char*        own = x;
                switch ( s.below( 31 ) )
                {
                    case 30:
                    {
                        // memory runs out: the operation is done, or the string is as it was
                        std::string t = genText( s, N ), r = m;
                        Blk         b( t, true ), z( t, false );
                        int64_t     v = genI64( s );
                        uint32_t    k = s.below( 14 ), at = s.below( uint32_t( m.size() + 1 ) ), n = uint32_t( m.size() ) + genLen( s, N );
                        int64_t     nth = s.below( 3 );
                        bool        sticky = s.chance( 1, 3 ), thrown = false;
                        if ( k == 9 && m.size() >= 1000 ) k = 0;
                        note( fmt( "out of memory(%u,%u,%u,%lld) ", k, at, n, (long long)v ) + quote( t, 80 ) );
                        switch ( k )
                        {
                        case 0: case 11: r = t; break;
                        case 1: case 10: r += t; break;
                        case 2: r = dm[ j ]; break;
                        case 3: r += dm[ j ]; break;
                        case 4: r += fmt( "%d", int32( v ) ); break;
                        case 5: r = fmt( "%lld", (long long)v ); break;
                        case 6: r += char( 'a' + at % 26 ); break;
                        case 7: r = m.substr( at ); break;
                        case 8: r.resize( n, '.' ); break;
                        case 9: r = escaped( m ); break;
                        case 12: r += fmt( "%llu", (unsigned long long)v ); break;
                        default: r = dm[ j ] + t; break;
                        }
                        alloc::arm( nth, sticky );
                        try
                        {
                            switch ( k )
                            {
                            case 0: x = b.get(); break;
                            case 1: x += b.get(); break;
                            case 2: x = static_cast<const Dyn&>( *d[ j ] ); break;
                            case 3: x += static_cast<const Dyn&>( *d[ j ] ); break;
                            case 4: x += int32( v ); break;
                            case 5: x = int64( v ); break;
                            case 6: x += char( 'a' + at % 26 ); break;
                            case 7: x = static_cast<const char*>( own + at ); break;
                            case 8: x.SetStringLength( int32( n ) ); break;
                            case 9: x.EncodeEscapeSequences(); break;
                            case 10: x.AppendString( z.get(), int32( t.size() ) ); break;
                            case 11: x = Dyn( z.get(), int32( t.size() ) ); break;
                            case 12: x += uint64( v ); break;
                            default: x = *d[ j ] + b.get(); break;
                            }
                        }
                        catch ( std::bad_alloc& )
                        {
                            thrown = true;
                        }
                        alloc::disarm();
                        if ( thrown ) { c.label( "memory ran out" ); c.nontrivial = true; break; }
                        if ( k == 8 )
                        {
                            char* p = x;
                            for ( size_t q = m.size(); q < n; q++ ) p[ q ] = '.';
                        }
                        m = r;
                        break;
                    }
                    case 0: { std::string t = genText( s, N ); note( "new(" + quote( t, 80 ) + ")" ); d[ i ].reset(); Blk b( t, true ); d[ i ].reset( new Dyn( b.get() ) ); m = t; break; }
                    case 1:
                    {
                        std::string t = genText( s, N );
                        if ( t.size() > 2 && s.chance( 1, 4 ) ) t[ s.below( uint32_t( t.size() ) ) ] = 0;
                        note( "new range(" + quote( t, 80 ) + ")" );
                        Blk b( t, false );
                        d[ i ].reset( new Dyn( b.get(), int32( t.size() ) ) );
                        m = t.substr( 0, t.find( '\0' ) );
                        break;
                    }
                    case 2: note( fmt( "new copy of d%d", j ) ); if ( i != j ) { d[ i ].reset( new Dyn( *d[ j ] ) ); m = dm[ j ]; } break;
                    case 3:
                        note( fmt( "new moved from d%d", j ) );
                        if ( i != j )
                        {
                            d[ i ].reset( new Dyn( std::move( *d[ j ] ) ) );
                            m = dm[ j ];
                            // left in some valid state
                            std::string left = static_cast<const char*>( *d[ j ] );
                            if ( !left.empty() && left != dm[ j ] ) c.fail( "a string that was moved from holds neither its old text nor none" );
                            dm[ j ] = left;
                        }
                        break;
                    case 4:
                    {
                        std::string t = genText( s, N );
                        std::vector<uint16> w;
                        std::string         u;
                        for ( unsigned char ch : t )
                        {
                            uint32_t cp = ch < 0x40 ? ch : ch < 0x80 ? ch * 13u : ch < 0xc0 ? 0x800u + ch * 100u : 0x10000u + ch * 4000u;
                            if ( cp - 0xD800u < 0x800u ) cp = 0xD7FF;
                            if ( cp < 0x10000 ) w.push_back( uint16( cp ) );
                            else { w.push_back( uint16( 0xD800 + ( ( cp - 0x10000 ) >> 10 ) ) ); w.push_back( uint16( 0xDC00 + ( ( cp - 0x10000 ) & 0x3FF ) ) ); }
                            gen::utf8( u, cp );
                        }
                        note( "new UTF-16(" + quote( u, 80 ) + ")" );
                        std::unique_ptr<uint16[]> z( new uint16[ w.size() + 1 ] );
                        for ( size_t k = 0; k < w.size(); k++ ) z[ k ] = w[ k ];
                        z[ w.size() ] = 0;
                        d[ i ].reset( new Dyn( static_cast<const uint16*>( z.get() ) ) );
                        m = u;
                        break;
                    }
                    case 5:
                    {
                        int64_t  v = genI64( s );
                        uint32_t k = s.below( 3 );
                        note( fmt( "new number(%lld,%u)", (long long)v, k ) );
                        if ( k == 0 ) { d[ i ].reset( new Dyn( int32( v ) ) ); m = fmt( "%d", int32( v ) ); }
                        else if ( k == 1 ) { d[ i ].reset( new Dyn( uint32( v ) ) ); m = fmt( "%u", uint32( v ) ); }
                        else { d[ i ].reset( new Dyn( int64( v ) ) ); m = fmt( "%lld", (long long)v ); }
                        break;
                    }
                    case 6: case 7: { std::string t = genText( s, N ); note( "=(" + quote( t, 80 ) + ")" ); Blk b( t, true ); x = b.get(); m = t; break; }
                    case 8:
                    {
                        std::string t = genText( s, N );
                        if ( t.size() > 2 && s.chance( 1, 4 ) ) t[ s.below( uint32_t( t.size() ) ) ] = 0;
                        note( "set range(" + quote( t, 80 ) + ")" );
                        Blk b( t, false );
                        x.Set( b.get(), int32( t.size() ) );
                        m = t.substr( 0, t.find( '\0' ) );
                        break;
                    }
                    case 9: case 10:
                        if ( i == j ) c.nontrivial = true;
                        note( fmt( "=d%d", j ) );
                        x = static_cast<const Dyn&>( *d[ j ] );
                        m = std::string( dm[ j ] );
                        break;
                    case 11:
                        note( fmt( "=moved d%d", j ) );
                        x = std::move( *d[ j ] );
                        if ( i != j )
                        {
                            m = dm[ j ];
                            std::string left = static_cast<const char*>( *d[ j ] );
                            if ( !left.empty() && left != dm[ j ] ) c.fail( "a string that was moved from holds neither its old text nor none" );
                            dm[ j ] = left;
                        }
                        break;
                    case 12: { uint32_t k = s.below( uint32_t( m.size() + 1 ) ); c.nontrivial = true; note( fmt( "=own+%u", k ) ); x = static_cast<const char*>( own + k ); m = m.substr( k ); break; }
                    case 13:
                    {
                        uint32_t k = s.below( uint32_t( m.size() + 1 ) ), n = s.below( uint32_t( m.size() - k + 3 ) );
                        c.nontrivial = true;
                        note( fmt( "set own+%u,%u", k, n ) );
                        x.Set( own + k, int32( n ) );
                        m = m.substr( k, n );
                        break;
                    }
                    case 14:
                    {
                        int64_t  v = genI64( s );
                        uint32_t k = s.below( 3 );
                        note( fmt( "=number(%lld,%u)", (long long)v, k ) );
                        if ( k == 0 ) { x = int32( v ); m = fmt( "%d", int32( v ) ); }
                        else if ( k == 1 ) { x = uint32( v ); m = fmt( "%u", uint32( v ) ); }
                        else { x = int64( v ); m = fmt( "%lld", (long long)v ); }
                        break;
                    }
                    case 15:
                    {
                        uint32_t bits = s.chance( 1, 2 ) ? s.u32() : 0x3f800000u + ( s.u32() >> 6 );
                        float    v;
                        memcpy( &v, &bits, 4 );
                        note( fmt( "=float(%a)", double( v ) ) );
                        char out[ 64 ];
                        Text::FloatToString( v, out, 63 );
                        if ( s.chance( 1, 2 ) ) x = v;
                        else d[ i ].reset( new Dyn( v ) );
                        m = out;
                        break;
                    }
                    case 16: case 17: { std::string t = genText( s, N ); note( "+=(" + quote( t, 80 ) + ")" ); Blk b( t, true ); x += b.get(); m += t; break; }
                    case 18:
                        if ( i == j ) c.nontrivial = true;
                        note( fmt( "+=d%d", j ) );
                        x += static_cast<const Dyn&>( *d[ j ] );
                        m += std::string( dm[ j ] );
                        break;
                    case 19: { uint32_t k = s.below( uint32_t( m.size() + 1 ) ); c.nontrivial = true; note( fmt( "+=own+%u", k ) ); x += static_cast<const char*>( own + k ); m += m.substr( k ); break; }
                    case 20: { char ch = genChar( s, s.below( 5 ) ); uint32_t n = s.chance( 1, 3 ) ? s.below( 40 ) : 1; note( fmt( "+=char %02x*%u", (unsigned char)ch, n ) ); for ( uint32_t k = 0; k < n; k++ ) x += ch; m += std::string( n, ch ); break; }
                    case 21:
                    {
                        int64_t  v = genI64( s );
                        uint32_t k = s.below( 4 );
                        note( fmt( "+=number(%lld,%u)", (long long)v, k ) );
                        if ( k == 0 ) { x += int32( v ); m += fmt( "%d", int32( v ) ); }
                        else if ( k == 1 ) { x += uint32( v ); m += fmt( "%u", uint32( v ) ); }
                        else if ( k == 2 ) { x += int64( v ); m += fmt( "%lld", (long long)v ); }
                        else { x += uint64( v ); m += fmt( "%llu", (unsigned long long)v ); }
                        break;
                    }
                    case 22:
                    {
                        uint32_t k = s.below( 4 );
                        if ( k == 0 ) { std::string t = genText( s, N ); note( fmt( "=d%d+(%s)", j, quote( t, 80 ).c_str() ) ); Blk b( t, true ); x = *d[ j ] + b.get(); m = dm[ j ] + t; }
                        else
                        {
                            int64_t v = genI64( s );
                            note( fmt( "=d%d+number(%lld,%u)", j, (long long)v, k ) );
                            if ( k == 1 ) { x = *d[ j ] + int32( v ); m = dm[ j ] + fmt( "%d", int32( v ) ); }
                            else if ( k == 2 ) { x = *d[ j ] + uint32( v ); m = dm[ j ] + fmt( "%u", uint32( v ) ); }
                            else { x = *d[ j ] + int64( v ); m = dm[ j ] + fmt( "%lld", (long long)v ); }
                        }
                        break;
                    }
                    case 23: { uint32_t n = s.below( uint32_t( m.size() + 1 ) ); note( fmt( "truncate(%u)", n ) ); x.SetStringLength( int32( n ) ); m.resize( n ); break; }
                    case 24:
                    {
                        uint32_t n = uint32_t( m.size() ) + genLen( s, N );
                        char     ch = genChar( s, s.below( 5 ) );
                        note( fmt( "grow(%u)", n ) );
                        x.SetStringLength( int32( n ) );
                        if ( x.GetStringLength() != int32( n ) ) c.fail( "SetStringLength does not set the length" );
                        char* p = x;
                        for ( size_t k = m.size(); k < n; k++ ) p[ k ] = ch;
                        m.resize( n, ch );
                        break;
                    }
                    case 25:
                        if ( s.chance( 1, 2 ) ) { note( "purge" ); x.PurgeString(); m.clear(); }
                        else
                        {
                            std::string t = genText( s, N );
                            note( "append range(" + quote( t, 80 ) + ")" );
                            Blk b( t, false );
                            x.AppendString( b.get(), int32( t.size() ) );
                            m += t;
                        }
                        break;
                    case 26:
                    {
                        uint32_t k = s.below( uint32_t( m.size() + 1 ) ), n = s.below( uint32_t( m.size() - k + 1 ) );
                        c.nontrivial = true;
                        note( fmt( "append own+%u,%u", k, n ) );
                        x.AppendString( own + k, int32( n ) );
                        m += m.substr( k, n );
                        break;
                    }
                    case 27:
                        if ( s.chance( 1, 2 ) ) { note( "lower" ); x.ConvertToLowerCase(); m = lower( m ); }
                        else { note( "upper" ); x.ConvertToUpperCase(); m = upper( m ); }
                        break;
                    case 28:
                    {
                        uint32_t k = s.below( 3 );
                        if ( k == 0 )
                        {
                            char a = m.empty() || s.chance( 1, 4 ) ? genChar( s, 1 ) : m[ s.below( uint32_t( m.size() ) ) ], b = genChar( s, s.below( 5 ) );
                            note( fmt( "replace %02x by %02x", (unsigned char)a, (unsigned char)b ) );
                            x.ReplaceChar( a, b );
                            for ( char& ch : m ) if ( ch == a ) ch = b;
                        }
                        else if ( k == 1 && m.size() < 1000 ) { note( "escape" ); x.EncodeEscapeSequences(); m = escaped( m ); }
                        else if ( !m.empty() )
                        {
                            uint32_t at = s.below( uint32_t( m.size() ) );
                            char     ch = genChar( s, s.below( 5 ) );
                            note( fmt( "[%u]=%02x", at, (unsigned char)ch ) );
                            own[ at ] = ch;
                            m[ at ]   = ch;
                        }
                        break;
                    }
                    default: note( fmt( "=f%d", j ) ); x = static_cast<const char*>( *f[ j ] ); m = fm[ j ]; break;
                }
                if ( was != ( m.size() < 16 ) ) { c.nontrivial = true; c.label( "changed storage" ); }
                if ( m.size() > ( big ? 150000u : 4000u ) ) { d[ i ]->PurgeString(); m.clear(); }
            }
            else
            {
                Fix&         x = *f[ i ];
                std::string& m = fm[ i ];
                char*        own = x;
                switch ( s.below( 19 ) )
                {
                    case 0: { std::string t = genText( s, N ); note( "new(" + quote( t, 80 ) + ")" ); Blk b( t, true ); f[ i ].reset( new Fix( b.get() ) ); m = cut( t ); break; }
                    case 1: { std::string t = genText( s, N ); note( "new range(" + quote( t, 80 ) + ")" ); Blk b( t, false ); f[ i ].reset( new Fix( b.get(), int32( t.size() ) ) ); m = cut( t ); break; }
                    case 2: note( fmt( "new copy of f%d", j ) ); if ( i != j ) { f[ i ].reset( new Fix( *f[ j ] ) ); m = fm[ j ]; } break;
                    case 3:
                    {
                        int64_t  v = genI64( s );
                        uint32_t k = s.below( 3 );
                        bool     set = s.chance( 1, 2 );
                        note( fmt( "%s number(%lld,%u)", set ? "=" : "new", (long long)v, k ) );
                        if ( set )
                        {
                            if ( k == 0 ) x = int32( v );
                            else if ( k == 1 ) x = uint32( v );
                            else x = int64( v );
                        }
                        else
                        {
                            if ( k == 0 ) f[ i ].reset( new Fix( int32( v ) ) );
                            else if ( k == 1 ) f[ i ].reset( new Fix( uint32( v ) ) );
                            else f[ i ].reset( new Fix( int64( v ) ) );
                        }
                        m = cut( k == 0 ? fmt( "%d", int32( v ) ) : k == 1 ? fmt( "%u", uint32( v ) ) : fmt( "%lld", (long long)v ) );
                        break;
                    }
                    case 4:
                    {
                        uint32_t bits = s.chance( 1, 2 ) ? s.u32() : 0x3f800000u + ( s.u32() >> 6 );
                        float    v;
                        memcpy( &v, &bits, 4 );
                        note( fmt( "=float(%a)", double( v ) ) );
                        if ( s.chance( 1, 2 ) ) x = v;
                        else f[ i ].reset( new Fix( v ) );
                        char own2[ N + 1 ];
                        Text::FloatToString( v, own2, N );
                        m = own2;
                        if ( m.size() > size_t( N ) ) c.fail( "a float exceeds the capacity of the string" );
                        break;
                    }
                    case 5: case 6: { std::string t = genText( s, N ); note( "=(" + quote( t, 80 ) + ")" ); Blk b( t, true ); x = b.get(); m = cut( t ); break; }
                    case 7: { std::string t = genText( s, N ); note( "set range(" + quote( t, 80 ) + ")" ); Blk b( t, false ); x.Set( b.get(), int32( t.size() ) ); m = cut( t ); break; }
                    case 8: note( fmt( "=f%d", j ) ); x = static_cast<const Fix&>( *f[ j ] ); m = std::string( fm[ j ] ); break;
                    case 9: { uint32_t k = s.below( uint32_t( m.size() + 1 ) ); note( fmt( "=own+%u", k ) ); x = static_cast<const char*>( own + k ); m = m.substr( k ); break; }
                    case 10: case 11: { std::string t = genText( s, N ); note( "+=(" + quote( t, 80 ) + ")" ); Blk b( t, true ); x += b.get(); m = cut( m + t ); break; }
                    case 12: { uint32_t k = s.below( uint32_t( m.size() + 1 ) ); c.nontrivial = true; note( fmt( "+=own+%u", k ) ); x += static_cast<const char*>( own + k ); m = cut( m + m.substr( k ) ); break; }
                    case 13: { char ch = genChar( s, s.below( 5 ) ); note( fmt( "+=char %02x", (unsigned char)ch ) ); x += ch; m = cut( m + ch ); break; }
                    case 14:
                    {
                        int64_t  v = genI64( s );
                        uint32_t k = s.below( 7 );
                        note( fmt( "+=number(%lld,%u)", (long long)v, k ) );
                        switch ( k )
                        {
                            case 0: x += int32( v ); m = cut( m + fmt( "%d", int32( v ) ) ); break;
                            case 1: x += uint32( v ); m = cut( m + fmt( "%u", uint32( v ) ) ); break;
                            case 2: x += int64( v ); m = cut( m + fmt( "%lld", (long long)v ) ); break;
                            case 3: x += uint64( v ); m = cut( m + fmt( "%llu", (unsigned long long)v ) ); break;
                            case 4: x = *f[ j ] + int32( v ); m = cut( fm[ j ] + fmt( "%d", int32( v ) ) ); break;
                            case 5: x = *f[ j ] + uint32( v ); m = cut( fm[ j ] + fmt( "%u", uint32( v ) ) ); break;
                            default: x = *f[ j ] + int64( v ); m = cut( fm[ j ] + fmt( "%lld", (long long)v ) ); break;
                        }
                        break;
                    }
                    case 15:
                    {
                        std::string t = genText( s, N );
                        Blk         b( t, true );
                        if ( s.chance( 1, 2 ) ) { note( fmt( "=f%d+(%s)", j, quote( t, 80 ).c_str() ) ); x = *f[ j ] + b.get(); m = cut( fm[ j ] + t ); }
                        else { note( "append range(" + quote( t, 80 ) + ")" ); Blk z( t, false ); x.AppendString( z.get(), int32( t.size() ) ); m = cut( m + t ); }
                        break;
                    }
                    case 16:
                    {
                        uint32_t n = s.below( uint32_t( N + 1 ) );
                        note( fmt( "length(%u)", n ) );
                        x.SetStringLength( int32( n ) );
                        char ch = genChar( s, s.below( 5 ) );
                        for ( size_t k = m.size(); k < n; k++ ) own[ k ] = ch;
                        m.resize( n, ch );
                        break;
                    }
                    case 17:
                        if constexpr ( N >= 4 )
                        {
                            std::string t;
                            for ( int k = 0; k < 4; k++ ) t += genChar( s, 1 );
                            note( "new of four characters " + quote( t, 80 ) );
                            f[ i ].reset( new Fix( t[ 0 ], t[ 1 ], t[ 2 ], t[ 3 ] ) );
                            m = t;
                            break;
                        }
                        [[fallthrough]];
                    default: note( fmt( "=d%d", j ) ); x = static_cast<const char*>( *d[ j ] ); m = cut( dm[ j ] ); break;
                }
            }
            for ( int k = 0; k < 3; k++ )
            {
                verify( c, *d[ k ], d[ k ]->GetStringLength(), dm[ k ], fmt( "d%d after %s", k, what.c_str() ).c_str() );
                verify( c, *f[ k ], f[ k ]->GetStringLength(), fm[ k ], fmt( "f%d after %s", k, what.c_str() ).c_str() );
            }
            // comparisons against another string and against a text that differs in its last byte
            comparisons( c, *d[ i ], dm[ i ], static_cast<const char*>( *d[ j ] ), dm[ j ] );
            comparisons( c, *f[ i ], fm[ i ], static_cast<const char*>( *f[ j ] ), fm[ j ] );
            comparisons( c, *d[ i ], dm[ i ], static_cast<const char*>( *f[ j ] ), fm[ j ] );
            if ( ( *d[ i ] == *d[ j ] ) != ( dm[ i ] == dm[ j ] ) || ( *d[ i ] != *d[ j ] ) != ( dm[ i ] != dm[ j ] ) ) c.fail( "comparison of two dynamic strings" );
            if ( ( *f[ i ] == *f[ j ] ) != ( fm[ i ] == fm[ j ] ) || ( *f[ i ] != *f[ j ] ) != ( fm[ i ] != fm[ j ] ) ) c.fail( "comparison of two fixed strings" );
            std::string alt = dm[ i ];
            switch ( s.below( 3 ) )
            {
                case 0: alt += genChar( s, 1 ); break;
                case 1: if ( !alt.empty() ) alt[ s.below( uint32_t( alt.size() ) ) ] = genChar( s, 1 ); break;
                default: if ( !alt.empty() ) alt.pop_back(); break;
            }
            Blk b( alt, true );
            comparisons( c, *d[ i ], dm[ i ], b.get(), alt );
            int k = dm[ i ].compare( alt );
            ConstCharKey ck( *d[ i ] );
            StringKey    sk( *d[ i ] );
            FileNameKey  fk( *d[ i ] );
            if ( ( ck == b.get() ) != ( k == 0 ) || ( ck != b.get() ) != ( k != 0 ) || ( ck < b.get() ) != ( k < 0 ) ) c.fail( "comparison of a ConstCharKey" );
            if ( ( sk == b.get() ) != ( k == 0 ) || ( sk != b.get() ) != ( k != 0 ) || ( sk < b.get() ) != ( k < 0 ) ) c.fail( "comparison of a StringKey" );
            {
                // keys made of a plain text, of a fixed string, and by assignment
                ConstCharKey ck1( static_cast<const char*>( *d[ j ] ) ), ck2( *f[ j ] ), ck3;
                StringKey    sk1( static_cast<const char*>( *d[ j ] ) ), sk2( *f[ j ] ), sk3;
                FileNameKey  fk1( static_cast<const char*>( *d[ j ] ) ), fk2( *f[ j ] ), fk3;
                ck3 = static_cast<const char*>( *f[ i ] );
                sk3 = static_cast<const char*>( *f[ i ] );
                fk3 = static_cast<const char*>( *f[ i ] );
                auto at = [ & ]( const char* p, const char* q, const char* w ) { if ( strcmp( p, q ) ) c.fail( std::string( "a key does not refer to its text: " ) + w ); };
                at( ck1, static_cast<const char*>( *d[ j ] ), "ConstCharKey" );
                at( ck2, static_cast<const char*>( *f[ j ] ), "ConstCharKey of a string" );
                at( ck3, static_cast<const char*>( *f[ i ] ), "ConstCharKey assigned" );
                at( sk1, static_cast<const char*>( *d[ j ] ), "StringKey" );
                at( sk2, static_cast<const char*>( *f[ j ] ), "StringKey of a string" );
                at( sk3, static_cast<const char*>( *f[ i ] ), "StringKey assigned" );
                at( fk1, static_cast<const char*>( *d[ j ] ), "FileNameKey" );
                at( fk2, static_cast<const char*>( *f[ j ] ), "FileNameKey of a string" );
                at( fk3, static_cast<const char*>( *f[ i ] ), "FileNameKey assigned" );
            }
            bool same = lower( dm[ i ] ) == lower( alt );
            if ( ( fk == b.get() ) != same || ( fk != b.get() ) == same ) c.fail( "comparison of a FileNameKey" );
        }
    }

    // compiled FAM_PARTS (5) times, each with two of the capacities, to build in parallel
#define CAPS( X ) X( 0, 1, 256 ) X( 1, 2, 63 ) X( 2, 3, 31 ) X( 3, 4, 16 ) X( 4, 7, 15 )
#define FAM_DECL( P, A, B ) extern template void run<A>( Src&, Ctx& ); extern template void run<B>( Src&, Ctx& );
#define FAM_DEF( P, A, B ) template void run<A>( Src&, Ctx& ); template void run<B>( Src&, Ctx& );
#if !defined( FAM_PARTS ) || FAM_PART == 0
    CAPS( FAM_DECL )
    void runCase( Src& s, Ctx& c )
    {
        switch ( s.below( 10 ) )
        {
            case 0: run<1>( s, c ); break;
            case 1: run<2>( s, c ); break;
            case 2: run<3>( s, c ); break;
            case 3: run<4>( s, c ); break;
            case 4: run<7>( s, c ); break;
            case 5: run<15>( s, c ); break;
            case 6: run<16>( s, c ); break;
            case 7: run<31>( s, c ); break;
            case 8: run<63>( s, c ); break;
            default: run<256>( s, c ); break;
        }
    }
#endif

#ifndef FAM_PARTS
    CAPS( FAM_DEF )
#elif FAM_PART == 0
    template void run<1>( Src&, Ctx& ); template void run<256>( Src&, Ctx& );
#elif FAM_PART == 1
    template void run<2>( Src&, Ctx& ); template void run<63>( Src&, Ctx& );
#elif FAM_PART == 2
    template void run<3>( Src&, Ctx& ); template void run<31>( Src&, Ctx& );
#elif FAM_PART == 3
    template void run<4>( Src&, Ctx& ); template void run<16>( Src&, Ctx& );
#else
    template void run<7>( Src&, Ctx& ); template void run<15>( Src&, Ctx& );
#endif
}
