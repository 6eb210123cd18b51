#include "common.h"
#include "gen.h"
#include "TSString.h"
#include "TSText.h"
#include <memory>
#include <cmath>
#include <cstring>
namespace pbt
{
    const char* const kProperty = "C17";
    const char* const kRule     = "One of: a block of 256 code points (encode, decode, validate, count, hexadecimal); a lead pair of bytes followed by every third byte and the boundary values of the fourth; a UTF-8 text (well formed, or with broken, truncated and over-long "
                                  "sequences) and a UTF-16 text (with lone surrogates) converted with every kind of limit; a pair of related texts through every comparison and search; integers and floats through every conversion with every limit; texts through the readers "
                                  "and path helpers. Texts lie in blocks of exactly their size, outputs in blocks of exactly the limit. Oracle: definitions written over std::string; non-trivial = multi-byte or malformed sequence, limit smaller than the text, texts sharing a "
                                  "non-empty prefix, or number outside 32 bits; distinct by input.";
    void setup() {}
    using namespace Terathon;

    struct Blk
    {
        std::unique_ptr<char[]> p;
        explicit Blk( const std::string& s, bool z = true ) : p( new char[ s.size() + ( z ? 1 : 0 ) ] )
        {
            memcpy( p.get(), s.data(), s.size() );
            if ( z ) p[ s.size() ] = 0;
        }
        operator const char*() const { return p.get(); }
    };
    struct Out
    {
        std::unique_ptr<char[]> p;
        explicit Out( size_t max ) : p( new char[ max + 1 ] ) { memset( p.get(), 0x5a, max + 1 ); }
        operator char*() const { return p.get(); }
        std::string str() const { return p.get(); }
    };

    static bool isCont( uint8_t b ) { return b >= 0x80 && b <= 0xBF; }
    // RFC 3629 table; returns the number of bytes or 0; sur: an encoded surrogate
    static int wellFormed( const std::string& t, size_t i, uint32_t* code, bool* sur )
    {
        auto at = [&]( size_t k ) -> uint8_t { return k < t.size() ? uint8_t( t[ k ] ) : 0; };
        uint8_t a = at( i ), b = at( i + 1 );
        *sur      = false;
        if ( a < 0x80 ) { *code = a; return 1; }
        if ( a < 0xC2 || a > 0xF4 || !isCont( b ) ) return 0;
        if ( a < 0xE0 ) { *code = ( a - 0xC0u ) * 64 + ( b - 0x80u ); return 2; }
        uint8_t c = at( i + 2 );
        if ( a < 0xF0 )
        {
            if ( a == 0xE0 && b < 0xA0 ) return 0;
            if ( !isCont( c ) ) return 0;
            *sur  = a == 0xED && b >= 0xA0;
            *code = ( a - 0xE0u ) * 4096 + ( b - 0x80u ) * 64 + ( c - 0x80u );
            return 3;
        }
        if ( ( a == 0xF0 && b < 0x90 ) || ( a == 0xF4 && b > 0x8F ) || !isCont( c ) ) return 0;
        uint8_t d = at( i + 3 );
        if ( !isCont( d ) ) return 0;
        *code = ( a - 0xF0u ) * 262144 + ( b - 0x80u ) * 4096 + ( c - 0x80u ) * 64 + ( d - 0x80u );
        return 4;
    }
    static std::string hex( uint64_t v, int n )
    {
        static const char k[] = "0123456789ABCDEF";
        std::string       r( n, '0' );
        for ( int i = n - 1; i >= 0; i-- ) { r[ i ] = k[ v % 16 ]; v /= 16; }
        return r;
    }

    static void codePoints( Src& s, Ctx& c )
    {
        uint32_t block = s.below( 0x1100 );
        if ( s.chance( 1, 8 ) ) block = s.below( 12 );
        c.input( block );
        c.evals      = 256;
        c.nontrivial = true;
        c.label( "code points" );
        c.noteLazy( [&] { return fmt( "code points U+%X..U+%X", block * 256, block * 256 + 255 ); } );
        for ( uint32_t k = 0; k < 256; k++ )
        {
            uint32_t    cp = block * 256 + k;
            int         n  = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
            std::string e;
            if ( n == 1 ) e += char( cp );
            else if ( n == 2 ) { e += char( 0xC0 + cp / 64 ); e += char( 0x80 + cp % 64 ); }
            else if ( n == 3 ) { e += char( 0xE0 + cp / 4096 ); e += char( 0x80 + cp / 64 % 64 ); e += char( 0x80 + cp % 64 ); }
            else { e += char( 0xF0 + cp / 262144 ); e += char( 0x80 + cp / 4096 % 64 ); e += char( 0x80 + cp / 64 % 64 ); e += char( 0x80 + cp % 64 ); }
            if ( Text::GetUnicodeCharByteCount( cp ) != n ) c.fail( fmt( "byte count of U+%X", cp ) );
            bool sur = cp >= 0xD800 && cp < 0xE000;
            if ( sur ) continue;
            std::unique_ptr<char[]> o( new char[ n ] );
            if ( Text::WriteUnicodeChar( o.get(), cp ) != n || memcmp( o.get(), e.data(), n ) != 0 ) c.fail( fmt( "encoding of U+%X", cp ) );
            uint32 code = 0xABCDEF;
            if ( Text::ReadUnicodeChar( o.get(), &code ) != n || code != cp ) c.fail( fmt( "decoding of U+%X gives U+%X", cp, code ) );
            if ( Text::ValidateUnicodeChar( o.get() ) != n ) c.fail( fmt( "validation of U+%X", cp ) );
            if ( Text::GetNextUnicodeCharByteCount( o.get(), 4 ) != n ) c.fail( fmt( "next byte count of U+%X", cp ) );
            if ( Text::GetPreviousUnicodeCharByteCount( o.get() + n, n ) != n ) c.fail( fmt( "previous byte count of U+%X", cp ) );
            uint16_t w[ 3 ] = { uint16_t( cp ), 0, 0 };
            if ( n == 4 ) { w[ 0 ] = uint16_t( 0xD800 + ( cp - 0x10000 ) / 1024 ); w[ 1 ] = uint16_t( 0xDC00 + ( cp - 0x10000 ) % 1024 ); }
            if ( cp )
            {
                Blk    b( e );
                uint16 v[ 3 ] = { 7, 7, 7 };
                int    u      = n == 4 ? 2 : 1;
                Text::ConvertStringToWideText( b, v, 2 );
                if ( memcmp( v, w, size_t( u + 1 ) * 2 ) != 0 ) c.fail( fmt( "UTF-16 form of U+%X", cp ) );
                if ( Text::GetWideTextCharCount( b ) != u || Text::GetUnicodeCharCount( b ) != 1 || Text::GetUnicodeCharStringByteCount( b, 1 ) != n ) c.fail( fmt( "counts of U+%X", cp ) );
                Out t( n );
                Text::ConvertWideTextToString( reinterpret_cast<uint16*>( w ), t, n );
                if ( t.str() != e || Text::GetUnicodeStringLength( reinterpret_cast<uint16*>( w ) ) != n ) c.fail( fmt( "UTF-8 form of U+%X from UTF-16", cp ) );
            }
        }
        uint32_t beyond = 0x110000 + s.below( 3 ) * ( s.u32() >> 8 );
        Out      o( 3 );
        if ( Text::GetUnicodeCharByteCount( beyond ) != 0 || Text::WriteUnicodeChar( o, beyond ) != 0 || o[ 0 ] != 0x5a ) c.fail( fmt( "U+%X has an encoding", beyond ) );
    }

    static void oneSequence( Ctx& c, const std::string& t )
    {
        Blk      b( t );
        uint32_t code = 0;
        bool     sur  = false;
        int      n    = wellFormed( t, 0, &code, &sur );
        uint32   got  = 0xABCDEF;
        int      r = Text::ReadUnicodeChar( b, &got ), v = Text::ValidateUnicodeChar( b );
        if ( sur ) return;
        if ( v != n ) c.fail( "validation of " + quote( t ) + fmt( " gives %d, not %d", v, n ) );
        if ( n == 0 ) { n = 1; code = 0xFFFD; }
        if ( r != n || got != code ) c.fail( "decoding of " + quote( t ) + fmt( " gives %d bytes, U+%X, not %d bytes, U+%X", r, got, n, code ) );
    }
    static void sequences( Src& s, Ctx& c )
    {
        static const uint8_t k4[] = { 0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0xA0, 0xBF, 0xC0, 0xFF };
        uint8_t              a = s.chance( 1, 2 ) ? uint8_t( 0xC0 + s.below( 64 ) ) : s.u8(), b = s.chance( 1, 2 ) ? uint8_t( 0x80 + s.below( 64 ) ) : s.u8();
        c.label( "byte sequences" );
        c.nontrivial = true;
        c.input( uint64_t( a ) * 256 + b );
        c.noteLazy( [&] { return fmt( "sequences starting %02X %02X", a, b ); } );
        c.evals = 0;
        for ( uint32_t x = 0; x < 256; x++ )
        {
            for ( uint8_t y : k4 )
            {
                std::string t;
                for ( uint8_t v : { a, b, uint8_t( x ), y } ) { if ( !v ) break; t += char( v ); }
                oneSequence( c, t );
                c.evals++;
                if ( x == 0 || b == 0 || a == 0 ) break;
            }
            if ( b == 0 || a == 0 ) break;
        }
    }

    static uint32_t genCp( Src& s )
    {
        switch ( s.below( 5 ) )
        {
            case 0: return 1 + s.below( 0x7F );
            case 1: return 0x80 + s.below( 0x780 );
            case 2: { uint32_t v = 0x800 + s.below( 0xF800 ); return v >= 0xD800 && v < 0xE000 ? v - 0x1000 : v; }
            case 3: return 0x10000 + s.below( 0x100000 );
            default: { static const uint32_t k[] = { 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0xFEFF }; return s.oneOf( k ); }
        }
    }
    static void put16( std::u16string& w, uint32_t cp )
    {
        if ( cp < 0x10000 ) w += char16_t( cp );
        else { w += char16_t( 0xD800 + ( cp - 0x10000 ) / 1024 ); w += char16_t( 0xDC00 + ( cp - 0x10000 ) % 1024 ); }
    }
    static void unicodeTexts( Src& s, Ctx& c )
    {
        c.label( "unicode texts" );
        bool                  broken = s.chance( 1, 3 );
        std::string           t;
        std::vector<uint32_t> cps;
        std::vector<size_t>   at { 0 };
        for ( uint32_t n = s.len( 30 ); n; n-- )
        {
            if ( broken && s.chance( 1, 3 ) )
            {
                switch ( s.below( 3 ) )
                {
                    case 0: t += char( 0x80 + s.below( 128 ) ); break;
                    case 1: { std::string e; gen::utf8( e, genCp( s ) ); if ( e.size() > 1 ) e.pop_back(); t += e; break; }
                    default: { std::string e; gen::utf8( e, genCp( s ) ); e[ s.below( uint32_t( e.size() ) ) ] = char( 1 + s.below( 255 ) ); t += e; break; }
                }
                continue;
            }
            uint32_t cp = genCp( s );
            gen::utf8( t, cp );
            if ( !broken ) { cps.push_back( cp ); at.push_back( t.size() ); }
        }
        c.input( t );
        c.noteLazy( [&] { return "text " + quote( t ); } );
        Blk b( t );
        // decode as the definition says
        std::vector<uint32_t> dec;
        bool                  anySur = false;
        for ( size_t i = 0; i < t.size(); )
        {
            uint32_t cp;
            bool     sur;
            int      n = wellFormed( t, i, &cp, &sur );
            anySur |= sur;
            if ( n == 0 ) { n = 1; cp = 0xFFFD; }
            if ( n > 1 || cp == 0xFFFD ) c.nontrivial = true;
            dec.push_back( cp );
            i += n;
        }
        if ( Text::GetTextLength( b ) != int( t.size() ) ) c.fail( "length" );
        int32_t lim = int32_t( s.below( uint32_t( t.size() + 3 ) ) );
        // counts
        int cnt = Text::GetUnicodeCharCount( b ), cntLim = Text::GetUnicodeCharCount( b, lim );
        {
            Blk raw( t.substr( 0, size_t( lim ) ), lim > int32_t( t.size() ) );
            if ( Text::GetUnicodeCharCount( raw, lim ) != cntLim ) c.fail( "the number of characters depends on bytes beyond the limit" );
        }
        int32_t want  = int32_t( s.below( uint32_t( t.size() + 2 ) ) );
        int     bytes = Text::GetUnicodeCharStringByteCount( b, want );
        if ( !broken )
        {
            if ( cnt != int( cps.size() ) ) c.fail( fmt( "%d characters counted instead of %zu", cnt, cps.size() ) );
            int inLim = 0;
            for ( size_t k = 0; k < cps.size(); k++ ) inLim += int( at[ k ] ) < lim;
            if ( cntLim != inLim ) c.fail( fmt( "%d characters counted within %d bytes instead of %d", cntLim, lim, inLim ) );
            int e = int( at[ std::min( size_t( want ), cps.size() ) ] );
            if ( bytes != e ) c.fail( fmt( "%d characters take %d bytes, not %d", want, bytes, e ) );
            for ( size_t k = 0; k < cps.size(); k++ )
            {
                int sz = int( at[ k + 1 ] - at[ k ] ), m = int( s.below( 6 ) );
                if ( Text::GetNextUnicodeCharByteCount( b + at[ k ], m ) != std::min( m, sz ) ) c.fail( "size of the next character" );
                m = std::min( m, int( at[ k + 1 ] ) );
                if ( Text::GetPreviousUnicodeCharByteCount( b + at[ k + 1 ], m ) != std::min( m, sz ) ) c.fail( "size of the previous character" );
            }
        }
        else
        {
            if ( cnt < 0 || cnt > int( t.size() ) || cntLim < 0 || cntLim > std::min( lim, int( t.size() ) ) || bytes < std::min( want, cnt ) || bytes > int( t.size() ) ) c.fail( "counts of a malformed text are out of range" );
        }
        if ( !anySur )
        {
            std::u16string w;
            for ( uint32_t cp : dec ) put16( w, cp );
            if ( Text::GetWideTextCharCount( b ) != int( w.size() ) ) c.fail( "number of UTF-16 units" );
            int32_t                   max = s.chance( 1, 2 ) ? int32_t( w.size() ) : int32_t( s.below( uint32_t( w.size() + 3 ) ) );
            std::unique_ptr<uint16[]> o( new uint16[ max + 1 ] );
            Text::ConvertStringToWideText( b, o.get(), max );
            std::u16string cutw;
            for ( uint32_t cp : dec ) { std::u16string x; put16( x, cp ); if ( cutw.size() + x.size() > size_t( max ) ) break; cutw += x; }
            for ( size_t k = 0; k < cutw.size(); k++ ) if ( o[ k ] != uint16( cutw[ k ] ) ) c.fail( fmt( "UTF-16 unit %zu is %04X, not %04X", k, o[ k ], uint16( cutw[ k ] ) ) );
            if ( o[ cutw.size() ] != 0 ) c.fail( "UTF-16 text is not terminated at its end" );
            if ( max < int32_t( w.size() ) ) c.nontrivial = true;
            if ( !broken && max >= int32_t( w.size() ) )
            {
                Out back( t.size() );
                Text::ConvertWideTextToString( o.get(), back, int32( t.size() ) );
                if ( back.str() != t ) c.fail( "UTF-8 to UTF-16 and back gives " + quote( back.str() ) );
                if ( Text::GetUnicodeStringLength( o.get() ) != int( t.size() ) ) c.fail( "length of the UTF-8 form" );
                String<> str( o.get() );
                if ( str != static_cast<const char*>( b ) ) c.fail( "String of a UTF-16 text" );
            }
        }
        // UTF-16 with lone surrogates
        std::u16string        w;
        std::vector<uint32_t> codes;
        for ( uint32_t n = s.len( 20 ); n; n-- )
        {
            switch ( s.below( 4 ) )
            {
                case 0: w += char16_t( 0xD800 + s.below( 0x800 ) ); break;
                case 1: w += char16_t( s.chance( 1, 2 ) ? 0xDC00 : 0xDBFF ); break;
                default: put16( w, genCp( s ) );
            }
        }
        std::string full;
        for ( size_t k = 0; k < w.size(); k++ )
        {
            uint32_t u = w[ k ];
            if ( u >= 0xDC00 && u < 0xE000 ) continue;
            if ( u >= 0xD800 && u < 0xDC00 )
            {
                if ( k + 1 < w.size() && w[ k + 1 ] >= 0xDC00 && w[ k + 1 ] < 0xE000 ) { u = 0x10000 + ( u - 0xD800 ) * 1024 + ( w[ k + 1 ] - 0xDC00 ); k++; }
                else continue;
            }
            codes.push_back( u );
            gen::utf8( full, u );
        }
        std::unique_ptr<uint16[]> in( new uint16[ w.size() + 1 ] );
        for ( size_t k = 0; k <= w.size(); k++ ) in[ k ] = k < w.size() ? uint16( w[ k ] ) : 0;
        for ( char16_t u : w ) c.input( u );
        if ( Text::GetUnicodeStringLength( in.get() ) != int( full.size() ) ) c.fail( fmt( "UTF-8 length of a UTF-16 text is %d, not %zu", Text::GetUnicodeStringLength( in.get() ), full.size() ) );
        int32_t     max = s.chance( 1, 2 ) ? int32_t( full.size() ) : int32_t( s.below( uint32_t( full.size() + 3 ) ) );
        Out         o( max );
        std::string exp;
        Text::ConvertWideTextToString( in.get(), o, max );
        for ( uint32_t u : codes ) { std::string e; gen::utf8( e, u ); if ( exp.size() + e.size() > size_t( max ) ) break; exp += e; }
        if ( o.str() != exp ) c.fail( "UTF-8 form is " + quote( o.str() ) + " not " + quote( exp ) );
    }

    static std::string up( std::string x ) { for ( char& c : x ) if ( c >= 'a' && c <= 'z' ) c -= 32; return x; }
    static std::string genT( Src& s, uint32_t st )
    {
        static const char k1[] = "aAbB", k2[] = "0123456789aAz.", k3[] = "@AZ[`az{\x7f\x80\xC1\xE1\xFF/:09", k4[] = "\"\\ax ";
        std::string       r;
        for ( uint32_t n = s.len( 24 ); n; n-- )
            switch ( st )
            {
                case 0: r += k1[ s.below( 4 ) ]; break;
                case 1: r += k2[ s.below( sizeof( k2 ) - 1 ) ]; break;
                case 2: r += k3[ s.below( sizeof( k3 ) - 1 ) ]; break;
                case 3: r += k4[ s.below( 5 ) ]; break;
                default: r += char( 1 + s.below( 255 ) );
            }
        return r;
    }
    static int numbered( const std::string& a, const std::string& b, bool* open )
    {
        size_t i = 0, j = 0;
        auto   dig = []( const std::string& x, size_t k ) { return k < x.size() && x[ k ] >= '0' && x[ k ] <= '9'; };
        for ( ;; )
        {
            if ( dig( a, i ) && dig( b, j ) )
            {
                size_t i0 = i, j0 = j;
                while ( dig( a, i ) ) i++;
                while ( dig( b, j ) ) j++;
                if ( i - i0 > 9 || j - j0 > 9 ) { *open = true; return 0; }
                unsigned x = unsigned( std::stoul( a.substr( i0, i - i0 ) ) ), y = unsigned( std::stoul( b.substr( j0, j - j0 ) ) );
                if ( x != y ) return x < y ? -1 : 1;
                if ( i - i0 != j - j0 ) return i - i0 < j - j0 ? -1 : 1;
                continue;
            }
            int x = i < a.size() ? uint8_t( a[ i ] ) : 0, y = j < b.size() ? uint8_t( b[ j ] ) : 0;
            if ( x != y ) return x - y;
            if ( x == 0 ) return 0;
            i++;
            j++;
        }
    }
    static void compare( Src& s, Ctx& c )
    {
        c.label( "comparisons and searches" );
        uint32_t    st = s.below( 5 );
        std::string a = genT( s, st ), b;
        if ( s.chance( 1, 500 ) && !a.empty() )
        {
            // a very long one
            const size_t n = gen::largeSize( s, 70000 );
            std::string  u = a;
            while ( a.size() + u.size() <= n ) a += u;
            c.label( "long texts" );
        }
        switch ( s.below( 5 ) )
        {
            case 0: b = a; break;
            case 1: b = a; for ( char& x : b ) if ( ( ( x | 32 ) >= 'a' && ( x | 32 ) <= 'z' ) && s.chance( 1, 2 ) ) x ^= 32; break;
            case 2: b = a; if ( !b.empty() ) b[ s.below( uint32_t( b.size() ) ) ] ^= s.chance( 1, 2 ) ? 32 : 128; if ( b.find( '\0' ) != std::string::npos ) b = a; break;
            case 3: b = a.substr( 0, s.below( uint32_t( a.size() + 1 ) ) ) + genT( s, st ); break;
            default: b = genT( s, st );
        }
        if ( s.chance( 1, 2 ) ) std::swap( a, b );
        c.input( a );
        c.input( b );
        c.noteLazy( [&] { return quote( a ) + " against " + quote( b ); } );
        if ( !a.empty() && !b.empty() && up( a )[ 0 ] == up( b )[ 0 ] ) c.nontrivial = true;
        Blk         x( a ), y( b );
        std::string ua = up( a ), ub = up( b );
        auto        chk = [&]( const char* f, bool got, bool exp ) { if ( got != exp ) c.fail( fmt( "%s(", f ) + quote( a ) + ", " + quote( b ) + fmt( ") is %d", got ) ); };
        chk( "CompareText", Text::CompareText( x, y ), a == b );
        chk( "CompareTextCaseless", Text::CompareTextCaseless( x, y ), ua == ub );
        chk( "CompareTextLessThan", Text::CompareTextLessThan( x, y ), a.compare( b ) < 0 );
        chk( "CompareTextLessThanCaseless", Text::CompareTextLessThanCaseless( x, y ), ua.compare( ub ) < 0 );
        chk( "CompareTextLessEqual", Text::CompareTextLessEqual( x, y ), a.compare( b ) <= 0 );
        chk( "CompareTextLessEqualCaseless", Text::CompareTextLessEqualCaseless( x, y ), ua.compare( ub ) <= 0 );
        bool open = false;
        int  nc = numbered( a, b, &open ), nu = numbered( ua, ub, &open );
        if ( !open )
        {
            chk( "CompareNumberedTextLessThan", Text::CompareNumberedTextLessThan( x, y ), nc < 0 );
            chk( "CompareNumberedTextLessThanCaseless", Text::CompareNumberedTextLessThanCaseless( x, y ), nu < 0 );
        }
        // at most max bytes: the texts need not be terminated within them
        int32_t     m  = int32_t( s.below( uint32_t( std::max( a.size(), b.size() ) + 3 ) ) );
        std::string ma = a.substr( 0, size_t( m ) ), mb = b.substr( 0, size_t( m ) ), mua = up( ma ), mub = up( mb );
        Blk         p( ma, m > int32_t( a.size() ) ), q( mb, m > int32_t( b.size() ) );
        chk( "CompareText with limit", Text::CompareText( p, q, m ), ma == mb );
        chk( "CompareTextCaseless with limit", Text::CompareTextCaseless( p, q, m ), mua == mub );
        chk( "CompareTextLessThan with limit", Text::CompareTextLessThan( p, q, m ), ma.compare( mb ) < 0 );
        chk( "CompareTextLessThanCaseless with limit", Text::CompareTextLessThanCaseless( p, q, m ), mua.compare( mub ) < 0 );
        chk( "CompareTextLessEqual with limit", Text::CompareTextLessEqual( p, q, m ), ma.compare( mb ) <= 0 );
        chk( "CompareTextLessEqualCaseless with limit", Text::CompareTextLessEqualCaseless( p, q, m ), mua.compare( mub ) <= 0 );
        // searches
        std::string pat = b;
        if ( s.chance( 1, 2 ) && !a.empty() )
        {
            uint32_t i = s.below( uint32_t( a.size() ) );
            pat        = a.substr( i, 1 + s.below( 4 ) );
            if ( s.chance( 1, 2 ) ) for ( char& z : pat ) if ( ( ( z | 32 ) >= 'a' && ( z | 32 ) <= 'z' ) && s.chance( 1, 2 ) ) z ^= 32;
        }
        if ( pat.size() > 64 && a.size() > 4096 ) pat.resize( 64 ); // the search is quadratic
        if ( !pat.empty() )
        {
            Blk  pp( pat );
            auto pos = []( size_t k ) { return k == std::string::npos ? -1 : int( k ); };
            int  f1 = Text::FindText( x, pp ), f2 = Text::FindTextCaseless( x, pp );
            if ( f1 != pos( a.find( pat ) ) ) c.fail( "FindText(" + quote( a ) + ", " + quote( pat ) + fmt( ") is %d", f1 ) );
            if ( f2 != pos( ua.find( up( pat ) ) ) ) c.fail( "FindTextCaseless(" + quote( a ) + ", " + quote( pat ) + fmt( ") is %d", f2 ) );
        }
        uint32_t k = s.chance( 2, 3 ) && !a.empty() ? uint8_t( a[ s.below( uint32_t( a.size() ) ) ] ) : 1 + s.below( 255 );
        size_t   e = a.find( char( k ) );
        if ( Text::FindChar( x, k ) != ( e == std::string::npos ? -1 : int( e ) ) ) c.fail( "FindChar" );
        if ( Text::FindChar( p, k, m ) != ( e == std::string::npos || int( e ) >= m ? -1 : int( e ) ) ) c.fail( "FindChar with limit" );
        int count = 0;
        for ( char z : ma ) count += z == char( k );
        if ( Text::CountChars( p, k, m ) != count ) c.fail( "CountChars" );
        // unquoted: remove the quoted parts
        int  un    = -1;
        bool quote_ = false;
        for ( size_t i = 0; i < a.size(); i++ )
        {
            if ( quote_ ) { if ( a[ i ] == '\\' ) i++; else if ( a[ i ] == '"' ) quote_ = false; }
            else if ( a[ i ] == '"' ) quote_ = true;
            else if ( a[ i ] == char( k ) ) { un = int( i ); break; }
        }
        if ( Text::FindUnquotedChar( x, k ) != un ) c.fail( "FindUnquotedChar(" + quote( a ) + fmt( ", %02x) is %d, not %d", k, Text::FindUnquotedChar( x, k ), un ) );
        // copies and hash
        Out o1( a.size() );
        if ( Text::CopyText( x, o1 ) != int( a.size() ) || o1.str() != a ) c.fail( "CopyText" );
        Out o2( m );
        if ( Text::CopyText( p, o2, m ) != int( ma.size() ) || o2.str() != ma ) c.fail( "CopyText with limit" );
        uint32_t h = 0;
        for ( char z : a ) h = ( h ^ uint8_t( z ) ) * 0x6B84DF47u + 1;
        if ( Text::Hash( x ) != h ) c.fail( "Hash differs from the compile-time hash" );
        static_assert( Text::StaticHash<'a', 'B'>::value == uint32_t( ( ( uint32_t( 'a' * 0x6B84DF47ULL ) + 1 ) ^ 'B' ) * 0x6B84DF47ULL + 1 ), "" );
        if ( Text::StaticHash<'f', 'o', 'o', 'b', 'a', 'r'>::value != Text::Hash( "foobar" ) ) c.fail( "StaticHash" );
    }

    static void numbers( Src& s, Ctx& c )
    {
        c.label( "numbers" );
        int64_t v;
        switch ( s.below( 4 ) )
        {
            case 0: v = int64_t( s.below( 400 ) ) - 200; break;
            case 1: { int64_t p = 1; for ( uint32_t k = s.below( 19 ); k; k-- ) p *= 10; p += int64_t( s.below( 3 ) ) - 1; v = s.chance( 1, 2 ) ? -p : p; break; }
            case 2: { static const int64_t k[] = { INT64_MIN, INT64_MAX, INT64_MIN + 1, INT32_MIN, INT32_MAX, int64_t( UINT32_MAX ), int64_t( INT32_MIN ) - 1, 0, -1 }; v = s.oneOf( k ); break; }
            default: v = int64_t( s.u64() >> s.below( 64 ) ) * ( s.chance( 1, 2 ) ? -1 : 1 );
        }
        int32_t max = int32_t( s.below( 25 ) );
        c.input( uint64_t( v ) );
        c.input( uint64_t( max ) );
        c.noteLazy( [&] { return fmt( "%lld with limit %d", (long long)v, max ); } );
        if ( v != int32_t( v ) || max < 10 ) c.nontrivial = true;
        auto chk = [&]( const char* f, int r, const Out& o, std::string exp )
        {
            exp = exp.substr( 0, size_t( max ) );
            if ( o.str() != exp || r != int( exp.size() ) ) c.fail( fmt( "%s(%lld) with limit %d: ", f, (long long)v, max ) + quote( o.str() ) + fmt( ", length %d", r ) );
        };
        { Out o( max ); int r = Text::IntegerToString( int32( v ), o, max ); chk( "IntegerToString", r, o, std::to_string( int32_t( v ) ) ); }
        { Out o( max ); int r = Text::Integer64ToString( v, o, max ); chk( "Integer64ToString", r, o, std::to_string( v ) ); }
        uint64_t u = uint64_t( v );
        { Out o( max ); int r = Text::UnsignedInteger64ToString( u, o, max ); chk( "UnsignedInteger64ToString", r, o, std::to_string( u ) ); }
        if ( Text::Integer64ToHexString16( u ) != hex( u, 16 ).c_str() ) c.fail( fmt( "Integer64ToHexString16(%llx)", (unsigned long long)u ) );
        if ( Text::IntegerToHexString8( uint32( u ) ) != hex( u & 0xFFFFFFFF, 8 ).c_str() ) c.fail( fmt( "IntegerToHexString8(%x)", uint32( u ) ) );
        if ( Text::IntegerToHexString4( uint32( u ) ) != hex( u & 0xFFFF, 4 ).c_str() ) c.fail( fmt( "IntegerToHexString4(%x)", uint32( u ) ) );
        if ( Text::IntegerToHexString2( uint32( u ) ) != hex( u & 0xFF, 2 ).c_str() ) c.fail( fmt( "IntegerToHexString2(%x)", uint32( u ) ) );
        // four-character codes
        std::string t = genT( s, 4 ).substr( 0, 4 );
        if ( t.empty() ) t = "q";
        {
            Blk      b( t );
            uint32_t type = 0;
            for ( size_t k = 0; k < 4; k++ ) type = type << 8 | ( k < t.size() ? uint8_t( t[ k ] ) : 0 );
            if ( Text::StringToType( b ) != type ) c.fail( "StringToType(" + quote( t ) + ")" );
            if ( Text::TypeToString( type ) != t.c_str() ) c.fail( "TypeToString of the type of " + quote( t ) );
            if ( Text::TypeToHexCharString( type ) != ( "0x" + hex( type, 8 ) + " '" + t + "'" ).c_str() ) c.fail( "TypeToHexCharString of the type of " + quote( t ) );
        }
    }

    static void floats( Src& s, Ctx& c )
    {
        c.label( "floats" );
        uint32_t bits = s.u32();
        float    f;
        switch ( s.below( 5 ) )
        {
            case 0: break;
            case 1: { double p = std::pow( 10.0, int( s.below( 76 ) ) - 37 ); f = float( p * ( 1 + int( s.below( 3 ) ) - 1 ) ); memcpy( &bits, &f, 4 ); bits += s.below( 5 ) - 2; break; }
            case 2: f = float( int32_t( s.u32() >> s.below( 32 ) ) ) / float( 1u << s.below( 24 ) ); memcpy( &bits, &f, 4 ); break;
            case 3: { static const uint32_t k[] = { 0x00800000, 0x7F7FFFFF, 0x7F800000, 0xFF800000, 0x7FC00000, 0x80000000, 0, 1, 0x007FFFFF, 0x80000001, 0xFFC00001 }; bits = s.oneOf( k ); break; }
            default: f = ( int( s.below( 2000 ) ) - 1000 ) * 0.01f; memcpy( &bits, &f, 4 );
        }
        memcpy( &f, &bits, 4 );
        int32_t max = s.chance( 3, 4 ) ? 24 + int32_t( s.below( 8 ) ) : int32_t( s.below( 24 ) );
        c.input( uint64_t( bits ) << 8 | uint64_t( max ) );
        c.noteLazy( [&] { return fmt( "%.9g (%08x) with limit %d", double( f ), bits, max ); } );
        if ( max < 24 || std::fabs( f ) < 1e-4 || std::fabs( f ) >= 1e5 ) c.nontrivial = true;
        Out         o( max );
        int         r = Text::FloatToString( f, o, max );
        std::string t = o.str();
        if ( r != int( t.size() ) || r > max ) c.fail( fmt( "FloatToString(%.9g) with limit %d returns %d for ", double( f ), max, r ) + quote( t ) );
        if ( max < 24 ) return;
        if ( std::isnan( f ) || std::isinf( f ) )
        {
            if ( t != std::string( bits >> 31 ? "-" : "" ) + ( std::isnan( f ) ? "NAN" : "INF" ) ) c.fail( fmt( "FloatToString(%08x) is ", bits ) + quote( t ) );
            return;
        }
        size_t i = 0;
        if ( t[ i ] == '-' ) i++;
        size_t d = i;
        while ( i < t.size() && t[ i ] >= '0' && t[ i ] <= '9' ) i++;
        bool ok = i > d && t[ i ] == '.';
        d       = ++i;
        while ( i < t.size() && t[ i ] >= '0' && t[ i ] <= '9' ) i++;
        ok = ok && i > d;
        if ( i < t.size() )
        {
            ok = ok && t[ i ] == 'e';
            i++;
            if ( t[ i ] == '-' ) i++;
            d = i;
            while ( i < t.size() && t[ i ] >= '0' && t[ i ] <= '9' ) i++;
            ok = ok && i > d && i == t.size();
        }
        if ( !ok ) c.fail( fmt( "FloatToString(%.9g) is not a number: ", double( f ) ) + quote( t ) );
        double v = strtod( t.c_str(), nullptr ), a = std::fabs( double( f ) );
        double tol = a < 1.2e-38 ? 1.2e-38 : ( a >= 0.99e-4 && a < 1 ) ? 5e-5 : 5e-5 * a;
        if ( !( std::fabs( v - double( f ) ) <= tol ) ) c.fail( fmt( "FloatToString(%.9g) is ", double( f ) ) + quote( t ) );
    }

    static void readers( Src& s, Ctx& c )
    {
        c.label( "readers and paths" );
        // a number, then a byte that cannot belong to it
        auto digits = [&]( uint32_t lo ) { std::string r; for ( uint32_t n = lo + s.below( 6 ); n; n-- ) r += char( '0' + s.below( 10 ) ); return r; };
        static const char stop[] = " ,x;\n+]\x80";
        std::string       tail   = s.chance( 1, 4 ) ? "" : stop[ s.below( 8 ) ] + genT( s, s.below( 5 ) );
        std::string       ni     = ( s.chance( 1, 3 ) ? "-" : "" ) + digits( 1 );
        std::string       nf     = ni;
        if ( s.chance( 2, 3 ) ) nf += "." + digits( 0 );
        if ( s.chance( 1, 2 ) ) nf += std::string( s.chance( 1, 2 ) ? "e" : "E" ) + ( s.chance( 1, 2 ) ? "-" : "" ) + digits( 1 );
        int32_t max = s.chance( 1, 2 ) ? int32_t( nf.size() + s.below( 4 ) ) : int32_t( s.below( uint32_t( nf.size() + 1 ) ) );
        c.input( ni + tail );
        c.input( nf );
        c.input( uint64_t( max ) );
        c.noteLazy( [&] { return quote( nf + tail ) + fmt( " with limit %d", max ); } );
        if ( max < int32_t( nf.size() ) || nf.size() > ni.size() ) c.nontrivial = true;
        {
            Blk         b( ni + tail );
            Out         o( max );
            std::string exp = ni.substr( 0, size_t( max ) );
            int         r   = Text::ReadInteger( b, o, max );
            if ( r != int( exp.size() ) || o.str() != exp ) c.fail( "ReadInteger(" + quote( ni + tail ) + fmt( ") with limit %d: ", max ) + quote( o.str() ) );
        }
        {
            Blk         b( nf + tail );
            Out         o( max );
            std::string exp = nf.substr( 0, size_t( max ) );
            int         r   = Text::ReadFloat( b, o, max );
            if ( r != int( exp.size() ) || o.str() != exp ) c.fail( "ReadFloat(" + quote( nf + tail ) + fmt( ") with limit %d: ", max ) + quote( o.str() ) );
        }
        // arbitrary text: a prefix is read
        std::string t = genT( s, s.below( 5 ) );
        Blk         b( t );
        c.input( t );
        for ( int k = 0; k < 2; k++ )
        {
            Out o( max );
            int r = k ? Text::ReadFloat( b, o, max ) : Text::ReadInteger( b, o, max );
            if ( r < 0 || r > max || o.str() != t.substr( 0, size_t( r ) ) ) c.fail( "a reader returns something else than a prefix of " + quote( t ) );
        }
        // unquoted text: up to whitespace or a comment
        {
            std::string u = genT( s, s.below( 5 ) );
            if ( s.chance( 1, 2 ) && !u.empty() ) u[ s.below( uint32_t( u.size() ) ) ] = "/ \n\t/"[ s.below( 5 ) ];
            if ( s.chance( 1, 4 ) ) u.insert( s.below( uint32_t( u.size() + 1 ) ), s.chance( 1, 2 ) ? "//" : "/" );
            if ( u.empty() || u[ 0 ] != '"' )
            {
                size_t e = 0;
                while ( e < u.size() && uint8_t( u[ e ] ) > 32 && !( u[ e ] == '/' && e + 1 < u.size() && u[ e + 1 ] == '/' ) ) e++;
                std::string exp = u.substr( 0, std::min( e, size_t( max ) ) );
                Blk         p( u );
                Out         o( max );
                int         r = Text::ReadString( p, o, max );
                if ( r != int( exp.size() ) || o.str() != exp ) c.fail( "ReadString(" + quote( u ) + fmt( ") with limit %d: ", max ) + quote( o.str() ) );
            }
        }
        // quoted text
        {
            std::string plain = genT( s, s.chance( 1, 2 ) ? 3 : 4 ), q = "\"";
            for ( char z : plain ) { if ( z == '"' || z == '\\' || s.chance( 1, 8 ) ) q += '\\'; q += z; }
            bool closed = s.chance( 7, 8 );
            size_t used = q.size() + closed;
            if ( closed ) q += '"' + genT( s, 3 );
            c.input( q );
            Blk p( q );
            int big = int( q.size() ) + 2;
            Out o( big );
            int r = Text::ReadString( p, o, big );
            if ( r != int( used ) || o.str() != plain ) c.fail( "ReadString(" + quote( q ) + "): " + quote( o.str() ) + fmt( ", %d bytes read", r ) );
            Out o2( max );
            r = Text::ReadString( p, o2, max );
            if ( r < 0 || r > int( q.size() ) || plain.compare( 0, o2.str().size(), o2.str() ) != 0 ) c.fail( "ReadString(" + quote( q ) + fmt( ") with limit %d: ", max ) + quote( o2.str() ) );
        }
        // type
        {
            std::string plain = genT( s, 4 ).substr( 0, s.below( 5 ) ), q = "'";
            uint32_t    exp = 0;
            for ( char z : plain ) { if ( z == '\'' || z == '\\' || s.chance( 1, 8 ) ) q += '\\'; q += z; exp = exp << 8 | uint8_t( z ); }
            bool closed = s.chance( 7, 8 );
            size_t used = q.size() + closed;
            if ( closed ) q += '\'' + genT( s, 4 );
            Blk    p( q );
            uint32 type = 0x5a5a5a5a;
            int    r    = Text::ReadType( p, &type );
            if ( r != int( used ) || type != exp ) c.fail( "ReadType(" + quote( q ) + fmt( "): %08x, %d bytes read", type, r ) );
            Blk none( t );
            if ( t.empty() || t[ 0 ] != '\'' ) { type = 7; if ( Text::ReadType( none, &type ) != 0 || type != 0 ) c.fail( "ReadType of a text without a type" ); }
        }
        // paths
        std::string path;
        for ( uint32_t n = s.len( 16 ); n; n-- ) path += "a/.b"[ s.below( 4 ) ];
        Blk    p( path );
        size_t slash = path.rfind( '/' ), dot = path.rfind( '.' );
        int    name  = int( dot == std::string::npos || ( slash != std::string::npos && dot < slash ) ? path.size() : dot );
        if ( Text::GetResourceNameLength( p ) != name ) c.fail( "GetResourceNameLength(" + quote( path ) + ")" );
        if ( Text::GetDirectoryPathLength( p ) != int( slash == std::string::npos ? 0 : slash + 1 ) ) c.fail( "GetDirectoryPathLength(" + quote( path ) + ")" );
        size_t first = path.find( '/' );
        if ( Text::GetPrefixDirectoryLength( p ) != int( first == std::string::npos ? 0 : first + 1 ) ) c.fail( "GetPrefixDirectoryLength(" + quote( path ) + ")" );
    }

    void runCase( Src& s, Ctx& c )
    {
        switch ( s.pick( { 12, 12, 1, 1, 6, 6, 8 } ) )
        {
            case 0: compare( s, c ); break;
            case 1: unicodeTexts( s, c ); break;
            case 2: codePoints( s, c ); break;
            case 3: sequences( s, c ); break;
            case 4: numbers( s, c ); break;
            case 5: floats( s, c ); break;
            default: readers( s, c ); break;
        }
    }
}
