// Independent reference implementation of the RFC 8259 grammar: recogniser, value tree and
// classification of the first error. Shares no code with the library under test.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdlib>
#include <charconv>
#include <memory>
#include <string>
#include <vector>
#include <set>

namespace ref
{
    enum Kind { kNull, kBool, kNumber, kString, kArray, kObject };

    struct Val
    {
        Kind                                         kind = kNull;
        bool                                         b    = false;
        double                                       d    = 0;
        std::string                                  s;
        std::vector<Val>                             a;
        std::vector<std::pair<std::string, Val>>     o; // in order of first occurrence, first value wins
        bool                                         dup = false;
        bool                                         anyOrder = false; // member order left open (maps)

        const Val* find( const std::string& n ) const
        {
            for ( auto& m : o ) if ( m.first == n ) return &m.second;
            return nullptr;
        }
    };

    inline bool sameNumber( double x, double y )
    {
        uint64_t a, b;
        memcpy( &a, &x, 8 );
        memcpy( &b, &y, 8 );
        if ( x != x && y != y ) return true;
        return a == b;
    }

    inline bool equal( const Val& x, const Val& y, bool ordered = true )
    {
        if ( x.kind != y.kind ) return false;
        switch ( x.kind )
        {
        case kNull: return true;
        case kBool: return x.b == y.b;
        case kNumber: return sameNumber( x.d, y.d );
        case kString: return x.s == y.s;
        case kArray:
            if ( x.a.size() != y.a.size() ) return false;
            for ( size_t i = 0; i < x.a.size(); i++ ) if ( !equal( x.a[ i ], y.a[ i ], ordered ) ) return false;
            return true;
        case kObject:
            if ( x.o.size() != y.o.size() ) return false;
            if ( x.o.size() > 40 && !( ordered && !x.anyOrder && !y.anyOrder ) )
            {
                // the same comparison, not in quadratic time
                std::vector<uint32_t> p( x.o.size() ), q( y.o.size() );
                for ( size_t i = 0; i < p.size(); i++ ) p[ i ] = q[ i ] = uint32_t( i );
                std::sort( p.begin(), p.end(), [ & ]( uint32_t a, uint32_t b ) { return x.o[ a ].first < x.o[ b ].first; } );
                std::sort( q.begin(), q.end(), [ & ]( uint32_t a, uint32_t b ) { return y.o[ a ].first < y.o[ b ].first; } );
                for ( size_t i = 0; i < p.size(); i++ )
                    if ( x.o[ p[ i ] ].first != y.o[ q[ i ] ].first || !equal( x.o[ p[ i ] ].second, y.o[ q[ i ] ].second, ordered ) ) return false;
                return true;
            }
            for ( size_t i = 0; i < x.o.size(); i++ )
            {
                if ( ordered && !x.anyOrder && !y.anyOrder )
                {
                    if ( x.o[ i ].first != y.o[ i ].first || !equal( x.o[ i ].second, y.o[ i ].second, ordered ) ) return false;
                }
                else
                {
                    const Val* v = y.find( x.o[ i ].first );
                    if ( !v || !equal( x.o[ i ].second, *v, ordered ) ) return false;
                }
            }
            return true;
        }
        return false;
    }

    inline void show( const Val& v, std::string& o )
    {
        char b[ 64 ];
        switch ( v.kind )
        {
        case kNull: o += "null"; break;
        case kBool: o += v.b ? "true" : "false"; break;
        case kNumber: snprintf( b, sizeof b, "%.17g", v.d ); o += b; break;
        case kString: o += "'"; o += v.s; o += "'"; break;
        case kArray: o += "["; for ( auto& e : v.a ) { show( e, o ); o += ","; } o += "]"; break;
        case kObject: o += "{"; for ( auto& e : v.o ) { o += e.first; o += ":"; show( e.second, o ); o += ","; } o += "}"; break;
        }
    }
    inline std::string show( const Val& v ) { std::string s; show( v, s ); return s; }

    enum Err
    {
        eNone,
        eValueExpected,  // no value can start here (exact position)
        eLiteral,        // true/false/null misspelt
        eNumber,         // malformed number
        eLeadingZero,
        eStringChar,     // control character or malformed UTF-8 in a string
        eStringEscape,
        eStringEnd,      // text ends inside a string
        eNameExpected,   // object member name expected (exact)
        eColon,          // exact
        eArraySep,       // exact
        eObjectSep,      // exact
        eTrailing        // something after the document (exact)
    };

    struct Result
    {
        bool   ok       = false;
        Err    err      = eNone;
        size_t first    = 0;     // first byte that cannot continue any valid document
        size_t tok      = 0;     // start of the token it belongs to
        bool   afterNum = false; // the error byte directly follows a number or literal token and looks like its continuation
        size_t numTok   = 0;
        bool   endsAt   = false; // error is the end of the text
        bool   afterComma = false;
        // features on which acceptance or decoding is left open by the property
        bool   nulEscape = false, loneSurrogate = false, rawSurrogate = false, bom = false, trailingNul = false;
        size_t depth = 0;        // maximum nesting
        size_t values = 0;
        size_t dups   = 0;
        size_t strings = 0, numbers = 0, escapes = 0, nonAscii = 0;
        Val    v;
        bool open() const { return nulEscape || loneSurrogate || rawSurrogate || bom || trailingNul; }
    };

    class Parser
    {
    public:
        Parser( const std::string& t, Result& r ) : s( t ), R( r ) {}

        void run()
        {
            if ( s.size() >= 3 && (uint8_t)s[ 0 ] == 0xEF && (uint8_t)s[ 1 ] == 0xBB && (uint8_t)s[ 2 ] == 0xBF ) R.bom = true;
            ws();
            if ( !value( R.v, 0 ) ) return;
            ws();
            if ( p != s.size() )
            {
                // only NULs left: padding, left open
                size_t q = p;
                while ( q < s.size() && s[ q ] == 0 ) q++;
                if ( q == s.size() ) R.trailingNul = true;
                fail( eTrailing, p, p );
                return;
            }
            R.ok = true;
        }

    private:
        const std::string& s;
        Result&            R;
        size_t             p = 0;
        size_t             lastTok = size_t( -1 ), lastTokEnd = size_t( -1 );

        int  cur() const { return p < s.size() ? (uint8_t)s[ p ] : -1; }
        bool fail( Err e, size_t tok, size_t first )
        {
            R.err    = e;
            R.tok    = tok;
            R.first  = first;
            R.endsAt = first >= s.size();
            if ( lastTokEnd == first && first < s.size() )
            {
                char c = s[ first ];
                if ( ( c >= '0' && c <= '9' ) || c == '.' || c == '+' || c == '-' || ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || c == '_' )
                {
                    R.afterNum = true;
                    R.numTok   = lastTok;
                }
            }
            return false;
        }
        void ws()
        {
            while ( p < s.size() && ( s[ p ] == ' ' || s[ p ] == '\t' || s[ p ] == '\n' || s[ p ] == '\r' ) ) p++;
        }
        bool literal( const char* w, size_t n )
        {
            size_t st = p;
            for ( size_t i = 0; i < n; i++, p++ )
            {
                if ( cur() != w[ i ] ) return fail( eLiteral, st, p );
            }
            lastTok    = st;
            lastTokEnd = p;
            return true;
        }
        bool digit() const { return p < s.size() && s[ p ] >= '0' && s[ p ] <= '9'; }
        bool number( double& out )
        {
            size_t st = p;
            if ( cur() == '-' ) p++;
            if ( !digit() ) return fail( eNumber, st, p );
            if ( cur() == '0' )
            {
                p++;
                if ( digit() ) return fail( eLeadingZero, st, p );
            }
            else while ( digit() ) p++;
            if ( cur() == '.' )
            {
                p++;
                if ( !digit() ) return fail( eNumber, st, p );
                while ( digit() ) p++;
            }
            if ( cur() == 'e' || cur() == 'E' )
            {
                p++;
                if ( cur() == '+' || cur() == '-' ) p++;
                if ( !digit() ) return fail( eNumber, st, p );
                while ( digit() ) p++;
            }
            auto r = std::from_chars( s.data() + st, s.data() + p, out );
            if ( r.ec == std::errc::result_out_of_range )
            {
                // too large or too small: decide by magnitude (scientific exponent of the leading digit)
                out = outOfRange( st, p );
            }
            R.numbers++;
            lastTok    = st;
            lastTokEnd = p;
            return true;
        }
        // value known not to be representable in range: overflow -> infinity, underflow -> zero
        double outOfRange( size_t a, size_t b )
        {
            bool   neg = s[ a ] == '-';
            size_t i   = a + neg;
            // exponent of first non-zero digit
            long long lead = 0;
            bool      seenNz = false, dot = false;
            long long intDigits = 0, fracPos = 0;
            for ( ; i < b && s[ i ] != 'e' && s[ i ] != 'E'; i++ )
            {
                if ( s[ i ] == '.' ) { dot = true; continue; }
                if ( !dot ) { if ( seenNz ) intDigits++; }
                else fracPos++;
                if ( !seenNz && s[ i ] != '0' )
                {
                    seenNz = true;
                    if ( dot ) lead = -fracPos;
                }
            }
            if ( lead == 0 ) lead = intDigits;
            long long e = 0;
            if ( i < b )
            {
                i++;
                bool en = false;
                if ( s[ i ] == '+' || s[ i ] == '-' ) { en = s[ i ] == '-'; i++; }
                for ( ; i < b; i++ ) if ( e < 1000000000 ) e = e * 10 + ( s[ i ] - '0' );
                if ( en ) e = -e;
            }
            double r = ( lead + e > 0 ) ? HUGE_VAL : 0.0;
            return neg ? -r : r;
        }
        static void utf8( std::string& o, uint32_t c )
        {
            if ( c < 0x80 ) o += char( c );
            else if ( c < 0x800 ) { o += char( 0xC0 | c >> 6 ); o += char( 0x80 | ( c & 63 ) ); }
            else if ( c < 0x10000 ) { o += char( 0xE0 | c >> 12 ); o += char( 0x80 | ( c >> 6 & 63 ) ); o += char( 0x80 | ( c & 63 ) ); }
            else { o += char( 0xF0 | c >> 18 ); o += char( 0x80 | ( c >> 12 & 63 ) ); o += char( 0x80 | ( c >> 6 & 63 ) ); o += char( 0x80 | ( c & 63 ) ); }
        }
        // four hex digits at p; on failure returns false with p at the bad digit
        bool hex4( uint32_t& v )
        {
            v = 0;
            for ( int i = 0; i < 4; i++, p++ )
            {
                int c = cur(), d;
                if ( c >= '0' && c <= '9' ) d = c - '0';
                else if ( c >= 'a' && c <= 'f' ) d = c - 'a' + 10;
                else if ( c >= 'A' && c <= 'F' ) d = c - 'A' + 10;
                else return false;
                v = v * 16 + uint32_t( d );
            }
            return true;
        }
        bool string( std::string& out )
        {
            size_t st = p;
            p++;
            for ( ;; )
            {
                int c = cur();
                if ( c < 0 ) return fail( eStringEnd, st, p );
                if ( c == '"' ) { p++; R.strings++; return true; }
                if ( c < 0x20 ) return fail( c == 0 ? eStringEnd : eStringChar, st, p );
                if ( c == '\\' )
                {
                    R.escapes++;
                    p++;
                    int e = cur();
                    switch ( e )
                    {
                    case '"': case '\\': case '/': out += char( e ); p++; break;
                    case 'b': out += '\b'; p++; break;
                    case 'f': out += '\f'; p++; break;
                    case 'n': out += '\n'; p++; break;
                    case 'r': out += '\r'; p++; break;
                    case 't': out += '\t'; p++; break;
                    case 'u':
                    {
                        p++;
                        uint32_t v;
                        if ( !hex4( v ) ) return fail( eStringEscape, st, p );
                        if ( v == 0 ) R.nulEscape = true;
                        if ( v >= 0xD800 && v < 0xDC00 && p + 1 < s.size() && s[ p ] == '\\' && s[ p + 1 ] == 'u' )
                        {
                            size_t   save = p;
                            uint32_t w;
                            p += 2;
                            if ( hex4( w ) && w >= 0xDC00 && w < 0xE000 )
                            {
                                v = 0x10000 + ( ( v - 0xD800 ) << 10 ) + ( w - 0xDC00 );
                            }
                            else
                            {
                                p               = save;
                                R.loneSurrogate = true;
                            }
                        }
                        else if ( v >= 0xD800 && v < 0xE000 ) R.loneSurrogate = true;
                        utf8( out, v );
                        break;
                    }
                    default: return fail( eStringEscape, st, p );
                    }
                    continue;
                }
                if ( c < 0x80 ) { out += char( c ); p++; continue; }
                // UTF-8 sequence
                R.nonAscii++;
                int      n;
                uint32_t lo = 0x80, hi = 0xBF;
                if ( c >= 0xC2 && c <= 0xDF ) n = 1;
                else if ( c >= 0xE0 && c <= 0xEF ) { n = 2; if ( c == 0xE0 ) lo = 0xA0; if ( c == 0xED ) hi = 0xBF; }
                else if ( c >= 0xF0 && c <= 0xF4 ) { n = 3; if ( c == 0xF0 ) lo = 0x90; if ( c == 0xF4 ) hi = 0x8F; }
                else return fail( eStringChar, st, p );
                size_t q = p + 1;
                for ( int i = 0; i < n; i++, q++ )
                {
                    uint32_t x = q < s.size() ? (uint8_t)s[ q ] : 0;
                    if ( x < ( i == 0 ? lo : 0x80u ) || x > ( i == 0 ? hi : 0xBFu ) ) return fail( eStringChar, st, q );
                    if ( i == 0 && c == 0xED && x >= 0xA0 ) R.rawSurrogate = true;
                }
                out.append( s, p, q - p );
                p = q;
            }
        }
        bool value( Val& v, size_t depth )
        {
            R.values++;
            int c = cur();
            if ( c == '"' ) { v.kind = kString; return string( v.s ); }
            if ( c == '-' || ( c >= '0' && c <= '9' ) ) { v.kind = kNumber; return number( v.d ); }
            if ( c == 't' ) { v.kind = kBool; v.b = true; return literal( "true", 4 ); }
            if ( c == 'f' ) { v.kind = kBool; v.b = false; return literal( "false", 5 ); }
            if ( c == 'n' ) { v.kind = kNull; return literal( "null", 4 ); }
            if ( c == '[' )
            {
                v.kind = kArray;
                if ( depth + 1 > R.depth ) R.depth = depth + 1;
                p++;
                ws();
                if ( cur() == ']' ) { p++; return true; }
                for ( ;; )
                {
                    v.a.emplace_back();
                    if ( !value( v.a.back(), depth + 1 ) ) return false;
                    ws();
                    if ( cur() == ']' ) { p++; return true; }
                    if ( cur() != ',' ) return fail( eArraySep, p, p );
                    p++;
                    ws();
                    if ( cur() == ']' ) { R.afterComma = true; }
                }
            }
            if ( c == '{' )
            {
                v.kind = kObject;
                if ( depth + 1 > R.depth ) R.depth = depth + 1;
                p++;
                ws();
                if ( cur() == '}' ) { p++; return true; }
                std::set<std::string> names;
                for ( ;; )
                {
                    if ( cur() != '"' ) { return fail( eNameExpected, p, p ); }
                    std::string name;
                    if ( !string( name ) ) return false;
                    ws();
                    if ( cur() != ':' ) return fail( eColon, p, p );
                    p++;
                    ws();
                    Val m;
                    if ( !value( m, depth + 1 ) ) return false;
                    if ( names.insert( name ).second ) v.o.emplace_back( std::move( name ), std::move( m ) );
                    else { R.dups++; v.dup = true; }
                    ws();
                    if ( cur() == '}' ) { p++; return true; }
                    if ( cur() != ',' ) return fail( eObjectSep, p, p );
                    p++;
                    ws();
                    if ( cur() == '}' ) { R.afterComma = true; }
                }
            }
            return fail( eValueExpected, p, p );
        }
    };

    inline Result parse( const std::string& text )
    {
        Result r;
        Parser( text, r ).run();
        return r;
    }
}
