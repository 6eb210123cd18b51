// Structured generators for JSON texts.
#pragma once
#include "engine.h"
#include "ref.h"

namespace gen
{
    using pbt::Src;

    inline void utf8( std::string& o, uint32_t c )
    {
        if ( c < 0x80 ) o += char( c );
        else if ( c < 0x800 ) { o += char( 0xC0 | c >> 6 ); o += char( 0x80 | ( c & 63 ) ); }
        else if ( c < 0x10000 ) { o += char( 0xE0 | c >> 12 ); o += char( 0x80 | ( c >> 6 & 63 ) ); o += char( 0x80 | ( c & 63 ) ); }
        else { o += char( 0xF0 | c >> 18 ); o += char( 0x80 | ( c >> 12 & 63 ) ); o += char( 0x80 | ( c >> 6 & 63 ) ); o += char( 0x80 | ( c & 63 ) ); }
    }

    // a Unicode scalar value other than 0
    inline uint32_t codePoint( Src& s )
    {
        static const uint32_t edge[] = { 'a', ' ', '"', '\\', '/', 1, 8, 9, 10, 12, 13, 0x1F, 0x20, 0x7E, 0x7F, 0x80, 0xA0, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028,
                                         0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF };
        uint32_t c;
        switch ( s.pick( { 8, 4, 1, 1, 1, 1 } ) )
        {
        case 0: c = 'a' + s.below( 26 ); break;
        case 1: c = s.oneOf( edge ); break;
        case 2: c = s.below( 0x80 ); break;
        case 3: c = 0x80 + s.below( 0x780 ); break;
        case 4: c = 0x800 + s.below( 0xF800 ); break;
        default: c = 0x10000 + s.below( 0x100000 ); break;
        }
        if ( c == 0 || ( c >= 0xD800 && c < 0xE000 ) ) c = 'x';
        return c;
    }

    // string length aimed at storage boundaries
    inline uint32_t strLen( Src& s, uint32_t max )
    {
        static const uint32_t edge[] = { 0, 1, 2, 7, 8, 9, 14, 15, 16, 17, 23, 30, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025 };
        uint32_t n;
        switch ( s.pick( { 10, 3, 1 } ) )
        {
        case 0: n = s.below( 9 ); break;
        case 1: n = s.oneOf( edge ); break;
        default:
        {
            int64_t v = s.dictInt();
            n         = v < 0 ? 0 : uint32_t( v > 3000 ? v % 3000 : v );
        }
        }
        return n > max ? max : n;
    }

    // decoded string content (valid UTF-8, no NUL)
    inline std::string text( Src& s, uint32_t max = 1100 )
    {
        if ( s.chance( 1, 10 ) )
        {
            // literals of the sources, as far as they are valid UTF-8 without NUL
            std::string d = s.dictStr(), o;
            for ( char c : d ) o += ( (unsigned char)c == 0 || (unsigned char)c >= 0x80 ) ? 'q' : c;
            return o;
        }
        uint32_t    n = strLen( s, max );
        std::string o;
        if ( n > 40 )
        {
            // long strings: a few code points repeated, plus some random ones at the end
            std::string unit;
            uint32_t    k = 1 + s.below( 5 );
            for ( uint32_t i = 0; i < k; i++ ) utf8( unit, codePoint( s ) );
            while ( o.size() + unit.size() <= n ) o += unit;
            while ( o.size() < n ) o += 'z';
            return o;
        }
        while ( o.size() < n ) utf8( o, codePoint( s ) );
        return o;
    }

    // names from a small pool (so that objects collide, share prefixes and get deep trees) or arbitrary
    inline std::string name( Src& s )
    {
        static const char* const pool[] = { "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "aa", "ab", "abc", "abcd", "", "A", "B", "name", "value", "0", "1", "10", "2",
                                            "exactly_15_byte", "exactly_16_bytes", "exactly_17_bytes_", "a_name_that_is_longer_than_any_inline_buffer_0123456789", "a_name_that_is_longer_than_any_inline_buffer_012345678A" };
        switch ( s.pick( { 12, 2, 3 } ) )
        {
        case 0: return s.oneOf( pool );
        case 1: return text( s, 300 );
        default:
        {
            std::string o = "k";
            o += std::to_string( s.below( 200 ) );
            return o;
        }
        }
    }

    // one way of writing the string as a literal
    inline void literal( Src& s, const std::string& v, std::string& out, bool plain = false )
    {
        out += '"';
        int mode = plain ? 0 : int( s.below( 4 ) ); // 0: minimal, 1: random mix, 2: all \u, 3: minimal
        for ( size_t i = 0; i < v.size(); )
        {
            uint8_t  c = uint8_t( v[ i ] );
            uint32_t cp = c;
            size_t   n  = 1;
            if ( c >= 0xF0 ) { n = 4; cp = c & 7; }
            else if ( c >= 0xE0 ) { n = 3; cp = c & 15; }
            else if ( c >= 0xC0 ) { n = 2; cp = c & 31; }
            for ( size_t k = 1; k < n; k++ ) cp = cp << 6 | ( uint8_t( v[ i + k ] ) & 63 );
            bool must = cp < 0x20 || cp == '"' || cp == '\\';
            int  how  = 0; // raw
            if ( must ) how = 1;
            if ( mode == 2 && v.size() < 600 ) how = 2;
            if ( mode == 1 && v.size() < 600 ) how = int( s.below( 3 ) );
            if ( how == 0 && must ) how = 1;
            if ( how == 1 )
            {
                const char* e = nullptr;
                switch ( cp )
                {
                case '"': e = "\\\""; break;
                case '\\': e = "\\\\"; break;
                case '/': e = "\\/"; break;
                case 8: e = "\\b"; break;
                case 12: e = "\\f"; break;
                case 10: e = "\\n"; break;
                case 13: e = "\\r"; break;
                case 9: e = "\\t"; break;
                }
                if ( e ) out += e;
                else if ( must ) how = 2;
                else how = 0;
            }
            if ( how == 2 )
            {
                char b[ 16 ];
                const char* f = ( mode && s.chance( 1, 2 ) ) ? "\\u%04X" : "\\u%04x";
                if ( cp >= 0x10000 )
                {
                    uint32_t x = cp - 0x10000;
                    snprintf( b, sizeof b, f, 0xD800 + ( x >> 10 ) );
                    out += b;
                    snprintf( b, sizeof b, f, 0xDC00 + ( x & 0x3FF ) );
                    out += b;
                }
                else
                {
                    snprintf( b, sizeof b, f, cp );
                    out += b;
                }
            }
            if ( how == 0 ) out.append( v, i, n );
            i += n;
        }
        out += '"';
    }

    inline void digits( Src& s, std::string& o, uint32_t n )
    {
        int mode = int( s.below( 4 ) );
        char rep = char( '0' + s.below( 10 ) );
        for ( uint32_t i = 0; i < n; i++ ) o += mode == 1 ? rep : char( '0' + s.below( 10 ) );
    }

    inline double anyDouble( Src& s )
    {
        static const double edge[] = { 0, -0.0, 1, -1, 0.1, 1.0 / 3, 123456789012345680.0, 1e15, 1e16, 1e17, 999999999999999.9, 4503599627370496.5, 9007199254740993.0, 1e21, 1e22, 1e23, 5e-324, 2.2250738585072014e-308,
                                       2.2250738585072009e-308, 1.7976931348623157e308, 1e-5, 1e-4, 0.0001, 123456.789, 4294967295.0, 4294967296.0, 2147483647.0, -2147483648.0, 9223372036854775807.0, 18446744073709551615.0, 1e100, -1e-100 };
        switch ( s.pick( { 4, 3, 3, 2, 2 } ) )
        {
        case 0: return double( int32_t( s.below( 2001 ) ) - 1000 );
        case 1: return s.oneOf( edge );
        case 2:
        {
            uint64_t u = s.u64();
            double   d;
            memcpy( &d, &u, 8 );
            if ( !std::isfinite( d ) ) d = 1.5;
            return d;
        }
        case 3: return double( s.dictInt() );
        default: return double( int32_t( s.u32() ) ) / double( 1 + s.below( 1000 ) );
        }
    }

    inline void numberText( Src& s, std::string& o )
    {
        if ( s.chance( 1, 3 ) )
        {
            char b[ 400 ];
            double d = anyDouble( s );
            static const char* const f[] = { "%.17g", "%.15g", "%.16g", "%.6g", "%.17e", "%.0f", "%.3f", "%.20g", "%.30f", "%.25E" };
            snprintf( b, sizeof b, s.oneOf( f ), d );
            o += b;
            return;
        }
        if ( s.chance( 1, 2 ) ) o += '-';
        switch ( s.pick( { 2, 5, 2, 1 } ) )
        {
        case 0: o += '0'; break;
        case 1: o += char( '1' + s.below( 9 ) ); digits( s, o, s.below( 6 ) ); break;
        case 2: o += char( '1' + s.below( 9 ) ); digits( s, o, s.below( 25 ) ); break;
        default: o += char( '1' + s.below( 9 ) ); digits( s, o, s.below( 400 ) ); break;
        }
        if ( s.chance( 2, 5 ) )
        {
            o += '.';
            if ( s.chance( 1, 6 ) ) o += std::string( s.below( 330 ), '0' );
            digits( s, o, 1 + s.below( s.chance( 1, 10 ) ? 400 : 18 ) );
        }
        if ( s.chance( 2, 5 ) )
        {
            o += s.chance( 1, 2 ) ? 'E' : 'e';
            uint32_t sg = s.below( 3 );
            if ( sg == 1 ) o += '+';
            if ( sg == 2 ) o += '-';
            if ( s.chance( 1, 8 ) ) o += std::string( 1 + s.below( 5 ), '0' );
            switch ( s.pick( { 5, 4, 1, 1 } ) )
            {
            case 0: o += std::to_string( s.below( 23 ) ); break;
            case 1: o += std::to_string( s.below( 345 ) ); break;
            case 2: o += std::to_string( s.below( 70000 ) ); break;
            default: o += std::to_string( s.u32() ); o += std::to_string( s.below( 100000 ) ); break;
            }
        }
    }

    struct Opt
    {
        uint32_t budget   = 40;   // number of values
        uint32_t maxDepth = 12;
        bool     plain    = false; // simple strings and numbers only
        bool     noDup    = false;
    };

    inline void ws( Src& s, std::string& o )
    {
        static const char* const w[] = { "", "", "", " ", "  ", "\n", "\t", "\r\n", " \n  ", "\r", "\n\n\n", "    \t" };
        if ( s.chance( 1, 3 ) ) o += s.oneOf( w );
    }

    inline void value( Src& s, std::string& o, Opt& opt, uint32_t depth )
    {
        if ( opt.budget ) opt.budget--;
        uint32_t k;
        if ( depth == 0 ) k = s.pick( { 1, 1, 1, 1, 5, 7 } );
        else if ( depth >= opt.maxDepth || opt.budget == 0 ) k = s.below( 4 );
        else k = s.pick( { 2, 3, 5, 5, 3, 4 } );
        switch ( k )
        {
        case 0: o += "null"; break;
        case 1: o += s.chance( 1, 2 ) ? "true" : "false"; break;
        case 2:
            if ( opt.plain ) o += std::to_string( int( s.below( 100 ) ) );
            else numberText( s, o );
            break;
        case 3:
            if ( opt.plain ) literal( s, name( s ), o, true );
            else literal( s, text( s ), o );
            break;
        case 4:
        {
            o += '[';
            ws( s, o );
            uint32_t n = s.len( 120 );
            if ( n > opt.budget ) n = opt.budget;
            for ( uint32_t i = 0; i < n; i++ )
            {
                if ( i ) o += ',';
                ws( s, o );
                value( s, o, opt, depth + 1 );
                ws( s, o );
            }
            o += ']';
            break;
        }
        default:
        {
            o += '{';
            ws( s, o );
            uint32_t n = s.len( 120 );
            if ( n > opt.budget ) n = opt.budget;
            std::set<std::string> used;
            bool                  first = true;
            for ( uint32_t i = 0; i < n; i++ )
            {
                std::string nm = name( s );
                if ( opt.noDup && !used.insert( nm ).second ) { nm += "#"; nm += std::to_string( i ); used.insert( nm ); }
                if ( !first ) o += ',';
                first = false;
                ws( s, o );
                literal( s, nm, o, opt.plain );
                ws( s, o );
                o += ':';
                ws( s, o );
                value( s, o, opt, depth + 1 );
                ws( s, o );
            }
            o += '}';
            break;
        }
        }
    }

    inline std::string document( Src& s, Opt opt = Opt() )
    {
        std::string o;
        static const uint32_t budgets[] = { 1, 3, 6, 12, 25, 60, 150, 400 };
        opt.budget = budgets[ s.pick( { 3, 4, 5, 5, 4, 3, 1, 1 } ) ];
        ws( s, o );
        value( s, o, opt, 0 );
        ws( s, o );
        return o;
    }

    inline std::string deep( Src& s )
    {
        static const uint32_t ds[] = { 10, 50, 100, 200, 255, 256, 257, 500, 511, 512, 513, 900, 999, 1000 };
        uint32_t    n = s.chance( 1, 2 ) ? s.oneOf( ds ) : 1 + s.below( 1000 );
        std::string o, tail;
        int         mode = int( s.below( 3 ) );
        for ( uint32_t i = 0; i < n; i++ )
        {
            bool arr = mode == 0 || ( mode == 2 && s.chance( 1, 2 ) );
            if ( arr ) { o += s.chance( 1, 50 ) ? "[1," : "["; tail += ']'; }
            else { o += s.chance( 1, 50 ) ? "{\"b\":2,\"a\":" : "{\"a\":"; tail += '}'; }
        }
        bool needValue = o.size() && ( o.back() == ':' || o.back() == ',' );
        if ( needValue || s.chance( 1, 2 ) ) o += "1";
        for ( size_t i = tail.size(); i-- > 0; ) o += tail[ i ];
        return o;
    }

    // byte and token level damage
    inline void mutate( Src& s, std::string& t )
    {
        static const char* const toks[] = { "{", "}", "[", "]", ",", ":", "\"", "\\", "true", "false", "null", "0", "-", "+", ".", "e", "E", "1", "-0", "01", "00", "1.", ".5", "1e", "1e+", "+1", "--1", "0x1", "1_0", "NaN", "Infinity", "-Infinity", "nan", "inf", "\\u", "\\u12", "\\u00e9", "\\x", "\\'", "'",
                                            "//", "/*", "*/", "#", "\n", "\r", "\t", "\f", "\v", " ", "\xEF\xBB\xBF", "\xC0\x80", "\xC3", "\xE2\x82", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xF5", "\xFF", "\x7F", "\x1F", "\x01", "\x80", "\xC1\xBF", "\xE0\x9F\xBF", "\xF0\x8F\xBF\xBF", "tru", "True", "nul", "fals", "undefined", "\\uD800", "\\uDC00", "\\uD83D\\uDE00", "\\ud83d\\u0041", ",,", "::", "{}", "[]", "\"\"", "0.", "1.e5", "0e5", "0E-1", "-", "- 1", "1 2", "\"a\":", "\\u0000" };
        uint32_t n = 1 + s.pick( { 6, 2, 1 } );
        for ( uint32_t i = 0; i < n; i++ )
        {
            uint32_t at = s.below( uint32_t( t.size() + 1 ) );
            switch ( s.pick( { 4, 4, 3, 3, 2, 2, 1, 1 } ) )
            {
            case 0: if ( at < t.size() ) t.erase( at, 1 + s.below( 3 ) ); break;
            case 1: t.insert( at, s.oneOf( toks ) ); break;
            case 2: if ( at < t.size() ) t[ at ] = char( s.u8() ); break;
            case 3: t.resize( at ); break;
            case 4: if ( at < t.size() ) { std::string w = s.oneOf( toks ); t.replace( at, 1, w ); } break;
            case 5:
            {
                uint32_t b = s.below( uint32_t( t.size() + 1 ) );
                if ( b < at ) std::swap( at, b );
                std::string w = t.substr( at, b - at );
                if ( w.size() < 200 ) t.insert( s.below( uint32_t( t.size() + 1 ) ), w );
                break;
            }
            case 6: t.insert( at, 1, '\0' ); break;
            default: if ( at + 1 < t.size() ) std::swap( t[ at ], t[ at + 1 ] ); break;
            }
        }
    }

    // sequence of random JSON-ish tokens
    inline std::string tokens( Src& s )
    {
        static const char* const toks[] = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "-1", "0", "true", "false", "null", " ", "\n", "\"", "\\", "1.5", "1e5", "0e1", "00", "-", "+", "." };
        std::string o;
        uint32_t    n = 1 + s.len( 40 );
        for ( uint32_t i = 0; i < n; i++ ) o += s.oneOf( toks );
        return o;
    }

    // ---- damage to the structure: tokens of a small document lost, doubled, added, exchanged, with whitespace of every sort between them
    inline void tokenList( Src& s, std::vector<std::string>& o, uint32_t depth, uint32_t& budget )
    {
        static const char* const scalars[] = { "1", "-0.5e+3", "true", "false", "null", "\"\"", "\"s\"", "0", "\"\\n\"" };
        if ( budget ) budget--;
        uint32_t k = depth > 3 || !budget ? 0 : depth == 0 ? 1 + s.below( 2 ) : s.pick( { 3, 1, 1 } );
        if ( k == 0 ) { o.push_back( s.oneOf( scalars ) ); return; }
        uint32_t n = s.pick( { 2, 4, 3, 1 } );
        o.push_back( k == 1 ? "[" : "{" );
        for ( uint32_t i = 0; i < n; i++ )
        {
            if ( i ) o.push_back( "," );
            if ( k == 2 ) { o.push_back( s.chance( 1, 3 ) ? "\"\"" : "\"k" + std::to_string( i ) + "\"" ); o.push_back( ":" ); }
            tokenList( s, o, depth + 1, budget );
        }
        o.push_back( k == 1 ? "]" : "}" );
    }
    inline std::string gap( Src& s )
    {
        static const char w[] = { ' ', '\n', '\r', '\t', '\f', '\v' };
        std::string o;
        uint32_t    n = s.pick( { 5, 4, 1 } );
        for ( uint32_t i = 0; i < n; i++ ) o += w[ s.pick( { 60, 60, 60, 60, 1, 1 } ) ];
        return o;
    }
    inline std::string joined( Src& s, const std::vector<std::string>& v )
    {
        std::string o = gap( s );
        for ( auto& x : v ) { o += x; o += gap( s ); }
        return o;
    }
    static const char* const kStructure[] = { ",", ":", "]", "}", "[", "{", "1", "\"a\"", "true" };
    inline std::string structural( Src& s )
    {
        std::vector<std::string> v;
        uint32_t                 budget = 2 + s.below( 12 );
        tokenList( s, v, 0, budget );
        uint32_t n = s.pick( { 1, 6, 2 } );
        for ( uint32_t i = 0; i < n; i++ )
        {
            size_t at = s.below( uint32_t( v.size() + 1 ) ), to = s.below( uint32_t( v.size() + 1 ) );
            bool   in = at < v.size();
            switch ( s.pick( { 5, 3, 3, 1, 1 } ) )
            {
            case 0: v.insert( v.begin() + long( at ), s.oneOf( kStructure ) ); break;
            case 1: if ( in ) v.erase( v.begin() + long( at ) ); break;
            case 2: if ( in ) v[ at ] = s.oneOf( kStructure ); break;
            case 3: if ( in && to < v.size() ) std::swap( v[ at ], v[ to ] ); break;
            default: v.resize( at ); break;
            }
        }
        return joined( s, v );
    }

    // number-like strings: all short strings over the number alphabet
    inline std::string numberish( Src& s )
    {
        static const char al[] = { '0', '1', '9', '.', 'e', 'E', '+', '-', '5', ' ', '_', 'x', 'f', 'a', ',' };
        std::string o;
        uint32_t    n = 1 + s.below( 9 );
        for ( uint32_t i = 0; i < n; i++ ) o += al[ s.pick( { 6, 6, 2, 6, 4, 2, 4, 4, 2, 1, 1, 1, 1, 1, 1 } ) ];
        switch ( s.below( 4 ) )
        {
        case 0: return o;
        case 1: return "[" + o + "]";
        case 2: return "{\"a\":" + o + "}";
        default: return " " + o + "\n";
        }
    }

    // sizes around literals of the sources and powers of two, far beyond what other texts have
    inline uint32_t largeSize( Src& s, uint32_t max )
    {
        int64_t v;
        switch ( s.below( 3 ) )
        {
        case 0: v = ( int64_t( 1 ) << ( 8 + s.below( 10 ) ) ) + int64_t( s.below( 5 ) ) - 2; break;
        case 1: v = s.dictInt() + int64_t( s.below( 5 ) ) - 2; break;
        default: v = s.below( max ); break;
        }
        if ( v < 0 ) v = -v;
        return uint32_t( v > int64_t( max ) ? v % max : v );
    }

    // a valid text with one very long part
    inline std::string large( Src& s, uint32_t max = 140000 )
    {
        std::string o;
        bool        wrap = s.chance( 1, 2 );
        if ( wrap ) o += s.chance( 1, 2 ) ? "{\"k\":" : "[true,";
        char     close = !wrap ? 0 : o[ 0 ] == '{' ? '}' : ']';
        uint32_t n     = largeSize( s, max );
        switch ( s.below( 10 ) )
        {
        case 0: case 1: // string, name
        {
            bool        nm = s.chance( 1, 3 );
            std::string unit;
            literal( s, text( s, 12 ) + "q", unit );
            unit = unit.substr( 1, unit.size() - 2 );
            if ( nm ) o += "{";
            o += '"';
            size_t base = o.size();
            while ( o.size() - base + unit.size() <= n ) o += unit;
            while ( o.size() - base < n ) o += 'w';
            o += nm ? "\":2}" : "\"";
            break;
        }
        case 2: case 8: case 9: // array
        {
            static const char* const e[] = { "1", "2", "true", "[]", "\"s\"", "{}", "null", "-2.5e3" };
            const char* x = s.oneOf( e ), *y = s.oneOf( e );
            o += '[';
            for ( uint32_t i = 0; i < n; i++ )
            {
                if ( i ) o += ',';
                o += i % 7 == 3 ? y : x;
                if ( o.size() > max * 2 ) break;
            }
            o += ']';
            break;
        }
        case 3: // members, in several orders, some of them repeated
        {
            if ( !s.chance( 1, 8 ) ) n %= 4000;
            n %= 70000;
            uint32_t step = s.oneOf( { 1u, 7u, 4093u, 1u << 31, 0xFFFFFFFFu } ), x = s.u16();
            o += '{';
            for ( uint32_t i = 0; i < n; i++, x += step )
            {
                if ( i ) o += ',';
                o += "\"";
                o += std::to_string( x );
                o += "\":";
                o += std::to_string( i );
            }
            o += '}';
            break;
        }
        case 4: // digits
        {
            std::string d( n % 20000 + 1, char( '1' + s.below( 9 ) ) );
            switch ( s.below( 3 ) )
            {
            case 0: o += d; break;
            case 1: o += "0." + d; break;
            default: o += d + "." + d + "e-" + std::to_string( d.size() ); break;
            }
            break;
        }
        case 5: // space
            o += std::string( n, s.oneOf( { ' ', '\n', '\t', '\r' } ) );
            o += "[]";
            o += std::string( n % 999, '\n' );
            break;
        case 6: // exponent with zeros
            o += "1.5e" + std::string( s.chance( 1, 2 ) ? "-" : "" ) + std::string( n % 20000, '0' ) + std::to_string( s.below( 320 ) );
            break;
        default: // leading zeros behind the point
            o += "0." + std::string( n % 20000, '0' ) + std::to_string( 1 + s.below( 99999 ) ) + "e" + std::to_string( n % 20000 );
            break;
        }
        if ( close ) o += close;
        return o;
    }

    enum TextClass { tcValid, tcMutated, tcTokens, tcNumberish, tcDeep, tcRaw, tcStringish, tcLarge, tcStructural };

    inline std::string stringish( Src& s )
    {
        // a string literal around arbitrary bytes
        std::string o = "\"";
        uint32_t    n = s.below( 12 );
        for ( uint32_t i = 0; i < n; i++ )
        {
            switch ( s.pick( { 3, 3, 3, 2, 2, 3 } ) )
            {
            case 0: o += char( 'a' + s.below( 26 ) ); break;
            case 1: o += char( s.u8() ); break;
            case 2: { o += '\\'; static const char e[] = { 'n', 't', '"', '\\', '/', 'b', 'f', 'r', 'u', 'x', 'a', '0', 'U', 'v', '\'', '\n' }; o += s.oneOf( e ); break; }
            case 3: { o += "\\u"; uint32_t k = 3 + s.below( 3 ); for ( uint32_t q = 0; q < k; q++ ) o += "0123456789abcdefABCDEFgG/:@`"[ s.below( 28 ) ]; break; }
            case 4: { char b[ 8 ]; snprintf( b, sizeof b, "\\u%04x", 0xD780 + s.below( 0x900 ) ); o += b; break; }
            default: utf8( o, codePoint( s ) ); break;
            }
        }
        if ( !s.chance( 1, 8 ) ) o += '"';
        switch ( s.below( 3 ) )
        {
        case 0: return o;
        case 1: return "[" + o + "]";
        default: return "{" + o + ":1}";
        }
    }

    // Bounded enumeration: calls f( text ) for every text of a family drawn at random - every byte value at one place, every
    // code unit of a row, every size up to a bound.  Returns the number of texts.
    template <class F>
    uint32_t sweep( Src& s, F&& f )
    {
        uint32_t    count = 0;
        auto        go    = [ & ]( const std::string& t ) { count++; f( t ); };
        auto        shell = [ & ]( uint32_t how, const std::string& x )
        {
            switch ( how )
            {
            case 0: return x;
            case 1: return "[" + x + "]";
            case 2: return "{\"a\":" + x + "}";
            default: return "[0,\n" + x + " ]";
            }
        };
        auto base = [ & ]()
        {
            std::string o;
            switch ( s.below( 4 ) )
            {
            case 0:
            {
                Opt opt;
                opt.budget = 1 + s.below( 6 );
                value( s, o, opt, 0 );
                if ( o.size() > 120 ) o = "{\"a\" : [1, \"b\"],\n\"c\":null}";
                return o;
            }
            case 1: return stringish( s );
            case 2: numberText( s, o ); return o.size() > 60 ? std::string( "-12.50e+3" ) : o;
            default:
            {
                static const char* const w[] = { "true", "[false]", "{\"k\" : null}", "\"\\u00e9\\ud83d\\uDE00\\n\"", "[ -0.5E-7 , 10 ]", "{\"\":{\"\":[]}}", "[[1],[2]]", "{\"a\":1,\"b\":2}\n" };
                return std::string( s.oneOf( w ) );
            }
            }
        };
        switch ( s.pick( { 5, 3, 4, 4, 2, 2, 2, 1, 2, 4 } ) )
        {
        case 9: // every token at every place, every token lost
        {
            std::vector<std::string> v;
            uint32_t                 budget = 1 + s.below( 6 );
            tokenList( s, v, 0, budget );
            std::string w = gap( s ), z = s.chance( 1, 2 ) ? w : gap( s );
            std::string lead = s.chance( 1, 2 ) ? "" : w;
            auto        put  = [ & ]( size_t at, const char* ins, bool skip )
            {
                std::string o = lead;
                for ( size_t i = 0; i <= v.size(); i++ )
                {
                    if ( i == at && ins ) { o += ins; o += z; }
                    if ( i < v.size() && !( skip && i == at ) ) { o += v[ i ]; o += w; }
                }
                go( o );
            };
            for ( size_t i = 0; i <= v.size(); i++ )
            {
                for ( auto* x : kStructure ) { put( i, x, false ); put( i, x, true ); }
                put( i, nullptr, true );
            }
            break;
        }
        case 0:
        {
            std::string t  = base();
            uint32_t    at = s.below( uint32_t( t.size() ) );
            for ( int b = 0; b < 256; b++ ) { t[ at ] = char( b ); go( t ); }
            break;
        }
        case 1:
        {
            std::string t  = base();
            uint32_t    at = s.below( uint32_t( t.size() + 1 ) );
            t.insert( at, 1, ' ' );
            for ( int b = 0; b < 256; b++ ) { t[ at ] = char( b ); go( t ); }
            break;
        }
        case 2: // a row of code units, or a byte in a hexadecimal digit
        {
            std::string pre = "\"", post = s.chance( 1, 2 ) ? "z\"" : "\"";
            if ( s.chance( 1, 4 ) ) pre += "ab";
            uint32_t hi = s.chance( 1, 3 ) ? 0xD7 + s.below( 10 ) : s.below( 256 );
            if ( s.chance( 1, 3 ) ) { char b[ 8 ]; snprintf( b, sizeof b, "\\u%04x", 0xD800 + s.below( 0x400 ) ); pre += b; hi = 0xD7 + s.below( 10 ); }
            if ( s.chance( 1, 4 ) ) { char b[ 8 ]; snprintf( b, sizeof b, "\\u%04X", 0xDC00 + s.below( 0x400 ) ); post = b + post; }
            uint32_t how = s.below( 4 );
            if ( s.chance( 1, 2 ) )
            {
                bool up = s.chance( 1, 2 );
                for ( uint32_t lo = 0; lo < 256; lo++ )
                {
                    char b[ 8 ];
                    snprintf( b, sizeof b, up ? "\\u%04X" : "\\u%04x", hi << 8 | lo );
                    go( shell( how, pre + b + post ) );
                }
            }
            else
            {
                char b[ 8 ];
                snprintf( b, sizeof b, "\\u%04x", hi << 8 | s.below( 256 ) );
                uint32_t at = 1 + s.below( 5 );
                for ( int v = 0; v < 256; v++ )
                {
                    std::string e( b, 6 );
                    e[ at ] = char( v );
                    go( shell( how, pre + e + post ) );
                }
            }
            break;
        }
        case 3: // UTF-8 sequences
        {
            static const uint8_t tail[] = { 0x80, 0xBF, 0x8F, 0x90, 0x9F, 0xA0, 0x7F, 0xC0, 0x00, 0x22, 0xBE, 0x88 };
            static const uint8_t lead[] = { 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xC1, 0xC0, 0xF8, 0x80 };
            uint32_t n = 1 + s.below( 4 ), at = s.below( n ), how = s.below( 4 );
            std::string q;
            q += char( s.oneOf( lead ) );
            for ( uint32_t i = 1; i < n; i++ ) q += char( s.chance( 3, 4 ) ? tail[ s.below( 2 ) ] : s.oneOf( tail ) );
            std::string pre = s.chance( 1, 3 ) ? "\"ab" : "\"", post = s.chance( 1, 3 ) ? "\xC3\xA9z\"" : "\"";
            bool        open = s.chance( 1, 6 );
            for ( int v = 0; v < 256; v++ )
            {
                q[ at ] = char( v );
                go( open ? pre + q : shell( how, pre + q + post ) );
            }
            break;
        }
        case 4: // exponents
        {
            std::string m = s.chance( 1, 3 ) ? "-" : "";
            m += char( '1' + s.below( 9 ) );
            if ( s.chance( 1, 2 ) ) digits( s, m, s.below( 20 ) );
            if ( s.chance( 1, 2 ) ) { m += "."; digits( s, m, 1 + s.below( 20 ) ); }
            uint32_t how = s.below( 4 );
            for ( int e = -345; e <= 345; e++ ) go( shell( how, m + "e" + std::to_string( e ) ) );
            break;
        }
        case 5: // every length of a string or a name
        {
            std::string u;
            utf8( u, codePoint( s ) );
            if ( (unsigned char)u[ 0 ] < 0x20 || u[ 0 ] == '"' || u[ 0 ] == '\\' ) u = "x";
            bool        nm = s.chance( 1, 2 );
            std::string v;
            for ( uint32_t n = 0; n <= 280; n++ )
            {
                std::string x = std::string( n % u.size(), 'y' );
                while ( x.size() < n ) x += u;
                go( nm ? "{\"" + x + "\":[\"" + x + "\"]}" : "[\"" + x + "\"]" );
            }
            break;
        }
        case 6: // every size of an array or an object
        {
            static const char* const e[] = { "1", "true", "[]", "\"s\"", "{}", "null", "{\"a\":[0]}" };
            const char*              x   = s.oneOf( e );
            bool                     obj = s.chance( 1, 2 );
            uint32_t                 step = s.oneOf( { 1u, 7u, 89u, 0xFFFFFFFFu } ), key = 500 + s.below( 500 );
            std::string              body;
            for ( uint32_t n = 0; n <= 90; n++, key += step )
            {
                go( ( obj ? "{" : "[" ) + body + ( obj ? "}" : "]" ) );
                if ( n ) body += ',';
                if ( obj ) body += "\"" + std::to_string( key ) + "\":";
                body += x;
            }
            break;
        }
        case 7: // every depth
        {
            int mode = int( s.below( 3 ) );
            std::string o, t;
            for ( uint32_t n = 1; n <= 70; n++ )
            {
                bool arr = mode == 0 || ( mode == 2 && n % 3 );
                o += arr ? "[" : "{\"a\":";
                t += arr ? ']' : '}';
                go( o + "1" + std::string( t.rbegin(), t.rend() ) );
            }
            break;
        }
        default: // every prefix, every lost byte, every doubled byte, every swap
        {
            std::string t = base();
            for ( size_t i = 0; i < t.size(); i++ ) go( t.substr( 0, i ) );
            for ( size_t i = 0; i < t.size(); i++ ) go( t.substr( 0, i ) + t.substr( i + 1 ) );
            for ( size_t i = 0; i < t.size(); i++ ) go( t.substr( 0, i ) + t[ i ] + t.substr( i ) );
            for ( size_t i = 0; i + 1 < t.size(); i++ ) { std::string x = t; std::swap( x[ i ], x[ i + 1 ] ); go( x ); }
            break;
        }
        }
        return count;
    }

    // any text; cls tells how it was made
    inline std::string anyText( Src& s, TextClass& cls, bool withLarge = false )
    {
        if ( withLarge && s.chance( 1, 150 ) )
        {
            cls = tcLarge;
            std::string t = large( s );
            if ( s.chance( 1, 4 ) ) mutate( s, t );
            return t;
        }
        switch ( s.pick( { 4, 10, 10, 3, 3, 3, 1, 4 } ) )
        {
        case 7: cls = tcStructural; return structural( s );
        case 0: cls = tcRaw; return s.rest( 64 );
        case 1: cls = tcValid; return document( s );
        case 2: { cls = tcMutated; std::string t = document( s ); mutate( s, t ); return t; }
        case 3: cls = tcTokens; return tokens( s );
        case 4: cls = tcNumberish; return numberish( s );
        case 5: cls = tcStringish; return stringish( s );
        default:
        {
            cls = tcDeep;
            std::string t = deep( s );
            if ( s.chance( 1, 3 ) ) mutate( s, t );
            return t;
        }
        }
    }
    inline const char* className( TextClass c )
    {
        static const char* const n[] = { "valid", "mutated", "tokens", "numberish", "deep", "raw", "stringish", "large", "structural" };
        return n[ c ];
    }
}
