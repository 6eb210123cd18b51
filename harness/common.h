// Bridge between the library under test (public API only) and the reference model.
#pragma once
#include "engine.h"
#include "ref.h"
#include "gen.h"
#include "C4Json.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>

namespace J = C4::Json;
using pbt::Ctx;
using pbt::Src;
using pbt::fmt;
using pbt::quote;

// text as a buffer with exact heap capacity, so that the sanitizer sees every overread
struct Buf
{
    Terathon::Array<char> a;
    explicit Buf( const std::string& t, bool terminate = true ) : a( int( t.size() + ( terminate ? 1 : 0 ) ) )
    {
        int n = int( t.size() + ( terminate ? 1 : 0 ) );
        a.SetArrayElementCount( n );
        for ( size_t i = 0; i < t.size(); i++ ) a[ int( i ) ] = t[ i ];
        if ( terminate ) a[ n - 1 ] = 0;
    }
};

inline J::ParseResult parseText( J::StructuredData& sd, const std::string& t )
{
    Buf b( t );
    return sd.Parse( b.a );
}

template <int N>
std::string str( const Terathon::String<N>& s, Ctx& c )
{
    const char* p = static_cast<const char*>( s );
    size_t      n = strlen( p );
    if ( s.GetStringLength() != int( n ) ) c.fail( fmt( "string reports length %d but its text has %zu bytes", int( s.GetStringLength() ), n ) );
    return std::string( p, n );
}

inline ref::Val toRef( const J::Value* v, Ctx& c )
{
    using namespace Terathon;
    ref::Val r;
    if ( !v ) c.fail( "null value pointer in tree" );
    const String<>*        s = v->GetDataAsPointerTo<String<>>();
    const double*          d = v->GetDataAsPointerTo<double>();
    const bool*            b = v->GetDataAsPointerTo<bool>();
    const J::Null*         n = v->GetDataAsPointerTo<J::Null>();
    const Array<J::Value*>* a = v->GetDataAsPointerTo<Array<J::Value*>>();
    const J::ObjectValue*  o = v->AsJsonObjectValue();
    int                    k = ( s != nullptr ) + ( d != nullptr ) + ( b != nullptr ) + ( n != nullptr ) + ( a != nullptr ) + ( o != nullptr );
    if ( k != 1 ) c.fail( fmt( "value claims %d kinds", k ) );
    if ( s ) { r.kind = ref::kString; r.s = str( *s, c ); }
    if ( d ) { r.kind = ref::kNumber; r.d = *d; }
    if ( b ) { r.kind = ref::kBool; r.b = *b; }
    if ( n ) r.kind = ref::kNull;
    if ( a )
    {
        r.kind = ref::kArray;
        r.a.reserve( size_t( a->GetArrayElementCount() ) );
        for ( int i = 0; i < a->GetArrayElementCount(); i++ ) r.a.push_back( toRef( ( *a )[ i ], c ) );
    }
    if ( o )
    {
        r.kind = ref::kObject;
        for ( const auto* e : *o ) r.o.emplace_back( str( e->GetKey(), c ), toRef( e, c ) );
    }
    return r;
}

inline std::string slurp( const std::string& path, bool* ok = nullptr )
{
    std::string s;
    int         fd = open( path.c_str(), O_RDONLY );
    if ( ok ) *ok = fd >= 0;
    if ( fd < 0 ) return s;
    char    b[ 65536 ];
    ssize_t n;
    while ( ( n = read( fd, b, sizeof b ) ) > 0 ) s.append( b, size_t( n ) );
    close( fd );
    return s;
}
inline void spew( const std::string& path, const std::string& s )
{
    int fd = open( path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
    size_t o = 0;
    while ( o < s.size() )
    {
        ssize_t n = write( fd, s.data() + o, s.size() - o );
        if ( n <= 0 ) abort();
        o += size_t( n );
    }
    close( fd );
}

inline void lineCol( const std::string& t, size_t off, int& line, int& col )
{
    line = 1;
    col  = 1;
    for ( size_t i = 0; i < off && i < t.size(); i++ )
    {
        if ( t[ i ] == '\n' ) { line++; col = 1; }
        else col++;
    }
}

// offset for a line/column pair, or -1
inline long long offsetOf( const std::string& t, int line, int col )
{
    size_t p = 0;
    for ( int l = 1; l < line; l++ )
    {
        p = t.find( '\n', p );
        if ( p == std::string::npos ) return -1;
        p++;
    }
    size_t e = t.find( '\n', p );
    if ( e == std::string::npos ) e = t.size();
    if ( col < 1 || size_t( col - 1 ) > e - p ) return -1;
    return (long long)( p + size_t( col - 1 ) );
}

// Each line of a written document starts with exactly (open brackets) x width indentation characters.
inline std::string indentProblem( const std::string& t, uint32_t width, char ch )
{
    size_t depth = 0, line = 1;
    bool   inStr = false;
    for ( size_t i = 0; i < t.size(); )
    {
        // start of a line
        size_t k = i;
        while ( k < t.size() && t[ k ] == ch ) k++;
        if ( k == t.size() ) break;
        size_t d = depth;
        if ( t[ k ] == ']' || t[ k ] == '}' ) d--;
        if ( t[ k ] != '\n' && k - i != d * width ) return fmt( "line %zu at depth %zu is indented by %zu characters instead of %zu", line, d, k - i, d * width );
        if ( t[ k ] == ' ' || t[ k ] == '\t' || t[ k ] == '\r' ) return fmt( "line %zu is indented with other characters", line );
        for ( i = k; i < t.size() && ( inStr || t[ i ] != '\n' ); i++ )
        {
            if ( inStr ) { if ( t[ i ] == '\\' ) i++; else if ( t[ i ] == '"' ) inStr = false; }
            else if ( t[ i ] == '"' ) inStr = true;
            else if ( t[ i ] == '[' || t[ i ] == '{' ) depth++;
            else if ( t[ i ] == ']' || t[ i ] == '}' ) depth--;
        }
        i++;
        line++;
    }
    return std::string();
}

inline bool statusAllowed( const ref::Result& r, J::Status st )
{
    using S   = J::Status;
    auto in   = [ & ]( std::initializer_list<S> l ) { for ( S x : l ) if ( x == st ) return true; return false; };
    bool number = in( { S::kFloatInvalid, S::kNumbersCannotHaveLeadingZeros, S::kExpectedJsonValue } );
    if ( r.endsAt && st == S::kPrematureNullTerminator ) return true;
    if ( r.afterNum && ( number || in( { S::kExpectedTrueOrFalse, S::kExpectedNull } ) ) ) return true;
    switch ( r.err )
    {
    case ref::eNone: return st == S::kOk;
    case ref::eValueExpected: return in( { S::kExpectedJsonValue, S::kTextBufferContentsInvalid } );
    case ref::eLiteral: return in( { S::kExpectedJsonValue, S::kExpectedTrueOrFalse, S::kExpectedNull } );
    case ref::eNumber: return in( { S::kFloatInvalid, S::kExpectedJsonValue } );
    case ref::eLeadingZero: return st == S::kNumbersCannotHaveLeadingZeros;
    case ref::eStringChar: return st == S::kStringIllegalChar;
    case ref::eStringEscape: return st == S::kStringIllegalEscape || ( r.endsAt && st == S::kExpectedEndingDoubleQuotes );
    case ref::eStringEnd: return in( { S::kPrematureNullTerminator, S::kExpectedEndingDoubleQuotes, S::kStringIllegalChar } );
    case ref::eNameExpected: return in( { S::kExpectedBeginingDoubleQuotes, S::kExpectedJsonValue } );
    case ref::eColon: return st == S::kExpectedColon;
    case ref::eArraySep: return st == S::kExpectedClosingSquareBracketsOrComma;
    case ref::eObjectSep: return st == S::kExpectedClosingCurlyBracesOrComma;
    case ref::eTrailing: return st == S::kExpectedEndOfFile;
    }
    return false;
}

inline bool structural( ref::Err e )
{
    return e == ref::eValueExpected || e == ref::eNameExpected || e == ref::eColon || e == ref::eArraySep || e == ref::eObjectSep || e == ref::eTrailing;
}

inline std::string statusText( J::Status s ) { return fmt( "status %u", unsigned( s ) ); }

constexpr size_t kDepthClaim = 1000; // nesting depth up to which acceptance is claimed
