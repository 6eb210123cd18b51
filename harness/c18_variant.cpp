// One build variant of the library behind a plain C interface; built as a shared object per configuration.
#include "C4Json.h"
#include "TSText.h"
#include "TSString.h"
#include "TSArray.h"
#include "TSMap.h"
#define C4_COMMA ,
using namespace Terathon;
namespace J = C4::Json;

typedef void ( *Sink )( void*, int tag, const char* p, unsigned long n );

namespace
{
    struct Out
    {
        Sink  f;
        void* u;
        static unsigned long len( const char* s ) { unsigned long n = 0; while ( s[ n ] ) n++; return n; }
        void s( const char* t ) { f( u, 'S', t, len( t ) ); }
        void b( const void* p, unsigned long n ) { f( u, 'S', static_cast<const char*>( p ), n ); }
        void i( long long v ) { f( u, 'I', reinterpret_cast<const char*>( &v ), sizeof v ); }
        void d( double v ) { f( u, 'D', reinterpret_cast<const char*>( &v ), sizeof v ); }
        void file( const char* path ) { f( u, 'F', path, len( path ) ); }
    };

    struct P
    {
        P() {}
        String<> s;
        double   n = 0;
        bool     b = false;
        J::Null  z;
        double   o = 2.5;
    };
#define V_P "s", object.s, "n", object.n, "b", object.b, "z", object.z, C4::Json::optional, "o", object.o
    DEFINE_JSON4C4_FUNCTIONS( P, V_P )
    struct Q
    {
        Q() {}
        Array<double>          nums;
        P                      inner;
        Array<P>               list;
        Array<Array<String<>>> aa;
        J::ObjectMap<double>   m;
        J::ObjectMap<P>        mp;
        Array<bool>            ab;
        DEFINE_JSON4C4_MEMBER_FUNCTIONS( "nums" C4_COMMA nums C4_COMMA "inner" C4_COMMA inner C4_COMMA J::optional C4_COMMA "list" C4_COMMA list C4_COMMA J::optional C4_COMMA "aa" C4_COMMA aa C4_COMMA J::optional C4_COMMA "m" C4_COMMA m C4_COMMA J::optional C4_COMMA "mp" C4_COMMA mp C4_COMMA J::optional C4_COMMA "ab" C4_COMMA ab )
    };

    void dump( Out& o, const String<>& v ) { o.b( static_cast<const char*>( v ), (unsigned long)v.GetStringLength() ); }
    void dump( Out& o, const double& v ) { o.d( v ); }
    void dump( Out& o, const bool& v ) { o.i( v ); }
    void dump( Out& o, const J::Null& ) { o.s( "null" ); }
    void dump( Out& o, const P& v ) { dump( o, v.s ); dump( o, v.n ); dump( o, v.b ); dump( o, v.o ); }
    template <class T> void dump( Out& o, const Array<T>& v );
    template <class T> void dump( Out& o, const J::ObjectMap<T>& v );
    void dump( Out& o, const Q& v );
    template <class T> void dump( Out& o, const Array<T>& v )
    {
        o.i( v.GetArrayElementCount() );
        for ( int32 k = 0; k < v.GetArrayElementCount(); k++ ) dump( o, v[ k ] );
    }
    template <class T> void dump( Out& o, const J::ObjectMap<T>& v )
    {
        o.i( v.GetMapElementCount() );
        for ( const auto* e : v ) { dump( o, e->GetKey() ); dump( o, e->data ); }
    }
    void dump( Out& o, const Q& v ) { dump( o, v.nums ); dump( o, v.inner ); dump( o, v.list ); dump( o, v.aa ); dump( o, v.m ); dump( o, v.mp ); dump( o, v.ab ); }

    void dump( Out& o, const J::Value* v )
    {
        if ( !v ) { o.s( "no value" ); return; }
        if ( const String<>* s = v->GetDataAsPointerTo<String<>>() ) { o.s( "string" ); dump( o, *s ); }
        if ( const double* d = v->GetDataAsPointerTo<double>() ) { o.s( "number" ); o.d( *d ); }
        if ( const bool* b = v->GetDataAsPointerTo<bool>() ) { o.s( "bool" ); o.i( *b ); }
        if ( v->GetDataAsPointerTo<J::Null>() ) o.s( "null" );
        if ( const Array<J::Value*>* a = v->GetDataAsPointerTo<Array<J::Value*>>() )
        {
            o.s( "array" );
            o.i( a->GetArrayElementCount() );
            for ( int32 k = 0; k < a->GetArrayElementCount(); k++ ) dump( o, ( *a )[ k ] );
        }
        if ( const J::ObjectValue* ob = v->AsJsonObjectValue() )
        {
            o.s( "object" );
            for ( const auto* e : *ob ) { dump( o, e->GetKey() ); dump( o, static_cast<const J::Value*>( e ) ); }
            o.s( "end" );
        }
    }

    void result( Out& o, const J::ParseResult& r )
    {
        o.i( (long long)r.status );
        o.i( r.errorLine );
        o.i( r.errorColumn );
        o.s( static_cast<const char*>( J::ParseResultToString( r ) ) );
        o.s( static_cast<const char*>( J::StatusToString( r.status ) ) );
    }

    template <class T> struct Hold { T v; Hold() : v() {} };

    template <class T> void typed( Out& o, J::StructuredData& sd, const char* path, unsigned n )
    {
        Hold<T> x;
        o.i( (long long)J::Validate( sd, x.v ) );
        J::Status st = sd.DeserializeTo( x.v );
        o.i( (long long)st );
        if ( st != J::Status::kOk ) return;
        dump( o, x.v );
        J::StructuredData out;
        o.i( (long long)out.SerializeFrom( x.v ) );
        o.i( (long long)out.Write( path, int32( n % 5 ) ) );
        o.file( path );
    }

    void finders( Out& o, const J::Value* v, const char* name )
    {
        const J::ObjectValue* ob = v ? v->AsJsonObjectValue() : nullptr;
        if ( !ob ) { o.s( "no object" ); return; }
        const String<>* s = ob->FindString( name );
        const double*   d = ob->FindNumber( name );
        const bool*     b = ob->FindBool( name );
        o.i( ( s != nullptr ) + 2 * ( d != nullptr ) + 4 * ( b != nullptr ) + 8 * ( ob->FindJsonNull( name ) != nullptr ) + 16 * ( ob->FindJsonValueArray( name ) != nullptr ) + 32 * ( ob->FindJsonObjectValue( name ) != nullptr ) );
        if ( s ) dump( o, *s );
        if ( d ) o.d( *d );
        if ( b ) o.i( *b );
    }

    void texts( Out& o, const char* t, unsigned long len, unsigned n )
    {
        String<> a( t ), b;
        b += int32( n );
        b += '|';
        b += int64( n ) * 1000003;
        o.s( static_cast<const char*>( b ) );
        a += b;
        a += t;
        dump( o, a );
        unsigned long half = len / 2;
        const char*   h    = t + half;
        int32         m    = int32( n % 9 );
        o.i( Text::CompareText( t, h ) );
        o.i( Text::CompareText( t, h, m ) );
        o.i( Text::CompareTextCaseless( t, h ) );
        o.i( Text::CompareTextCaseless( t, h, m ) );
        o.i( Text::CompareTextLessThan( t, h ) );
        o.i( Text::CompareTextLessThanCaseless( t, h ) );
        o.i( Text::CompareTextLessEqual( t, h ) );
        o.i( Text::CompareTextLessEqualCaseless( t, h ) );
        o.i( Text::CompareNumberedTextLessThan( t, h ) );
        o.i( Text::Hash( t ) );
        o.i( Text::FindTextCaseless( t, "e" ) );
        o.i( Text::FindText( t, "\xC3" ) );
        o.i( Text::FindChar( t, 0xE9 ) );
        o.i( Text::FindChar( t, '"' ) );
        o.i( Text::CountChars( t, 'a', int32( len ) ) );
        o.i( Text::GetUnicodeCharCount( t ) );
        o.i( Text::GetResourceNameLength( t ) );
        o.i( Text::GetDirectoryPathLength( t ) );
        for ( unsigned long k = 0; k < len; k++ )
        {
            uint32 c = 0;
            int32  v = Text::ValidateUnicodeChar( t + k );
            o.i( v );
            if ( v )
            {
                char w[ 8 ] = {};
                o.i( Text::ReadUnicodeChar( t + k, &c ) );
                o.i( c );
                o.i( Text::WriteUnicodeChar( w, c ) );
                o.b( w, 8 );
            }
        }
        char w[ 256 ] = {};
        o.i( Text::ReadInteger( t, w, 255 ) );
        o.s( w );
        o.i( Text::ReadFloat( t, w, 255 ) );
        o.s( w );
        o.i( Text::IntegerToString( int32( n ), w, 255 ) );
        o.s( w );
        o.i( Text::Integer64ToString( int64( n ) * -4294967291LL, w, 255 ) );
        o.s( w );
        o.i( a < static_cast<const char*>( b ) );
        o.i( a == t );
    }
}

extern "C" __attribute__( ( visibility( "default" ) ) ) void* c18_new() { return new J::StructuredData; }
extern "C" __attribute__( ( visibility( "default" ) ) ) void c18_free( void* p ) { delete static_cast<J::StructuredData*>( p ); }
extern "C" __attribute__( ( visibility( "default" ) ) ) void c18_step( void* p, int op, const char* text, unsigned long len, unsigned n, const char* path, Sink f, void* u )
{
    J::StructuredData& sd = *static_cast<J::StructuredData*>( p );
    Out                o { f, u };
    switch ( op )
    {
    case 0: // parse a buffer
    {
        Array<char> a( int32( len + 1 ) );
        a.SetArrayElementCount( int32( len + 1 ) );
        for ( unsigned long k = 0; k < len; k++ ) a[ int32( k ) ] = text[ k ];
        a[ int32( len ) ] = 0;
        result( o, sd.Parse( a ) );
        dump( o, sd.GetRootJsonValue() );
        break;
    }
    case 1: // parse a file
        result( o, sd.Parse( path ) );
        dump( o, sd.GetRootJsonValue() );
        break;
    case 2: // write
        o.i( (long long)sd.Write( path, int32( n % 5 ), n & 8 ? '\t' : ' ' ) );
        o.file( path );
        break;
    case 3:
        if ( !sd.GetRootJsonValue() ) break;
        switch ( n >> 3 & 7 )
        {
        case 0: typed<P>( o, sd, path, n ); break;
        case 1: typed<Q>( o, sd, path, n ); break;
        case 2: typed<Array<double>>( o, sd, path, n ); break;
        case 3: typed<J::ObjectMap<P>>( o, sd, path, n ); break;
        case 4: typed<Array<P>>( o, sd, path, n ); break;
        case 5: typed<J::ObjectMap<double>>( o, sd, path, n ); break;
        case 6: typed<Array<String<>>>( o, sd, path, n ); break;
        default: typed<double>( o, sd, path, n ); break;
        }
        break;
    case 4: finders( o, sd.GetRootJsonValue(), text ); break;
    case 5: texts( o, text, len, n ); break;
    default: break;
    }
}
