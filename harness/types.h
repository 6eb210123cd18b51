// A family of user types for the typed layer, with a generic reference model: value generator,
// the document a value denotes (enc), and conformity plus expected result of reading a document (dec).
#pragma once
#include "common.h"
#include <set>
#include <map>
#include <vector>
// lists of names and members as one macro argument
#define C4_COMMA ,

namespace fam
{
    using Terathon::Array;
    using Terathon::String;
    template <class T> using Vec  = std::vector<T>;
    template <class T> using SMap = std::map<std::string, T>;
    template <class T> using OMap = J::ObjectMap<T>;

    template <class T> struct Box
    {
        T v;
        Box() : v() {}
    };

    // ---------------------------------------------------------------- user types
    // free functions through the macro
    struct A
    {
        A() {}
        String<>    s;
        double      n = 0;
        bool        b = false;
        J::Null     z;
        std::string t;
        template <class V, class S> static void fields( V& v, S& o ) { v( "s", o.s ); v( "n", o.n ); v( "b", o.b ); v( "z", o.z ); v( "t", o.t ); }
    };
#define FAM_A "s", object.s, "n", object.n, "b", object.b, "z", object.z, "t", object.t
    DEFINE_JSON4C4_FUNCTIONS( A, FAM_A )

    // member functions, private members
    class B
    {
        Array<double> nums;
        bool          flag = false;
        A             inner;

    public:
        Array<String<>> strs;
        Array<A>        list;
        B() {}
        DEFINE_JSON4C4_MEMBER_FUNCTIONS( "nums" C4_COMMA nums C4_COMMA "flag" C4_COMMA flag C4_COMMA "inner" C4_COMMA inner C4_COMMA "strs" C4_COMMA strs C4_COMMA "list" C4_COMMA list )
        template <class V, class S> static void fields( V& v, S& o ) { v( "nums", o.nums ); v( "flag", o.flag ); v( "inner", o.inner ); v( "strs", o.strs ); v( "list", o.list ); }
    };

    // optional members of every sort, written without macros
    struct C
    {
        C() {}
        double        req = 0;
        double        opt = 1.5;
        std::string   name { "unset" };
        A             nested;
        Array<double> arr;
        B             m;
        bool          last = true;
        template <class V, class S> static void fields( V& v, S& o )
        {
            v.opt( "opt", o.opt );
            v( "req", o.req );
            v.opt( "name", o.name );
            v.opt( "nested", o.nested );
            v.opt( "arr", o.arr );
            v.opt( "m", o.m );
            v( "last", o.last );
        }
    };
    inline J::Status Deserialize( const J::Value* v, C& o ) noexcept
    {
        return J::DeserializeProto( v, J::optional, "opt", o.opt, "req", o.req, J::optional, "name", o.name, J::optional, "nested", o.nested, J::optional, "arr", o.arr, J::optional, "m", o.m, "last", o.last );
    }
    inline J::Status Validate( const J::Value* v, const C& o ) noexcept
    {
        return J::ValidateProto( v, J::optional, "opt", o.opt, "req", o.req, J::optional, "name", o.name, J::optional, "nested", o.nested, J::optional, "arr", o.arr, J::optional, "m", o.m, "last", o.last );
    }
    inline J::Status Serialize( J::Value* v, const C& o ) noexcept
    {
        return J::SerializeProto( v, J::optional, "opt", o.opt, "req", o.req, J::optional, "name", o.name, J::optional, "nested", o.nested, J::optional, "arr", o.arr, J::optional, "m", o.m, "last", o.last );
    }

    // member functions, everything optional, optional nested optional
    struct O
    {
        O() {}
        C             c;
        J::Null       z;
        bool          b = false;
        String<>      s;
        Vec<C>        v;
        SMap<double>  d;
        DEFINE_JSON4C4_MEMBER_FUNCTIONS( J::optional C4_COMMA "c" C4_COMMA c C4_COMMA J::optional C4_COMMA "z" C4_COMMA z C4_COMMA J::optional C4_COMMA "b" C4_COMMA b C4_COMMA J::optional C4_COMMA "s" C4_COMMA s C4_COMMA J::optional C4_COMMA "v" C4_COMMA v C4_COMMA J::optional C4_COMMA "d" C4_COMMA d )
        template <class V, class S> static void fields( V& w, S& o ) { w.opt( "c", o.c ); w.opt( "z", o.z ); w.opt( "b", o.b ); w.opt( "s", o.s ); w.opt( "v", o.v ); w.opt( "d", o.d ); }
    };

    // standard containers
    struct D
    {
        D() {}
        Vec<std::string>   vs;
        Vec<double>        vn;
        Vec<bool>          vb;
        Vec<J::Null>       vz;
        Vec<A>             va;
        Vec<B>             vm;
        Vec<Vec<double>>   vv;
        SMap<double>       mn;
        SMap<std::string>  ms;
        SMap<A>            ma;
        SMap<B>            mm;
        SMap<Vec<double>>  mv;
        Vec<SMap<bool>>    vmap;
        template <class V, class S> static void fields( V& v, S& o )
        {
            v( "vs", o.vs ); v( "vn", o.vn ); v( "vb", o.vb ); v( "vz", o.vz ); v( "va", o.va ); v( "vm", o.vm ); v( "vv", o.vv );
            v( "mn", o.mn ); v( "ms", o.ms ); v( "ma", o.ma ); v( "mm", o.mm ); v( "mv", o.mv ); v( "vmap", o.vmap );
        }
    };
#define FAM_D "vs", object.vs, "vn", object.vn, "vb", object.vb, "vz", object.vz, "va", object.va, "vm", object.vm, "vv", object.vv, "mn", object.mn, "ms", object.ms, "ma", object.ma, "mm", object.mm, "mv", object.mv, "vmap", object.vmap
    DEFINE_JSON4C4_FUNCTIONS( D, FAM_D )

    // maps and arrays of the library
    struct E
    {
        E() {}
        OMap<double>          mn;
        OMap<String<>>        ms;
        OMap<bool>            mb;
        OMap<J::Null>         mz;
        OMap<A>               ma;
        OMap<B>               mm;
        OMap<Array<double>>   mv;
        Array<bool>           ab;
        Array<J::Null>        az;
        Array<Array<String<>>> aa;
        Array<B>              abm;
        template <class V, class S> static void fields( V& v, S& o )
        {
            v( "mn", o.mn ); v( "ms", o.ms ); v( "mb", o.mb ); v( "mz", o.mz ); v( "ma", o.ma ); v( "mm", o.mm ); v( "mv", o.mv );
            v( "ab", o.ab ); v( "az", o.az ); v( "aa", o.aa ); v( "abm", o.abm );
        }
    };
#define FAM_E "mn", object.mn, "ms", object.ms, "mb", object.mb, "mz", object.mz, "ma", object.ma, "mm", object.mm, "mv", object.mv, "ab", object.ab, "az", object.az, "aa", object.aa, "abm", object.abm
    DEFINE_JSON4C4_FUNCTIONS( E, FAM_E )

    // members of a base flattened into the derived object
    struct F : A
    {
        F() {}
        double        extra = 0;
        Array<String<>> tags;
        template <class V, class S> static void fields( V& v, S& o ) { A::fields( v, o ); v( "extra", o.extra ); v( "tags", o.tags ); }
    };
    inline J::Status Deserialize( const J::Value* v, F& o ) noexcept { return J::DeserializeProto( v, static_cast<A&>( o ), "extra", o.extra, "tags", o.tags ); }
    inline J::Status Validate( const J::Value* v, const F& o ) noexcept { return J::ValidateProto( v, static_cast<const A&>( o ), "extra", o.extra, "tags", o.tags ); }
    inline J::Status Serialize( J::Value* v, const F& o ) noexcept { return J::SerializeProto( v, static_cast<const A&>( o ), "extra", o.extra, "tags", o.tags ); }

    // recursive
    struct N
    {
        N() {}
        std::string label;
        Vec<N>      kids;
        template <class V, class S> static void fields( V& v, S& o ) { v( "label", o.label ); v( "kids", o.kids ); }
    };
#define FAM_N "label", object.label, "kids", object.kids
    inline J::Status Deserialize( const J::Value* sd, N& object ) noexcept;
    inline J::Status Validate( const J::Value* sd, const N& object ) noexcept;
    inline J::Status Serialize( J::Value* sd, const N& object ) noexcept;
    DEFINE_JSON4C4_FUNCTIONS( N, FAM_N )

    // unusual names
#define FAM_LONG "a name that is a good deal longer than every inline buffer of the library, to be kept in heap storage"
    struct H
    {
        H() {}
        double      x[ 9 ] = {};
        std::string s;
        template <class V, class S> static void fields( V& v, S& o )
        {
            v( "", o.x[ 0 ] ); v( "zz", o.x[ 1 ] ); v( "z", o.x[ 2 ] ); v( "a b", o.x[ 3 ] ); v( "\"quoted\\", o.x[ 4 ] ); v( "\xC3\xA9", o.x[ 5 ] );
            v( "tab\there", o.x[ 6 ] ); v( FAM_LONG, o.x[ 7 ] ); v( FAM_LONG "!", o.x[ 8 ] ); v( "price$", o.s );
        }
    };
#define FAM_H "", object.x[ 0 ], "zz", object.x[ 1 ], "z", object.x[ 2 ], "a b", object.x[ 3 ], "\"quoted\\", object.x[ 4 ], "\xC3\xA9", object.x[ 5 ], "tab\there", object.x[ 6 ], FAM_LONG, object.x[ 7 ], FAM_LONG "!", object.x[ 8 ], "price$", object.s
    DEFINE_JSON4C4_FUNCTIONS( H, FAM_H )

    // optional members as the first, the only, and neighbouring members; scalars and containers of every sort
    struct P
    {
        P() {}
        double           x = 7;
        A                a;
        Array<A>         list;
        Array<String<>>  strs;
        Vec<double>      vn { 1, 2 };
        Vec<std::string> vs;
        OMap<double>     om;
        std::string      t { "tee" };
        double           y = -0.0;
        template <class V, class S> static void fields( V& v, S& o )
        {
            v.opt( "x", o.x ); v.opt( "a", o.a ); v.opt( "list", o.list ); v.opt( "strs", o.strs ); v.opt( "vn", o.vn ); v.opt( "vs", o.vs ); v.opt( "om", o.om ); v( "t", o.t ); v.opt( "y", o.y );
        }
    };
#define FAM_P C4::Json::optional, "x", object.x, C4::Json::optional, "a", object.a, C4::Json::optional, "list", object.list, C4::Json::optional, "strs", object.strs, C4::Json::optional, "vn", object.vn, C4::Json::optional, "vs", object.vs, C4::Json::optional, "om", object.om, "t", object.t, C4::Json::optional, "y", object.y
    DEFINE_JSON4C4_FUNCTIONS( P, FAM_P )

    // required structures that hold optional members, below optional ones
    struct Q
    {
        Q() {}
        C      first;
        P      p;
        O      o;
        Vec<C> many;
        DEFINE_JSON4C4_MEMBER_FUNCTIONS( "first" C4_COMMA first C4_COMMA J::optional C4_COMMA "p" C4_COMMA p C4_COMMA "o" C4_COMMA o C4_COMMA J::optional C4_COMMA "many" C4_COMMA many )
        template <class V, class S> static void fields( V& v, S& q ) { v( "first", q.first ); v.opt( "p", q.p ); v( "o", q.o ); v.opt( "many", q.many ); }
    };

    // ---------------------------------------------------------------- the model
    struct Gen
    {
        Src&     s;
        uint32_t budget;
        uint32_t maxText = 200;
        uint32_t huge    = 0; // the next container of scalars gets this many elements
        uint32_t hugeText = 0; // the next text gets this many bytes
        std::string text()
        {
            if ( uint32_t n = hugeText )
            {
                hugeText = 0;
                std::string o, u = gen::text( s, 12 ) + "p";
                while ( o.size() + u.size() <= n ) o += u;
                while ( o.size() < n ) o += 'z';
                return o;
            }
            return gen::text( s, maxText );
        }
        uint32_t len( uint32_t max )
        {
            uint32_t n = s.len( max );
            if ( n > budget ) n = budget;
            budget -= n;
            return n;
        }
    };

    inline double finite( Src& s )
    {
        double d = gen::anyDouble( s );
        return d == d && d - d == 0 ? d : 0.25;
    }

    inline void put( String<>& o, const std::string& s ) { o = s.c_str(); }
    inline void put( std::string& o, const std::string& s ) { o = s; }

    inline void make( Gen& g, String<>& o ) { put( o, g.text() ); }
    inline void make( Gen& g, std::string& o ) { o = g.text(); }
    inline void make( Gen& g, double& o ) { o = finite( g.s ); }
    inline void make( Gen& g, bool& o ) { o = g.s.chance( 1, 2 ); }
    inline void make( Gen&, J::Null& ) {}
    // many elements from one byte each
    template <class T> constexpr bool kScalar = std::is_same_v<T, double> || std::is_same_v<T, bool> || std::is_same_v<T, std::string> || std::is_same_v<T, String<>> || std::is_same_v<T, J::Null>;
    template <class T> T cheap( uint32_t v )
    {
        if constexpr ( std::is_same_v<T, double> ) return double( v );
        else if constexpr ( std::is_same_v<T, bool> ) return bool( v & 1 );
        else if constexpr ( std::is_same_v<T, std::string> || std::is_same_v<T, String<>> ) { T t; put( t, v % 7 ? std::string( v % 20, char( 'a' + v % 26 ) ) : std::to_string( v ) ); return t; }
        else return T();
    }
    template <class T> void make( Gen& g, T& o );
    template <class T> void make( Gen& g, Array<T>& o );
    template <class T> void make( Gen& g, Vec<T>& o );
    template <class T> void make( Gen& g, SMap<T>& o );
    template <class T> void make( Gen& g, OMap<T>& o );
    template <class T> void make( Gen& g, Array<T>& o )
    {
        o.PurgeArray();
        if constexpr ( kScalar<T> )
            if ( uint32_t n = g.huge )
            {
                g.huge     = 0;
                uint32_t x = g.s.u16();
                for ( uint32_t i = 0; i < n; i++, x = x * 5 + 77 ) o.AppendArrayElement( cheap<T>( x >> 8 & 0xFF ) );
                return;
            }
        uint32_t n = g.len( 40 );
        for ( uint32_t i = 0; i < n; i++ ) { Box<T> b; T& t = b.v; make( g, t ); o.AppendArrayElement( t ); }
    }
    template <class T> void make( Gen& g, Vec<T>& o )
    {
        o.clear();
        if constexpr ( kScalar<T> )
            if ( uint32_t n = g.huge )
            {
                g.huge     = 0;
                uint32_t x = g.s.u16();
                for ( uint32_t i = 0; i < n; i++, x = x * 5 + 77 ) o.push_back( cheap<T>( x >> 8 & 0xFF ) );
                return;
            }
        uint32_t n = g.len( 40 );
        for ( uint32_t i = 0; i < n; i++ ) { Box<T> b; T& t = b.v; make( g, t ); o.push_back( t ); }
    }
    template <class T> void make( Gen& g, SMap<T>& o )
    {
        o.clear();
        if constexpr ( kScalar<T> )
            if ( uint32_t n = g.huge )
            {
                g.huge     = 0;
                uint32_t x = g.s.u16();
                for ( uint32_t i = 0; i < n % 3000; i++, x = x * 5 + 77 ) o[ "n" + std::to_string( x ) ] = cheap<T>( x >> 8 & 0xFF );
                return;
            }
        uint32_t n = g.len( 60 );
        for ( uint32_t i = 0; i < n; i++ ) { std::string k = gen::name( g.s ); make( g, o[ k ] ); }
    }
    template <class T> void make( Gen& g, OMap<T>& o )
    {
        o.PurgeMap();
        if constexpr ( kScalar<T> )
            if ( uint32_t n = g.huge )
            {
                g.huge     = 0;
                uint32_t x = g.s.u16();
                for ( uint32_t i = 0; i < n % 3000; i++, x = x * 5 + 77 )
                {
                    auto* e = new J::ObjectMapElement<T>;
                    put( e->name, "n" + std::to_string( x ) );
                    e->data = cheap<T>( x >> 8 & 0xFF );
                    if ( !o.InsertMapElement( e ) ) delete e;
                }
                return;
            }
        uint32_t              n = g.len( 60 );
        std::set<std::string> used;
        for ( uint32_t i = 0; i < n; i++ )
        {
            std::string k = gen::name( g.s );
            if ( !used.insert( k ).second ) continue;
            auto* e = new J::ObjectMapElement<T>;
            put( e->name, k );
            make( g, e->data );
            if ( !o.InsertMapElement( e ) ) delete e;
        }
    }
    struct MakeV
    {
        Gen& g;
        template <class T> void operator()( const char*, T& f ) { make( g, f ); }
        template <class T> void opt( const char*, T& f ) { make( g, f ); }
    };
    template <class T> void make( Gen& g, T& o )
    {
        MakeV v { g };
        T::fields( v, o );
    }

    // the document a value denotes
    inline ref::Val enc( const String<>& o ) { ref::Val v; v.kind = ref::kString; v.s = static_cast<const char*>( o ); return v; }
    inline ref::Val enc( const std::string& o ) { ref::Val v; v.kind = ref::kString; v.s = o; return v; }
    inline ref::Val enc( const double& o ) { ref::Val v; v.kind = ref::kNumber; v.d = o; return v; }
    inline ref::Val enc( const bool& o ) { ref::Val v; v.kind = ref::kBool; v.b = o; return v; }
    inline ref::Val enc( const J::Null& ) { return ref::Val(); }
    template <class T> ref::Val enc( const T& o );
    template <class T> ref::Val enc( const Array<T>& o );
    template <class T> ref::Val enc( const Vec<T>& o );
    template <class T> ref::Val enc( const SMap<T>& o );
    template <class T> ref::Val enc( const OMap<T>& o );
    template <class T> ref::Val enc( const Array<T>& o )
    {
        ref::Val v;
        v.kind = ref::kArray;
        for ( int i = 0; i < o.GetArrayElementCount(); i++ ) v.a.push_back( enc( o[ i ] ) );
        return v;
    }
    template <class T> ref::Val enc( const Vec<T>& o )
    {
        ref::Val v;
        v.kind = ref::kArray;
        for ( size_t i = 0; i < o.size(); i++ ) { const T e = o[ i ]; v.a.push_back( enc( e ) ); }
        return v;
    }
    template <class T> ref::Val enc( const SMap<T>& o )
    {
        ref::Val v;
        v.kind     = ref::kObject;
        v.anyOrder = true;
        for ( auto& e : o ) v.o.emplace_back( e.first, enc( e.second ) );
        return v;
    }
    template <class T> ref::Val enc( const OMap<T>& o )
    {
        ref::Val v;
        v.kind     = ref::kObject;
        v.anyOrder = true;
        for ( auto* e : o ) v.o.emplace_back( static_cast<const char*>( e->GetKey() ), enc( e->data ) );
        return v;
    }
    struct EncV
    {
        ref::Val& v;
        template <class T> void operator()( const char* n, const T& f ) { v.o.emplace_back( n, enc( f ) ); }
        template <class T> void opt( const char* n, const T& f ) { ( *this )( n, f ); }
    };
    template <class T> ref::Val enc( const T& o )
    {
        ref::Val v;
        v.kind = ref::kObject;
        EncV e { v };
        T::fields( e, o );
        return v;
    }

    // problems a document has with respect to a structure
    struct Problems
    {
        uint32_t kind = 0, missing = 0, absentOptional = 0, presentOptional = 0, depth = 0, deepest = 0, mapReread = 0;
        bool     none() const { return !kind && !missing; }
    };

    // reads the document into the object the way the library is specified to
    inline void dec( const ref::Val& v, String<>& o, Problems& p ) { if ( v.kind != ref::kString ) p.kind++; else put( o, v.s ); }
    inline void dec( const ref::Val& v, std::string& o, Problems& p ) { if ( v.kind != ref::kString ) p.kind++; else o = v.s; }
    inline void dec( const ref::Val& v, double& o, Problems& p ) { if ( v.kind != ref::kNumber ) p.kind++; else o = v.d; }
    inline void dec( const ref::Val& v, bool& o, Problems& p ) { if ( v.kind != ref::kBool ) p.kind++; else o = v.b; }
    inline void dec( const ref::Val& v, J::Null&, Problems& p ) { if ( v.kind != ref::kNull ) p.kind++; }
    template <class T> void dec( const ref::Val& v, T& o, Problems& p );
    template <class T> void dec( const ref::Val& v, Array<T>& o, Problems& p );
    template <class T> void dec( const ref::Val& v, Vec<T>& o, Problems& p );
    template <class T> void dec( const ref::Val& v, SMap<T>& o, Problems& p );
    template <class T> void dec( const ref::Val& v, OMap<T>& o, Problems& p );
    template <class T> void dec( const ref::Val& v, Array<T>& o, Problems& p )
    {
        if ( v.kind != ref::kArray ) { p.kind++; return; }
        o.PurgeArray();
        for ( auto& e : v.a ) { Box<T> b; T& t = b.v; dec( e, t, p ); o.AppendArrayElement( t ); }
    }
    template <class T> void dec( const ref::Val& v, Vec<T>& o, Problems& p )
    {
        if ( v.kind != ref::kArray ) { p.kind++; return; }
        o.clear();
        for ( auto& e : v.a ) { Box<T> b; T& t = b.v; dec( e, t, p ); o.push_back( t ); }
    }
    template <class T> void dec( const ref::Val& v, SMap<T>& o, Problems& p )
    {
        if ( v.kind != ref::kObject ) { p.kind++; return; }
        if ( !o.empty() ) p.mapReread++;
        for ( auto& e : v.o ) dec( e.second, o[ e.first ], p );
    }
    template <class T> void dec( const ref::Val& v, OMap<T>& o, Problems& p )
    {
        if ( v.kind != ref::kObject ) { p.kind++; return; }
        if ( o.GetMapElementCount() ) p.mapReread++;
        for ( auto& e : v.o )
        {
            J::ObjectMapElement<T>* x = nullptr;
            for ( auto* y : o ) if ( e.first == static_cast<const char*>( y->GetKey() ) ) x = y;
            if ( !x )
            {
                x = new J::ObjectMapElement<T>;
                put( x->name, e.first );
                o.InsertMapElement( x );
            }
            dec( e.second, x->data, p );
        }
    }
    struct DecV
    {
        const ref::Val& v;
        Problems&       p;
        template <class T> void operator()( const char* n, T& f )
        {
            const ref::Val* m = v.find( n );
            if ( !m ) { p.missing++; return; }
            dec( *m, f, p );
        }
        template <class T> void opt( const char* n, T& f )
        {
            const ref::Val* m = v.find( n );
            if ( !m ) { p.absentOptional++; return; }
            p.presentOptional++;
            dec( *m, f, p );
        }
    };
    template <class T> void dec( const ref::Val& v, T& o, Problems& p )
    {
        // a structure applied to something that is no object: wrong kind, except that a structure whose
        // members are all optional is checked member by member as well
        if ( v.kind != ref::kObject ) { p.kind++; return; }
        p.depth++;
        if ( p.depth > p.deepest ) p.deepest = p.depth;
        DecV d { v, p };
        T::fields( d, o );
        p.depth--;
    }

    // ---------------------------------------------------------------- documents
    inline void render( Src& s, const ref::Val& v, std::string& o, bool plain )
    {
        switch ( v.kind )
        {
        case ref::kNull: o += "null"; break;
        case ref::kBool: o += v.b ? "true" : "false"; break;
        case ref::kNumber:
        {
            char b[ 64 ];
            if ( v.d - v.d != 0 ) snprintf( b, sizeof b, v.d > 0 ? "1e999" : "-1e999" );
            else snprintf( b, sizeof b, "%.17g", v.d );
            o += b;
            break;
        }
        case ref::kString: gen::literal( s, v.s, o, plain ); break;
        case ref::kArray:
        {
            o += '[';
            bool first = true;
            for ( auto& e : v.a )
            {
                if ( !first ) o += ',';
                first = false;
                render( s, e, o, plain );
            }
            o += ']';
            break;
        }
        case ref::kObject:
        {
            o += '{';
            bool first = true;
            for ( auto& e : v.o )
            {
                if ( !first ) o += ',';
                first = false;
                gen::literal( s, e.first, o, plain );
                o += ':';
                render( s, e.second, o, plain );
            }
            o += '}';
            break;
        }
        }
    }

    inline ref::Val anyVal( Src& s, uint32_t depth = 0 )
    {
        ref::Val v;
        switch ( s.below( depth > 2 ? 4 : 6 ) )
        {
        case 0: break;
        case 1: v.kind = ref::kBool; v.b = s.chance( 1, 2 ); break;
        case 2: v.kind = ref::kNumber; v.d = finite( s ); break;
        case 3: v.kind = ref::kString; v.s = gen::text( s, 40 ); break;
        case 4:
        {
            v.kind     = ref::kArray;
            uint32_t n = s.below( 4 );
            for ( uint32_t i = 0; i < n; i++ ) v.a.push_back( anyVal( s, depth + 1 ) );
            break;
        }
        default:
        {
            v.kind     = ref::kObject;
            uint32_t n = s.below( 4 );
            for ( uint32_t i = 0; i < n; i++ )
            {
                std::string k = gen::name( s );
                if ( !v.find( k ) ) v.o.emplace_back( k, anyVal( s, depth + 1 ) );
            }
        }
        }
        return v;
    }

    inline void collect( ref::Val& v, std::vector<ref::Val*>& all )
    {
        all.push_back( &v );
        for ( auto& e : v.a ) collect( e, all );
        for ( auto& e : v.o ) collect( e.second, all );
    }

    enum Edit { eKind, eDelete, eExtra, eShuffle, eAppend, eDrop, eNullify, eRename };
    // one change somewhere in the document
    inline void edit( Src& s, ref::Val& root, uint32_t allowed = ~0u )
    {
        std::vector<ref::Val*> all, cand;
        collect( root, all );
        uint32_t e;
        for ( int tries = 0;; tries++ )
        {
            e = s.pick( { 4, 4, 3, 3, 2, 1, 2, 1 } );
            if ( allowed >> e & 1 ) break;
            if ( tries > 20 ) return;
        }
        for ( ref::Val* x : all )
        {
            bool ok = true;
            if ( e == eDelete || e == eRename ) ok = x->kind == ref::kObject && !x->o.empty();
            if ( e == eShuffle ) ok = x->kind == ref::kObject && x->o.size() > 1;
            if ( e == eExtra ) ok = x->kind == ref::kObject;
            if ( e == eAppend ) ok = x->kind == ref::kArray;
            if ( e == eDrop ) ok = x->kind == ref::kArray && !x->a.empty();
            if ( ok ) cand.push_back( x );
        }
        if ( cand.empty() ) return;
        ref::Val& x = *cand[ s.below( uint32_t( cand.size() ) ) ];
        switch ( e )
        {
        case eKind: { ref::Val n = anyVal( s, 1 ); x = n; break; }
        case eNullify: x = ref::Val(); break;
        case eDelete: x.o.erase( x.o.begin() + s.below( uint32_t( x.o.size() ) ) ); break;
        case eRename:
        {
            auto&       m = x.o[ s.below( uint32_t( x.o.size() ) ) ];
            std::string n = m.first;
            if ( s.chance( 1, 2 ) || n.empty() || n.back() < 0 ) n += "x";
            else n.pop_back();
            if ( !x.find( n ) ) m.first = n;
            break;
        }
        case eExtra:
        {
            std::string k = gen::name( s );
            if ( !x.find( k ) ) x.o.insert( x.o.begin() + s.below( uint32_t( x.o.size() + 1 ) ), { k, anyVal( s, 1 ) } );
            break;
        }
        case eShuffle:
            for ( size_t i = x.o.size() - 1; i > 0; i-- ) std::swap( x.o[ i ], x.o[ s.below( uint32_t( i + 1 ) ) ] );
            break;
        case eAppend:
            if ( !x.a.empty() && s.chance( 2, 3 ) ) { ref::Val n = x.a[ s.below( uint32_t( x.a.size() ) ) ]; x.a.push_back( n ); }
            else x.a.push_back( anyVal( s, 1 ) );
            break;
        case eDrop: x.a.erase( x.a.begin() + s.below( uint32_t( x.a.size() ) ) ); break;
        }
    }

    // ---------------------------------------------------------------- dispatch over the family
    template <class T> struct Tag { using Type = T; };
    constexpr uint32_t kTypes = 44;
    // The harness is compiled FAM_PARTS times (see run.py), each time with a part of the types, to build in parallel.
#ifndef FAM_PARTS
#    define FAM_PARTS 1
#    define FAM_PART 0
#endif
    // calls f( Tag<T>, name ) if the type belongs to this part
    template <uint32_t N, class T, class Fn> void call( Fn& f, const char* n )
    {
        if constexpr ( N % FAM_PARTS == FAM_PART ) f( Tag<T>(), n );
    }
    template <class Fn> void dispatch( uint32_t i, Fn&& f )
    {
        switch ( i % kTypes )
        {
#define FAM_T( N, ... ) case N: call<N, __VA_ARGS__>( f, #__VA_ARGS__ ); break;
            FAM_T( 0, A )
            FAM_T( 1, B )
            FAM_T( 2, C )
            FAM_T( 3, D )
            FAM_T( 4, E )
            FAM_T( 5, F )
            FAM_T( 6, N )
            FAM_T( 7, H )
            FAM_T( 8, O )
            FAM_T( 9, String<> )
            FAM_T( 10, std::string )
            FAM_T( 11, double )
            FAM_T( 12, bool )
            FAM_T( 13, J::Null )
            FAM_T( 14, Array<double> )
            FAM_T( 15, Array<String<>> )
            FAM_T( 16, Array<A> )
            FAM_T( 17, Array<B> )
            FAM_T( 18, Array<Array<double>> )
            FAM_T( 19, Vec<double> )
            FAM_T( 20, Vec<std::string> )
            FAM_T( 21, Vec<B> )
            FAM_T( 22, Vec<C> )
            FAM_T( 23, Vec<Vec<N>> )
            FAM_T( 24, SMap<double> )
            FAM_T( 25, SMap<C> )
            FAM_T( 26, SMap<SMap<B>> )
            FAM_T( 27, OMap<double> )
            FAM_T( 28, OMap<String<>> )
            FAM_T( 29, OMap<C> )
            FAM_T( 30, OMap<B> )
            FAM_T( 31, Array<F> )
            FAM_T( 32, Vec<O> )
            FAM_T( 33, OMap<E> )
            FAM_T( 34, SMap<Array<H>> )
            FAM_T( 35, P )
            FAM_T( 36, Q )
            FAM_T( 37, Array<C> )
            FAM_T( 38, Array<O> )
            FAM_T( 39, OMap<O> )
            FAM_T( 40, SMap<P> )
            FAM_T( 41, Array<SMap<C>> )
            FAM_T( 42, SMap<Array<C>> )
            FAM_T( 43, Vec<Array<O>> )
#undef FAM_T
        }
    }

    // one function per part, defined by each compilation of the harness
    using PartFn = void ( * )( Src&, Ctx&, uint32_t );
#define FAM_CAT2( a, b ) a##b
#define FAM_CAT( a, b ) FAM_CAT2( a, b )
    void part0( Src&, Ctx&, uint32_t );
    void part1( Src&, Ctx&, uint32_t );
    void part2( Src&, Ctx&, uint32_t );
    void part3( Src&, Ctx&, uint32_t );
    void part4( Src&, Ctx&, uint32_t );
    void part5( Src&, Ctx&, uint32_t );
    void part6( Src&, Ctx&, uint32_t );
    inline void runPart( Src& s, Ctx& c, uint32_t type )
    {
        switch ( type % FAM_PARTS )
        {
        case 0: part0( s, c, type ); break;
#if FAM_PARTS > 1
        case 1: part1( s, c, type ); break;
        case 2: part2( s, c, type ); break;
        case 3: part3( s, c, type ); break;
        case 4: part4( s, c, type ); break;
        case 5: part5( s, c, type ); break;
        case 6: part6( s, c, type ); break;
#endif
        }
    }
}
