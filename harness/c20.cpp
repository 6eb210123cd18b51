#include "types.h"
#include <algorithm>
#include <utility>

// ---------------------------------------------------------------- user types with functions written by hand
namespace fam
{
    // a text type of the user's own, stored as a JSON string
    struct Text
    {
        std::string s;
    };
    inline J::Status Validate( const J::Value* v, const Text& ) noexcept { return v->GetDataAsPointerTo<String<>>() ? J::Status::kOk : J::Status::kInvalidValueType; }
    inline J::Status Deserialize( const J::Value* v, Text& t ) noexcept
    {
        const String<>* p = v->GetDataAsPointerTo<String<>>();
        if ( !p ) return J::Status::kInvalidValueType;
        t.s = static_cast<const char*>( *p );
        return J::Status::kOk;
    }
    inline J::Status Serialize( J::Value* v, const Text& t ) noexcept
    {
        String<>* p = v->GetDataAsPointerTo<String<>>();
        if ( !p ) return J::Status::kInvalidValueType;
        *p = t.s.c_str();
        return J::Status::kOk;
    }
    inline void     make( Gen& g, Text& o ) { o.s = g.text(); }
    inline ref::Val enc( const Text& o ) { ref::Val v; v.kind = ref::kString; v.s = o.s; return v; }
    inline void     dec( const ref::Val& v, Text& o, Problems& p ) { if ( v.kind != ref::kString ) p.kind++; else o.s = v.s; }

    // any document whatever
    struct Dyn
    {
        ref::Val v;
    };
    inline J::Status Validate( const J::Value*, const Dyn& ) noexcept { return J::Status::kOk; }
    J::Status        Deserialize( const J::Value* v, Dyn& d );
    J::Status        Serialize( J::Value* v, const Dyn& d );
    inline void      make( Gen& g, Dyn& o ) { o.v = anyVal( g.s, 1 ); }
    inline ref::Val  enc( const Dyn& o ) { return o.v; }
    inline void      dec( const ref::Val& v, Dyn& o, Problems& ) { o.v = v; }

    // structure with members of both
    struct R
    {
        R() {}
        Text        t;
        Array<Text> at;
        Vec<Text>   vt;
        SMap<Text>  mt;
        OMap<Text>  ot;
        Dyn         d;
        Array<Dyn>  ad;
        Vec<Dyn>    vd;
        template <class V, class S> static void fields( V& v, S& o ) { v( "t", o.t ); v( "at", o.at ); v( "vt", o.vt ); v( "mt", o.mt ); v( "ot", o.ot ); v( "d", o.d ); v( "ad", o.ad ); v( "vd", o.vd ); }
    };
}
namespace C4::Json::Detail
{
    template <> inline Value* CreateValueFor( const fam::Text& ) noexcept( false ) { return CreateValueFor( Terathon::String<>() ); }
    template <> inline Value* CreateValueFor( const fam::Dyn& d ) noexcept( false )
    {
        switch ( d.v.kind )
        {
        case ref::kNull: return CreateValueFor( Null() );
        case ref::kBool: return CreateValueFor( bool() );
        case ref::kNumber: return CreateValueFor( double() );
        case ref::kString: return CreateValueFor( Terathon::String<>() );
        case ref::kArray: return new ArrayValue;
        default: return new ObjectValue;
        }
    }
}
namespace fam
{
#define FAM_R "t", object.t, "at", object.at, "vt", object.vt, "mt", object.mt, "ot", object.ot, "d", object.d, "ad", object.ad, "vd", object.vd
    DEFINE_JSON4C4_FUNCTIONS( R, FAM_R )

    J::Status Serialize( J::Value* v, const Dyn& d )
    {
        switch ( d.v.kind )
        {
        case ref::kNull: return J::Serialize( v, J::Null() );
        case ref::kBool: return J::Serialize( v, d.v.b );
        case ref::kNumber: return J::Serialize( v, d.v.d );
        case ref::kString: return J::Serialize( v, String<>( d.v.s.c_str() ) );
        case ref::kArray:
            for ( auto& e : d.v.a )
            {
                J::Status s = J::Serialize( v, "unused", Dyn { e } );
                if ( s != J::Status::kOk ) return s;
            }
            return J::Status::kOk;
        default:
            for ( auto& e : d.v.o )
            {
                const Dyn x { e.second };
                J::Status s = J::SerializeProto( v, e.first.c_str(), x );
                if ( s != J::Status::kOk ) return s;
            }
            return J::Status::kOk;
        }
    }
    J::Status Deserialize( const J::Value* v, Dyn& d )
    {
        pbt::Ctx c;
        d.v = toRef( v, c );
        // the tree visits members in ascending order, which need not be the order they were added in
        std::vector<ref::Val*> all;
        collect( d.v, all );
        for ( auto* x : all ) x->anyOrder = true;
        return J::Status::kOk;
    }
}

namespace pbt
{
    const char* const kProperty = "C20";
    const char* const kRule     = "Histories of 1 to 40 editing operations on two documents (also with hundreds of members) obtained by parsing or serialising: add a named value (22 types, also user types with hand-written functions and a value of any shape) to an object, array or scalar node, "
                                  "serialise into a node that already has content, assign scalars through the typed pointers, purge, insert elements directly, rearrange array elements and move them between containers and documents, give a part of the document as the value; read and validate "
                                  "single members, look names up, write; oracle: reference tree edited alongside, compared with both trees after every step (kinds, values, ascending iteration) and with the written file (member order included); "
                                  "non-trivial = history with at least three operations that changed a document; distinct by history.";
    void setup() {}

    using fam::Array;
    using fam::String;
    using J::Serialize;

    struct World
    {
        Src&              s;
        Ctx&              c;
        J::StructuredData sd[ 2 ];
        ref::Val          m[ 2 ];
        std::string       log;
        uint32_t          changes = 0;

        World( Src& s_, Ctx& c_ ) : s( s_ ), c( c_ ) {}
        [[noreturn]] void bad( const std::string& t ) { c.fail( t + "; history: " + log ); }

        void begin( int i )
        {
            if ( s.chance( 1, 2 ) )
            {
                std::string t = gen::document( s );
                ref::Result r = ref::parse( t );
                if ( r.ok && !r.open() && t.size() < 4000 )
                {
                    log += fmt( " %d.parse(%s)", i, quote( t, 200 ).c_str() );
                    if ( parseText( sd[ i ], t ).status != J::Status::kOk ) bad( "parse fails" );
                    m[ i ] = r.v;
                    return;
                }
            }
            fam::Dyn d;
            d.v = fam::anyVal( s );
            if ( s.chance( 1, 12 ) ) d.v = many();
            else if ( s.chance( 1, 3 ) ) { d.v = ref::Val(); d.v.kind = s.chance( 1, 2 ) ? ref::kObject : ref::kArray; }
            log += fmt( " %d.serialize(%s)", i, quote( ref::show( d.v ), 200 ).c_str() );
            if ( sd[ i ].SerializeFrom( d ) != J::Status::kOk ) bad( "serialising fails" );
            m[ i ] = d.v;
        }

        // a container with many members, sometimes inside another
        ref::Val many()
        {
            ref::Val v;
            v.kind     = s.chance( 2, 3 ) ? ref::kObject : ref::kArray;
            uint32_t n = 20 + s.below( 300 ), x = s.u16();
            for ( uint32_t i = 0; i < n; i++, x = x * 1103515245u + 12345u )
            {
                ref::Val e;
                e.kind = ref::Kind( x >> 16 & 3 );
                e.b    = x >> 20 & 1;
                e.d    = e.kind == ref::kNumber ? double( x >> 8 & 0xFFF ) : 0;
                if ( e.kind == ref::kString ) e.s = std::string( x >> 18 & 31, 's' );
                std::string nm = "m" + std::to_string( x >> 12 & 0xFFFFF );
                if ( v.kind == ref::kArray ) v.a.push_back( e );
                else if ( !v.find( nm ) ) v.o.emplace_back( nm, e );
            }
            if ( s.chance( 1, 2 ) ) return v;
            ref::Val w;
            w.kind = s.chance( 1, 2 ) ? ref::kObject : ref::kArray;
            if ( w.kind == ref::kObject ) w.o.emplace_back( "in", v );
            else w.a.push_back( v );
            return w;
        }

        // ---- a node of a model and the same node of the tree
        static void nodes( ref::Val& v, J::Value* x, std::vector<std::pair<ref::Val*, J::Value*>>& out )
        {
            out.push_back( { &v, x } );
            if ( !x ) return;
            if ( v.kind == ref::kArray )
            {
                auto* a = x->GetDataAsPointerTo<Array<J::Value*>>();
                if ( a && a->GetArrayElementCount() == int( v.a.size() ) )
                    for ( size_t i = 0; i < v.a.size(); i++ ) nodes( v.a[ i ], ( *a )[ int( i ) ], out );
            }
            if ( v.kind == ref::kObject )
                if ( auto* o = x->AsJsonObjectValue() )
                    for ( auto& e : v.o )
                        if ( J::Value* y = o->FindMapElement( String<>( e.first.c_str() ) ) ) nodes( e.second, y, out );
        }
        std::pair<ref::Val*, J::Value*> node( int i, int kind = -1 )
        {
            std::vector<std::pair<ref::Val*, J::Value*>> all, some;
            nodes( m[ i ], sd[ i ].GetRootJsonValue(), all );
            if ( kind >= 0 )
                for ( auto& n : all ) if ( n.first->kind == kind ) some.push_back( n );
            if ( some.empty() ) some = all;
            return some[ s.chance( 1, 3 ) ? 0 : s.below( uint32_t( some.size() ) ) ];
        }
        std::string memberName( const ref::Val& v, uint32_t knownOf10 )
        {
            if ( !v.o.empty() && s.chance( knownOf10, 10 ) ) return v.o[ s.below( uint32_t( v.o.size() ) ) ].first;
            return gen::name( s );
        }

        void compare( const char* op )
        {
            for ( int i = 0; i < 2; i++ )
            {
                const J::StructuredData& k = sd[ i ];
                if ( !k.GetRootJsonValue() ) bad( fmt( "document %d is gone after %s", i, op ) );
                ref::Val got = toRef( k.GetRootJsonValue(), c );
                if ( !ref::equal( m[ i ], got, false ) ) bad( fmt( "document %d is %s instead of %s after %s", i, quote( ref::show( got ) ).c_str(), quote( ref::show( m[ i ] ) ).c_str(), op ) );
                ascending( got );
            }
        }
        void ascending( const ref::Val& v )
        {
            for ( size_t j = 0; j < v.o.size(); j++ )
            {
                if ( j && v.o[ j - 1 ].first.compare( v.o[ j ].first ) >= 0 ) bad( "members are visited out of order" );
                ascending( v.o[ j ].second );
            }
            for ( auto& e : v.a ) ascending( e );
        }

        // ---- adding a value to a node
        template <class T> void add( int i, const char* type )
        {
            auto        n = node( i, s.chance( 1, 2 ) ? int( ref::kObject ) : s.chance( 1, 2 ) ? int( ref::kArray ) : -1 );
            std::string name = memberName( *n.first, 3 );
            fam::Box<T> b;
            fam::Gen    g { s, 8, 40 };
            if ( s.chance( 1, 40 ) ) g.huge = 10 + s.below( 200 );
            fam::make( g, b.v );
            ref::Val e = fam::enc( b.v );
            log += fmt( " %d.add(%s %s : %s %s)", i, quote( ref::show( *n.first ), 60 ).c_str(), quote( name ).c_str(), type, quote( ref::show( e ), 80 ).c_str() );
            J::Status st = s.chance( 1, 2 ) ? J::Serialize( n.second, name.c_str(), b.v ) : J::SerializeProto( n.second, name.c_str(), std::as_const( b.v ) );
            bool      ok = n.first->kind == ref::kObject || n.first->kind == ref::kArray;
            if ( st != ( ok ? J::Status::kOk : J::Status::kInvalidValueType ) ) bad( "adding a value reports " + statusText( st ) );
            if ( !ref::equal( e, fam::enc( b.v ), true ) ) bad( "adding a value changes it" );
            put( *n.first, name, e );
        }
        void put( ref::Val& to, const std::string& name, const ref::Val& e )
        {
            if ( to.kind == ref::kArray ) { to.a.push_back( e ); changes++; }
            if ( to.kind == ref::kObject && !to.find( name ) ) { to.o.emplace_back( name, e ); changes++; }
        }

        // ---- serialising into a node that has content already
        template <class T> static constexpr bool isStruct = std::is_same_v<T, fam::A> || std::is_same_v<T, fam::B> || std::is_same_v<T, fam::F> || std::is_same_v<T, fam::P> || std::is_same_v<T, fam::R>;
        template <class T> void replace( int i, const char* type )
        {
            fam::Box<T> b;
            fam::Gen    g { s, 8, 40 };
            if ( s.chance( 1, 40 ) ) g.huge = 10 + s.below( 200 );
            fam::make( g, b.v );
            ref::Val e = fam::enc( b.v );
            auto     n = node( i, s.chance( 4, 5 ) ? int( e.kind ) : -1 );
            log += fmt( " %d.into(%s : %s %s)", i, quote( ref::show( *n.first ), 60 ).c_str(), type, quote( ref::show( e ), 80 ).c_str() );
            J::Status st = s.chance( 1, 2 ) ? Serialize( n.second, b.v ) : J::SerializeProto( n.second, std::as_const( b.v ) );
            ref::Val& k  = *n.first;
            bool      ok = true;
            if constexpr ( std::is_same_v<T, fam::Dyn> )
            {
                if ( e.kind == ref::kArray && k.kind == ref::kObject ) for ( auto& x : e.a ) put( k, "unused", x );
                else if ( e.kind == ref::kObject && k.kind == ref::kArray ) for ( auto& x : e.o ) put( k, x.first, x.second );
                else if ( e.kind == ref::kArray && k.kind == ref::kArray ) for ( auto& x : e.a ) put( k, "", x );
                else if ( e.kind == ref::kObject && k.kind == ref::kObject ) for ( auto& x : e.o ) put( k, x.first, x.second );
                else if ( e.kind >= ref::kArray ) ok = e.a.empty() && e.o.empty();
                else ok = e.kind == k.kind;
                if ( ok && e.kind < ref::kArray ) { k = e; changes++; }
            }
            else if constexpr ( isStruct<T> )
            {
                if ( k.kind == ref::kObject || k.kind == ref::kArray ) for ( auto& x : e.o ) put( k, x.first, x.second );
                else ok = false;
            }
            else
            {
                ok = k.kind == e.kind;
                if ( ok ) { k = e; changes++; }
            }
            if ( st != ( ok ? J::Status::kOk : J::Status::kInvalidValueType ) ) bad( "serialising into a value reports " + statusText( st ) );
        }

        // ---- reading one member
        using Node = std::pair<ref::Val*, J::Value*>;
        template <class T> void read( int i, const char* type )
        {
            auto n = node( i, s.chance( 4, 5 ) ? int( ref::kObject ) : -1 );
            read<T>( i, type, n, memberName( *n.first, 8 ) );
        }
        void readFitting( int i )
        {
            using namespace fam;
            auto        n    = node( i, ref::kObject );
            std::string name = memberName( *n.first, 9 );
            auto*       e    = n.first->kind == ref::kObject ? n.first->find( name ) : nullptr;
            switch ( e ? int( e->kind ) : -1 )
            {
            case ref::kNull: read<J::Null>( i, "Null", n, name ); break;
            case ref::kBool: read<bool>( i, "bool", n, name ); break;
            case ref::kNumber: read<double>( i, "double", n, name ); break;
            case ref::kString:
                if ( s.chance( 1, 3 ) ) read<String<>>( i, "String<>", n, name );
                else if ( s.chance( 1, 2 ) ) read<Text>( i, "Text", n, name );
                else read<std::string>( i, "std::string", n, name );
                break;
            case ref::kArray:
                switch ( s.below( 4 ) )
                {
                case 0: read<Array<Dyn>>( i, "Array<Dyn>", n, name ); break;
                case 1: read<Vec<Dyn>>( i, "Vec<Dyn>", n, name ); break;
                case 2: read<Array<String<>>>( i, "Array<String<>>", n, name ); break;
                default: read<Vec<double>>( i, "Vec<double>", n, name );
                }
                break;
            case ref::kObject:
                switch ( s.below( 6 ) )
                {
                case 0: read<Dyn>( i, "Dyn", n, name ); break;
                case 1: read<A>( i, "A", n, name ); break;
                case 2: read<R>( i, "R", n, name ); break;
                case 3: read<SMap<double>>( i, "SMap<double>", n, name ); break;
                case 4: read<OMap<String<>>>( i, "OMap<String<>>", n, name ); break;
                default: read<B>( i, "B", n, name );
                }
                break;
            default: read<Dyn>( i, "Dyn", n, name );
            }
        }
        template <class T> void read( int i, const char* type, Node n, const std::string& name )
        {
            log += fmt( " %d.read(%s %s)", i, quote( name ).c_str(), type );
            fam::Box<T>   lib, model;
            fam::Problems p;
            const ref::Val* e = n.first->kind == ref::kObject ? n.first->find( name ) : nullptr;
            const J::Value* v = n.second;
            J::Status     val = J::Validate( v, name.c_str(), lib.v ), des = s.chance( 1, 2 ) ? J::Deserialize( v, name.c_str(), lib.v ) : J::DeserializeProto( v, name.c_str(), lib.v );
            if ( !e )
            {
                J::Status want = n.first->kind == ref::kObject ? J::Status::kNameNotPresent : J::Status::kInvalidValueType;
                if ( val != want || des != want ) bad( fmt( "reading a name that is not there gives %u and %u", unsigned( val ), unsigned( des ) ) );
                if ( !ref::equal( fam::enc( model.v ), fam::enc( lib.v ), true ) ) bad( "reading a name that is not there changes the object" );
                return;
            }
            fam::dec( *e, model.v, p );
            if ( ( val == J::Status::kOk ) != p.none() || ( des == J::Status::kOk ) != p.none() ) bad( fmt( "validation gives %u, deserialisation %u; wrong kinds %u, missing names %u", unsigned( val ), unsigned( des ), p.kind, p.missing ) );
            if ( p.none() )
            {
                c.label( "conforming-reads" );
                if ( !ref::equal( fam::enc( model.v ), fam::enc( lib.v ), true ) ) bad( "member reads as " + quote( ref::show( fam::enc( lib.v ) ) ) );
            }
        }

        void opScalar( int i )
        {
            auto n = node( i, int( s.below( 4 ) ) );
            log += fmt( " %d.set(%s)", i, quote( ref::show( *n.first ), 40 ).c_str() );
            std::string t = gen::text( s, 120 );
            double      x = fam::finite( s );
            ref::Val&   k = *n.first;
            if ( auto* p = n.second->GetDataAsPointerTo<String<>>() )
            {
                switch ( s.below( 3 ) )
                {
                case 0: *p = t.c_str(); k.s = t; break;
                case 1: *p += t.c_str(); k.s += t; break;
                default: *p += *p; k.s += k.s; break;
                }
                if ( k.s.size() > 20000 ) { k.s.clear(); p->PurgeString(); }
                changes++;
            }
            else if ( auto* d = n.second->GetDataAsPointerTo<double>() ) { *d = x; k.d = x; changes++; }
            else if ( auto* b = n.second->GetDataAsPointerTo<bool>() ) { *b = !*b; k.b = !k.b; changes++; }
        }
        void opPurge( int i )
        {
            auto n = node( i, s.chance( 1, 2 ) ? ref::kObject : ref::kArray );
            log += fmt( " %d.purge(%s)", i, quote( ref::show( *n.first ), 40 ).c_str() );
            if ( auto* o = n.second->AsJsonObjectValue() ) { o->PurgeObject(); n.first->o.clear(); changes++; }
            else if ( auto* a = n.second->GetDataAsPointerTo<Array<J::Value*>>() )
            {
                for ( int j = 0; j < a->GetArrayElementCount(); j++ ) delete ( *a )[ j ];
                a->ClearArray();
                n.first->a.clear();
                changes++;
            }
        }
        // a value made outside any document
        J::Value* fresh( ref::Val& e )
        {
            e = fam::anyVal( s );
            fam::Dyn  d { e };
            J::Value* v = J::Detail::CreateValueFor( d );
            if ( Serialize( v, d ) != J::Status::kOk ) bad( "serialising into a new value fails" );
            return v;
        }
        void attach( int i, J::Value* v, const ref::Val& e )
        {
            auto n = node( i, s.chance( 1, 2 ) ? ref::kObject : ref::kArray );
            if ( auto* o = n.second->AsJsonObjectValue() )
            {
                std::string name = memberName( *n.first, 2 );
                v->name          = name.c_str();
                log += fmt( " as %s", quote( name ).c_str() );
                bool had = n.first->find( name ) != nullptr;
                bool ins = o->InsertAccountedMapElement( v );
                if ( ins == had ) bad( fmt( "inserting a member reports %d, name present before: %d", int( ins ), int( had ) ) );
                if ( !ins ) { delete v; return; }
                if ( static_cast<const J::ObjectValue*>( o )->FindMapElement( String<>( name.c_str() ) ) != v ) bad( "an inserted member is not found" );
                put( *n.first, name, e );
            }
            else if ( auto* a = n.second->GetDataAsPointerTo<Array<J::Value*>>() )
            {
                uint32_t at = s.below( uint32_t( n.first->a.size() ) + 1 );
                log += fmt( " at %u", at );
                if ( at == n.first->a.size() ) a->AppendArrayElement( v );
                else a->InsertArrayElement( int( at ), v );
                n.first->a.insert( n.first->a.begin() + at, e );
                changes++;
            }
            else delete v;
        }
        void opInsert( int i )
        {
            ref::Val  e;
            J::Value* v = fresh( e );
            log += fmt( " %d.insert(%s)", i, quote( ref::show( e ), 60 ).c_str() );
            attach( i, v, e );
        }
        void opArray( int i )
        {
            auto n = node( i, ref::kArray );
            auto* a = n.second->GetDataAsPointerTo<Array<J::Value*>>();
            if ( !a || n.first->a.empty() ) return;
            auto&    k = n.first->a;
            uint32_t x = s.below( uint32_t( k.size() ) ), y = s.below( uint32_t( k.size() ) );
            switch ( s.below( 3 ) )
            {
            case 0:
                log += fmt( " %d.swap(%u,%u)", i, x, y );
                std::swap( ( *a )[ int( x ) ], ( *a )[ int( y ) ] );
                std::swap( k[ x ], k[ y ] );
                break;
            case 1:
                log += fmt( " %d.remove(%u)", i, x );
                delete ( *a )[ int( x ) ];
                a->RemoveArrayElement( int( x ) );
                k.erase( k.begin() + x );
                break;
            default:
            {
                log += fmt( " %d.move(%u", i, x );
                J::Value* v = ( *a )[ int( x ) ];
                ref::Val  e = k[ x ];
                a->RemoveArrayElement( int( x ) );
                k.erase( k.begin() + x );
                int j = int( s.below( 2 ) );
                log += fmt( " to %d", j );
                attach( j, v, e );
                log += ")";
            }
            }
            changes++;
        }
        void opFind( int i )
        {
            auto  n = node( i, ref::kObject );
            const J::ObjectValue* o = const_cast<const J::Value*>( n.second )->AsJsonObjectValue();
            if ( !o ) return;
            std::string     name = memberName( *n.first, 8 );
            const char*     nm   = name.c_str();
            const ref::Val* e    = n.first->find( name );
            int             k    = e ? int( e->kind ) : -1;
            log += fmt( " %d.find(%s)", i, quote( name ).c_str() );
            auto* fs = o->FindString( nm );
            auto* fn = o->FindNumber( nm );
            auto* fb = o->FindBool( nm );
            auto* fa = o->FindJsonValueArray( nm );
            auto* fo = o->FindJsonObjectValue( nm );
            auto* fz = o->FindJsonNull( nm );
            if ( ( fs != nullptr ) != ( k == ref::kString ) || ( fn != nullptr ) != ( k == ref::kNumber ) || ( fb != nullptr ) != ( k == ref::kBool ) || ( fa != nullptr ) != ( k == ref::kArray ) ||
                 ( fo != nullptr ) != ( k == ref::kObject ) || ( fz != nullptr ) != ( k == ref::kNull ) ) bad( "a finder gives the wrong answer for " + quote( name ) );
            if ( fs && str( *fs, c ) != e->s ) bad( "FindString gives another text" );
            if ( fn && !ref::sameNumber( *fn, e->d ) ) bad( "FindNumber gives another number" );
            if ( fb && *fb != e->b ) bad( "FindBool gives another value" );
            if ( fa && fa->GetArrayElementCount() != int( e->a.size() ) ) bad( "FindJsonValueArray gives another array" );
            if ( fo && fo->GetMapElementCount() != int( e->o.size() ) ) bad( "FindJsonObjectValue gives another object" );
        }
        void opWrite( int i )
        {
            log += fmt( " %d.write", i );
            std::string f  = scratchDir() + "/w.json";
            uint32_t    iw = s.below( 4 );
            J::Status   st = sd[ i ].Write( f.c_str(), iw );
            std::string t  = slurp( f );
            if ( st != J::Status::kOk ) bad( "writing reports " + statusText( st ) );
            ref::Result r = ref::parse( t );
            if ( !r.ok || r.dups ) bad( "the written text is not valid: " + quote( t ) );
            if ( !ref::equal( m[ i ], r.v, true ) ) bad( "the written text is " + quote( t ) + " instead of " + quote( ref::show( m[ i ] ) ) );
            std::string p = indentProblem( t, iw, ' ' );
            if ( !p.empty() ) bad( p + " in " + quote( t ) );
            if ( t.size() <= 65534 )
            {
                J::StructuredData o;
                if ( o.Parse( f.c_str() ).status != J::Status::kOk ) bad( "the written text is rejected: " + quote( t ) );
                if ( !ref::equal( m[ i ], toRef( o.GetRootJsonValue(), c ), false ) ) bad( "the written text reads as another document: " + quote( t ) );
            }
            unlink( f.c_str() );
        }
        // the whole document through a user type
        void opWhole( int i )
        {
            log += fmt( " %d.copy", i );
            fam::Dyn d;
            if ( J::Validate( sd[ i ], d ) != J::Status::kOk || sd[ i ].DeserializeTo( d ) != J::Status::kOk ) bad( "reading the whole document fails" );
            int j = int( s.below( 2 ) );
            fam::Dyn e { m[ i ] };
            if ( sd[ j ].SerializeFrom( e ) != J::Status::kOk ) bad( "serialising the whole document fails" );
            m[ j ] = e.v;
            changes++;
        }
        // the value given is itself a part of the document
        template <class T> void own( int i, const Node& n, T* part )
        {
            const ref::Val e = *n.first;
            switch ( s.below( 4 ) )
            {
            case 0:
            {
                auto        to   = node( i, s.chance( 1, 2 ) ? ref::kObject : ref::kArray );
                std::string name = memberName( *to.first, 3 );
                log += fmt( " %d.add(%s : own %s)", i, quote( name ).c_str(), quote( ref::show( e ), 40 ).c_str() );
                bool      ok = to.first->kind == ref::kObject || to.first->kind == ref::kArray;
                J::Status st = J::Serialize( to.second, name.c_str(), *part );
                if ( st != ( ok ? J::Status::kOk : J::Status::kInvalidValueType ) ) bad( "adding an own value reports " + statusText( st ) );
                put( *to.first, name, e );
                break;
            }
            case 1:
            {
                auto to = s.chance( 1, 3 ) ? n : node( i, int( e.kind ) );
                log += fmt( " %d.into(%s : own %s)", i, quote( ref::show( *to.first ), 40 ).c_str(), quote( ref::show( e ), 40 ).c_str() );
                bool      ok = to.first->kind == e.kind;
                J::Status st = J::Serialize( to.second, *part );
                if ( st != ( ok ? J::Status::kOk : J::Status::kInvalidValueType ) ) bad( "serialising an own value reports " + statusText( st ) );
                if ( ok ) *to.first = e;
                break;
            }
            case 2:
            {
                auto from = s.chance( 1, 3 ) ? n : node( i, int( e.kind ) );
                log += fmt( " %d.read(%s to own %s)", i, quote( ref::show( *from.first ), 40 ).c_str(), quote( ref::show( e ), 40 ).c_str() );
                bool      ok = from.first->kind == e.kind;
                J::Status st = J::Deserialize( static_cast<const J::Value*>( from.second ), *part );
                if ( st != ( ok ? J::Status::kOk : J::Status::kInvalidValueType ) ) bad( "reading into an own value reports " + statusText( st ) );
                if ( ok ) { ref::Val v = *from.first; *n.first = v; }
                break;
            }
            default:
                if ( !s.chance( 1, 4 ) ) return;
                log += fmt( " %d.becomes(own %s)", i, quote( ref::show( e ), 40 ).c_str() );
                if ( sd[ i ].SerializeFrom( *part ) != J::Status::kOk ) bad( "serialising a part of the document fails" );
                m[ i ] = e;
            }
            changes++;
        }
        void opOwn( int i )
        {
            auto n = node( i, int( 1 + s.below( 3 ) ) );
            if ( auto* p = n.second->GetDataAsPointerTo<String<>>() ) own( i, n, p );
            else if ( auto* d = n.second->GetDataAsPointerTo<double>() ) own( i, n, d );
            else if ( auto* b = n.second->GetDataAsPointerTo<bool>() ) own( i, n, b );
        }
        size_t size( const ref::Val& v )
        {
            size_t n = 1;
            for ( auto& e : v.a ) n += size( e );
            for ( auto& e : v.o ) n += size( e.second );
            return n;
        }

        template <class T> void typed( uint32_t what, int i, const char* type )
        {
            if ( what == 0 ) add<T>( i, type );
            else if ( what == 1 ) replace<T>( i, type );
            else read<T>( i, type );
        }
        void typed( uint32_t what, int i )
        {
            using namespace fam;
            switch ( s.below( 22 ) )
            {
#define C20_T( N, ... ) case N: typed<__VA_ARGS__>( what, i, #__VA_ARGS__ ); break;
                C20_T( 0, double )
                C20_T( 1, String<> )
                C20_T( 2, Dyn )
                C20_T( 3, bool )
                C20_T( 4, J::Null )
                C20_T( 5, std::string )
                C20_T( 6, Text )
                C20_T( 7, Array<double> )
                C20_T( 8, Vec<double> )
                C20_T( 9, SMap<double> )
                C20_T( 10, OMap<double> )
                C20_T( 11, Array<String<>> )
                C20_T( 12, Vec<std::string> )
                C20_T( 13, OMap<String<>> )
                C20_T( 14, A )
                C20_T( 15, B )
                C20_T( 16, F )
                C20_T( 17, P )
                C20_T( 18, R )
                C20_T( 19, SMap<Text> )
                C20_T( 20, Array<A> )
                default: typed<SMap<B>>( what, i, "SMap<B>" );
#undef C20_T
            }
        }
    };

    void runCase( Src& s, Ctx& c )
    {
        World w( s, c );
        w.begin( 0 );
        w.begin( 1 );
        w.compare( "the start" );
        uint32_t n = 1 + s.len( 40 );
        for ( uint32_t j = 0; j < n; j++ )
        {
            int         i  = int( s.pick( { 3, 1 } ) );
            const char* op = "?";
            switch ( s.pick( { 8, 5, 4, 3, 1, 3, 3, 3, 3, 1, 2 } ) )
            {
            case 0: op = "adding"; w.typed( 0, i ); break;
            case 1: op = "serialising into a value"; w.typed( 1, i ); break;
            case 2: op = "reading a member"; if ( s.chance( 2, 3 ) ) w.readFitting( i ); else w.typed( 2, i ); break;
            case 3: op = "setting a scalar"; w.opScalar( i ); break;
            case 4: op = "purging"; w.opPurge( i ); break;
            case 5: op = "inserting"; w.opInsert( i ); break;
            case 6: op = "rearranging an array"; w.opArray( i ); break;
            case 7: op = "finding"; w.opFind( i ); break;
            case 8: op = "writing"; w.opWrite( i ); break;
            case 10: op = "own values"; w.opOwn( i ); break;
            default: op = "copying"; w.opWhole( i ); break;
            }
            c.label( op );
            w.compare( op );
            if ( w.size( w.m[ i ] ) > 800 ) break;
        }
        w.opWrite( 0 );
        w.opWrite( 1 );
        c.evals = n;
        c.input( w.log );
        c.noteLazy( [ & ] { return w.log; } );
        c.nontrivial = w.changes >= 3;
    }
}
