#include "types.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <cmath>
#include <memory>
#include <tuple>
namespace pbt
{
    const char* const kProperty = "C12";
    const char* const kRule     = "Histories of 1 to 60 operations on three document objects that share files: parse text or file (valid, damaged, empty, unterminated, missing, oversized), serialise values of 9 types (also ones whose user function reports an error "
                                  "or throws part way), validate and deserialise into fresh and reused objects, write, edit through the tree, destroy and recreate; oracle per step: reference model of every document and file, the same step on a fresh object that "
                                  "holds the same document, the other objects unchanged, allocation balance at the end; non-trivial = history with at least three effective operations on one object, one of them after a failure or a replaced document; "
                                  "distinct by history.";
    void setup() {}

    // a structure whose functions fail at a chosen place
    struct Fragile
    {
        Fragile() {}
        fam::A                inner;
        mutable uint32_t      count = 0;
        uint32_t              failAt = 0, how = 0;
        fam::Array<fam::A>    list;
    };
    struct Oops {};
    static J::Status tick( const Fragile& f )
    {
        if ( f.count++ != f.failAt ) return J::Status::kOk;
        if ( f.how ) throw Oops();
        return J::Status::kMissingObjectElement;
    }
    J::Status Serialize( J::Value* v, const Fragile& o )
    {
        J::Status s = tick( o );
        if ( s != J::Status::kOk ) return s;
        s = J::SerializeProto( v, "inner", o.inner );
        if ( s != J::Status::kOk ) return s;
        if ( ( s = tick( o ) ) != J::Status::kOk ) return s;
        s = J::SerializeProto( v, "list", o.list );
        if ( s != J::Status::kOk ) return s;
        return tick( o );
    }
    J::Status Deserialize( const J::Value* v, Fragile& o )
    {
        J::Status s = tick( o );
        if ( s != J::Status::kOk ) return s;
        s = J::DeserializeProto( v, "inner", o.inner );
        if ( s != J::Status::kOk ) return s;
        if ( ( s = tick( o ) ) != J::Status::kOk ) return s;
        return J::DeserializeProto( v, "list", o.list );
    }
    J::Status Validate( const J::Value* v, const Fragile& o )
    {
        J::Status s = tick( o );
        if ( s != J::Status::kOk ) return s;
        return J::ValidateProto( v, "inner", o.inner, "list", o.list );
    }
    // contained in other structures
    struct Holder
    {
        Holder() {}
        double               x = 1;
        fam::Array<Fragile>  many;
        fam::Vec<Fragile>    vec;
        fam::SMap<Fragile>   map;
        fam::OMap<Fragile>   omap;
        Fragile              one;
    };
#define C12_HOLDER "x", object.x, "many", object.many, "vec", object.vec, "map", object.map, "omap", object.omap, "one", object.one
    DEFINE_JSON4C4_FUNCTIONS( Holder, C12_HOLDER )

    // a structure that can never be read
    struct Always
    {
        Always() {}
        static uint32_t how;
        fam::A          content;
        J::Status fail() const
        {
            if ( how ) throw Oops();
            return J::Status::kMissingObjectElement;
        }
        J::Status Deserialize( const J::Value* ) { return fail(); }
        J::Status Validate( const J::Value* ) const { return fail(); }
        J::Status Serialize( J::Value* ) const { return fail(); }
    };
    uint32_t Always::how = 0;
    struct AlwaysHolder
    {
        AlwaysHolder() {}
        fam::Array<Always> a;
        fam::Vec<Always>   v;
        fam::SMap<Always>  m;
        fam::OMap<Always>  o;
    };
#define C12_ALWAYS "a", object.a, "v", object.v, "m", object.m, "o", object.o
    DEFINE_JSON4C4_FUNCTIONS( AlwaysHolder, C12_ALWAYS )

    using Make = std::function<void( J::StructuredData& )>;

    struct Doc
    {
        std::unique_ptr<J::StructuredData> sd { new J::StructuredData };
        bool                               has = false; // holds a document
        ref::Val                           v;
        std::vector<Make>                  recipe; // how to obtain this document on a fresh object
        uint32_t                           ops = 0, eventful = 0;
    };

    template <class T> struct Dest
    {
        fam::Box<T> lib, model;
    };

    struct World
    {
        Src&        s;
        Ctx&        c;
        Doc         d[ 3 ];
        std::string fileName[ 3 ];
        bool        fileThere[ 3 ] = {};
        std::string fileText[ 3 ];
        std::string log;

        World( Src& s_, Ctx& c_ ) : s( s_ ), c( c_ )
        {
            for ( int i = 0; i < 3; i++ ) { fileName[ i ] = scratchDir() + "/f" + std::to_string( i ) + ".json"; unlink( fileName[ i ].c_str() ); }
        }
        ~World() { for ( auto& f : fileName ) unlink( f.c_str() ); }

        void bad( const std::string& m ) { c.fail( m + "; history: " + log ); }
        void fresh( const Doc& k, J::StructuredData& out ) { for ( auto& m : k.recipe ) m( out ); }

        // every object still holds what it should
        void all( const char* op )
        {
            for ( int i = 0; i < 3; i++ )
            {
                const J::StructuredData& sd = *d[ i ].sd;
                if ( !d[ i ].has )
                {
                    if ( sd.GetRootJsonValue() ) bad( fmt( "object %d holds a document after %s", i, op ) );
                    continue;
                }
                if ( !sd.GetRootJsonValue() ) bad( fmt( "object %d holds no document after %s", i, op ) );
                ref::Val got = toRef( sd.GetRootJsonValue(), c );
                if ( !ref::equal( d[ i ].v, got, false ) ) bad( fmt( "object %d holds %s instead of %s after %s", i, quote( ref::show( got ) ).c_str(), quote( ref::show( d[ i ].v ) ).c_str(), op ) );
            }
        }

        std::string text()
        {
            gen::TextClass cls;
            gen::Opt       o;
            switch ( s.pick( { 5, 3, 2, 1 } ) )
            {
            case 0: return gen::document( s );
            case 1: { std::string t = gen::document( s ); gen::mutate( s, t ); return t; }
            case 2: { std::string t; fam::render( s, s.chance( 1, 2 ) ? fam::anyVal( s ) : typed(), t, true ); return t; }
            default: return gen::anyText( s, cls );
            }
        }
        ref::Val typed()
        {
            fam::Gen g { s, 8, 24 };
            ref::Val v;
            switch ( s.below( 4 ) )
            {
            case 0: { fam::A x; fam::make( g, x ); v = fam::enc( x ); break; }
            case 1: { fam::C x; fam::make( g, x ); v = fam::enc( x ); break; }
            case 2: { fam::Array<double> x; fam::make( g, x ); v = fam::enc( x ); break; }
            default: { fam::SMap<double> x; fam::make( g, x ); v = fam::enc( x ); break; }
            }
            if ( s.chance( 1, 4 ) ) fam::edit( s, v );
            return v;
        }

        // outcome of a parse of t (nullptr: no text could be obtained)
        void parsed( int i, const J::ParseResult& got, const std::string* t, const J::ParseResult& alone, const J::StructuredData& other, bool keepAllowed )
        {
            Doc& k = d[ i ];
            if ( got.status != alone.status || got.errorLine != alone.errorLine || got.errorColumn != alone.errorColumn )
                bad( fmt( "parse gives status %u at %d:%d, on a fresh object %u at %d:%d", unsigned( got.status ), int( got.errorLine ), int( got.errorColumn ), unsigned( alone.status ), int( alone.errorLine ), int( alone.errorColumn ) ) );
            if ( got.status == J::Status::kOk )
            {
                ref::Result r = ref::parse( *t );
                if ( k.ops ) k.eventful++;
                k.has = true;
                k.v   = r.ok && !r.open() ? r.v : toRef( other.GetRootJsonValue(), c );
                std::string copy = *t;
                k.recipe.assign( 1, [ copy ]( J::StructuredData& x ) { parseText( x, copy ); } );
                return;
            }
            if ( k.has ) k.eventful++;
            if ( keepAllowed && k.has && d[ i ].sd->GetRootJsonValue() ) return; // the previous document may stay
            k.has = false;
            k.recipe.clear();
        }

        // a text of the same length that differs in a letter or digit
        std::string sameLength( std::string t )
        {
            for ( int k = 0; k < 20 && !t.empty(); k++ )
            {
                char& ch = t[ s.below( uint32_t( t.size() ) ) ];
                if ( ch >= '1' && ch <= '8' ) { ch++; break; }
                if ( ch >= 'a' && ch <= 'z' ) { ch = char( 'a' + s.below( 26 ) ); break; }
            }
            return t;
        }
        // a buffer that the caller keeps and fills again
        fam::Array<char> kept[ 2 ];
        std::string keptText[ 2 ];
        void opParseKept( int i )
        {
            uint32_t    j    = s.below( 2 );
            std::string t    = s.chance( 2, 3 ) && !keptText[ j ].empty() ? sameLength( keptText[ j ] ) : text();
            if ( t.empty() || t.size() > 4000 ) t = "[1]";
            keptText[ j ] = t;
            if ( kept[ j ].GetArrayElementCount() != int( t.size() ) + 1 ) kept[ j ].SetArrayElementCount( int( t.size() ) + 1, 0 );
            if ( s.chance( 1, 2 ) )
            {
                // the previous content first, with nothing in between
                log += fmt( " %d.parse-before", i );
                d[ i ].sd->Parse( kept[ j ] );
            }
            memcpy( kept[ j ].begin(), t.c_str(), t.size() + 1 );
            log += fmt( " %d.parseKept%u(%s)", i, j, quote( t, 120 ).c_str() );
            Buf               b( t );
            J::StructuredData other;
            J::ParseResult    got = d[ i ].sd->Parse( kept[ j ] ), alone = other.Parse( b.a );
            parsed( i, got, &t, alone, other, false );
        }
        void opParseText( int i )
        {
            if ( s.chance( 1, 3 ) ) { opParseKept( i ); return; }
            std::string t    = text();
            bool        term = !s.chance( 1, 20 );
            if ( s.chance( 1, 25 ) ) t.clear();
            log += fmt( " %d.parse(%s%s)", i, quote( t, 120 ).c_str(), term ? "" : " unterminated" );
            if ( !t.empty() && !term && t.back() == 0 ) term = true;
            Buf               b( t, term ), b2( t, term );
            J::StructuredData other;
            J::ParseResult    got = d[ i ].sd->Parse( b.a ), alone = other.Parse( b2.a );
            parsed( i, got, &t, alone, other, t.empty() || !term );
        }
        void opParseFile( int i )
        {
            uint32_t f = s.below( 3 );
            uint32_t w = s.pick( { 4, 3, 1, 1 } );
            if ( w == 1 )
            {
                // a new content, or one that looks like the old one from outside
                struct stat was {};
                bool        alike = fileThere[ f ] && fileText[ f ].size() < 4000 && s.chance( 1, 2 ) && stat( fileName[ f ].c_str(), &was ) == 0;
                if ( alike && s.chance( 1, 2 ) )
                {
                    log += fmt( " %d.parseFile-before(f%u)", i, f );
                    d[ i ].sd->Parse( fileName[ f ].c_str() );
                }
                fileText[ f ]     = alike ? sameLength( fileText[ f ] ) : text();
                fileThere[ f ]    = true;
                spew( fileName[ f ], fileText[ f ] );
                if ( alike )
                {
                    timespec ts[ 2 ] = { was.st_atim, was.st_mtim };
                    utimensat( AT_FDCWD, fileName[ f ].c_str(), ts, 0 );
                }
            }
            if ( w == 2 ) { fileText[ f ] = "[" + std::string( 65536 + s.below( 10 ), ' ' ) + "]"; fileThere[ f ] = true; spew( fileName[ f ], fileText[ f ] ); }
            std::string name = w == 3 ? scratchDir() + "/absent.json" : fileName[ f ];
            bool        there = w == 3 ? false : fileThere[ f ];
            log += fmt( " %d.parseFile(%s)", i, there ? quote( fileText[ f ], 120 ).c_str() : "missing" );
            J::StructuredData other;
            J::ParseResult    got = d[ i ].sd->Parse( name.c_str() ), alone = other.Parse( name.c_str() );
            if ( !there && got.status == J::Status::kOk ) bad( "a missing file parses" );
            parsed( i, got, there ? &fileText[ f ] : nullptr, alone, other, !there || fileText[ f ].size() > 65534 || fileText[ f ].empty() );
        }

        template <class T> void opSerialize( int i, const char* name )
        {
            auto     b = std::make_shared<fam::Box<T>>();
            fam::Gen g { s, 12, 30 };
            fam::make( g, b->v );
            ref::Val want = fam::enc( b->v );
            log += fmt( " %d.serialize(%s %s)", i, name, quote( ref::show( want ), 100 ).c_str() );
            Doc&      k  = d[ i ];
            J::Status st = k.sd->SerializeFrom( b->v );
            if ( st != J::Status::kOk ) bad( "serialising reports " + statusText( st ) );
            if ( k.ops ) k.eventful++;
            k.has = true;
            k.v   = want;
            k.recipe.assign( 1, [ b ]( J::StructuredData& x ) { x.SerializeFrom( b->v ); } );
        }
        template <class T> void expectFailure( int i, T& f, Fragile& w )
        {
            Doc&              k = d[ i ];
            J::StructuredData other;
            J::Status         a = k.sd->SerializeFrom( f );
            w.count             = 0;
            J::Status b         = other.SerializeFrom( f );
            if ( a == J::Status::kOk ) bad( "a serialisation that failed inside reports success" );
            if ( a != b ) bad( fmt( "a failing serialisation gives status %u, on a fresh object %u", unsigned( a ), unsigned( b ) ) );
            k.eventful++;
            k.has = false;
            k.recipe.clear();
        }
        void opSerializeBad( int i )
        {
            fam::Gen g { s, 6, 20 };
            auto     setup = [ & ]( Fragile& f ) { fam::make( g, f.inner ); fam::make( g, f.list ); f.failAt = 99; };
            if ( s.chance( 1, 2 ) )
            {
                Fragile f;
                setup( f );
                f.failAt = s.below( 3 );
                f.how    = s.below( 2 );
                log += fmt( " %d.serializeFailing(at %u%s)", i, f.failAt, f.how ? " throwing" : "" );
                expectFailure( i, f, f );
                return;
            }
            Holder   h;
            uint32_t n = s.below( 4 );
            setup( h.one );
            std::vector<Fragile*> at { &h.one };
            h.vec.reserve( 8 );
            h.many.ReserveArrayElementCount( 8 );
            for ( uint32_t j = 0; j < n; j++ )
            {
                Fragile f;
                setup( f );
                switch ( s.below( 4 ) )
                {
                case 0: h.many.AppendArrayElement( f ); at.push_back( &h.many[ h.many.GetArrayElementCount() - 1 ] ); break;
                case 1: h.vec.push_back( f ); at.push_back( &h.vec.back() ); break;
                case 2: setup( h.map[ std::to_string( j ) ] ); at.push_back( &h.map[ std::to_string( j ) ] ); break;
                default:
                {
                    auto* e = new J::ObjectMapElement<Fragile>;
                    e->name = int( j );
                    setup( e->data );
                    h.omap.InsertMapElement( e );
                    at.push_back( &e->data );
                }
                }
            }
            uint32_t which = s.below( n + 1 );
            Fragile& w     = *at[ which ];
            w.failAt       = s.below( 3 );
            w.how          = s.below( 2 );
            log += fmt( " %d.serializeFailing(member %u of %u at %u%s)", i, which, n + 1, w.failAt, w.how ? " throwing" : "" );
            expectFailure( i, h, w );
        }
        void opReadBad( int i )
        {
            // user functions that fail while reading: an error, and the document stays
            if ( s.chance( 1, 2 ) )
            {
                // every new element fails, deep inside containers
                Always::how = s.below( 2 );
                AlwaysHolder h;
                J::StructuredData other;
                static const char* const docs[] = { "{\"a\":[1],\"v\":[],\"m\":{},\"o\":{}}", "{\"a\":[],\"v\":[{},{}],\"m\":{},\"o\":{}}", "{\"a\":[],\"v\":[],\"m\":{\"k\":0},\"o\":{}}", "{\"a\":[],\"v\":[],\"m\":{},\"o\":{\"k\":0,\"l\":1}}" };
                parseText( other, s.oneOf( docs ) );
                bool val = s.chance( 1, 2 );
                log += fmt( " other.%sFailing%s", val ? "validate" : "deserialize", Always::how ? "(throwing)" : "" );
                J::Status st = val ? J::Validate( other, h ) : other.DeserializeTo( h );
                if ( st == J::Status::kOk ) bad( "a failing user function is reported as success" );
                return;
            }
            Fragile f;
            f.failAt = s.below( 2 );
            f.how    = s.below( 2 );
            bool val = s.chance( 1, 2 );
            if ( val ) f.failAt = 0;
            log += fmt( " %d.%sFailing(at %u%s)", i, val ? "validate" : "deserialize", f.failAt, f.how ? " throwing" : "" );
            J::Status st = val ? J::Validate( *d[ i ].sd, f ) : d[ i ].sd->DeserializeTo( f );
            if ( st == J::Status::kOk ) bad( "a failing user function is reported as success" );
        }

        template <class T> void opRead( int i, const char* name, Dest<T>& dest )
        {
            Doc& k = d[ i ];
            bool reuse = s.chance( 1, 2 );
            log += fmt( " %d.read(%s%s)", i, name, reuse ? " reused" : "" );
            J::StructuredData other;
            fresh( k, other );
            fam::Box<T>   mine, alone;
            fam::Problems p;
            J::Status     v1 = J::Validate( *k.sd, mine.v ), v2 = J::Validate( other, alone.v );
            J::Status     r1 = k.sd->DeserializeTo( mine.v ), r2 = other.DeserializeTo( alone.v );
            if ( v1 != v2 || r1 != r2 ) bad( fmt( "validation gives %u, deserialisation %u; on a fresh object %u and %u", unsigned( v1 ), unsigned( r1 ), unsigned( v2 ), unsigned( r2 ) ) );
            if ( !k.has )
            {
                if ( v1 == J::Status::kOk || r1 == J::Status::kOk ) bad( "reading without a document succeeds" );
                return;
            }
            fam::Box<T> model;
            fam::dec( k.v, model.v, p );
            if ( ( v1 == J::Status::kOk ) != p.none() || ( r1 == J::Status::kOk ) != p.none() ) bad( fmt( "validation gives %u, deserialisation %u; wrong kinds %u, missing names %u", unsigned( v1 ), unsigned( r1 ), p.kind, p.missing ) );
            if ( !p.none() ) return;
            c.label( "conforming-reads" );
            if ( !ref::equal( fam::enc( model.v ), fam::enc( mine.v ), true ) ) bad( "deserialised object is " + quote( ref::show( fam::enc( mine.v ) ) ) + " instead of " + quote( ref::show( fam::enc( model.v ) ) ) );
            if ( reuse )
            {
                fam::Problems q;
                fam::dec( k.v, dest.model.v, q );
                J::Status r3 = k.sd->DeserializeTo( dest.lib.v );
                if ( r3 != J::Status::kOk ) bad( "deserialising into a used object gives " + statusText( r3 ) );
                if ( q.mapReread ) { dest.~Dest<T>(); new ( &dest ) Dest<T>; return; }
                if ( !ref::equal( fam::enc( dest.model.v ), fam::enc( dest.lib.v ), true ) ) bad( "used object becomes " + quote( ref::show( fam::enc( dest.lib.v ) ) ) + " instead of " + quote( ref::show( fam::enc( dest.model.v ) ) ) );
            }
        }

        void opWrite( int i )
        {
            Doc&     k  = d[ i ];
            uint32_t f  = s.below( 3 ), iw = s.below( 5 );
            char     ic = s.chance( 1, 4 ) ? '\t' : ' ';
            log += fmt( " %d.write(f%u)", i, f );
            J::Status w = k.sd->Write( fileName[ f ].c_str(), iw, ic );
            bool      there = false;
            std::string now = slurp( fileName[ f ], &there );
            if ( !k.has )
            {
                if ( w == J::Status::kOk ) bad( "writing without a document succeeds" );
                if ( there != fileThere[ f ] || now != fileText[ f ] ) bad( "writing without a document touches the file" );
                return;
            }
            if ( w != J::Status::kOk ) bad( "write reports " + statusText( w ) );
            ref::Result r = ref::parse( now );
            if ( !r.ok || !ref::equal( r.v, k.v, false ) ) bad( "written file holds " + quote( now ) );
            std::string p = indentProblem( now, iw, ic );
            if ( !p.empty() ) bad( p + " in " + quote( now ) );
            J::StructuredData other;
            fresh( k, other );
            std::string g = scratchDir() + "/alone.json";
            unlink( g.c_str() );
            J::Status w2 = other.Write( g.c_str(), iw, ic );
            std::string want = slurp( g );
            unlink( g.c_str() );
            if ( w2 != w || want != now ) bad( "written file is " + quote( now ) + ", from a fresh object " + quote( want ) );
            fileThere[ f ] = true;
            fileText[ f ]  = now;
        }

        // path of a value of the model, and the way to the value in the tree
        typedef std::vector<std::pair<bool, std::pair<uint32_t, std::string>>> Path;
        static bool find( const ref::Val& v, const ref::Val* what, Path& path )
        {
            if ( &v == what ) return true;
            for ( size_t j = 0; j < v.a.size(); j++ ) { path.push_back( { false, { uint32_t( j ), "" } } ); if ( find( v.a[ j ], what, path ) ) return true; path.pop_back(); }
            for ( auto& e : v.o ) { path.push_back( { true, { 0, e.first } } ); if ( find( e.second, what, path ) ) return true; path.pop_back(); }
            return false;
        }
        static J::Value* walk( J::StructuredData& sd, const Path& path )
        {
            J::Value* v = sd.GetRootJsonValue();
            for ( auto& p : path )
            {
                if ( !v ) return nullptr;
                if ( p.first ) v = v->AsJsonObjectValue()->FindMapElement( Terathon::String<>( p.second.second.c_str() ) );
                else v = ( *v->GetDataAsPointerTo<Terathon::Array<J::Value*>>() )[ int( p.second.first ) ];
            }
            return v;
        }

        // writing fails half-way because of a number that has no text, which is then put right again
        void opWriteBad( int i )
        {
            Doc& k = d[ i ];
            if ( !k.has ) return;
            std::vector<ref::Val*> all, num;
            fam::collect( k.v, all );
            for ( auto* v : all ) if ( v->kind == ref::kNumber ) num.push_back( v );
            if ( num.empty() ) return;
            Path path;
            if ( !find( k.v, num[ s.below( uint32_t( num.size() ) ) ], path ) ) return;
            J::Value* v = walk( *k.sd, path );
            double*   x = v ? v->GetDataAsPointerTo<double>() : nullptr;
            if ( !x ) return;
            log += fmt( " %d.writeNaN", i );
            double      old = *x;
            std::string g   = scratchDir() + "/bad.json";
            *x              = std::nan( "" );
            J::Status w     = k.sd->Write( g.c_str(), s.below( 5 ) );
            *x              = old;
            unlink( g.c_str() );
            if ( w == J::Status::kOk ) bad( "writing a NaN succeeds" );
            k.eventful = true;
        }

        // a scalar is changed through the tree
        void opEdit( int i )
        {
            Doc& k = d[ i ];
            if ( !k.has ) return;
            std::vector<ref::Val*> all;
            fam::collect( k.v, all );
            uint32_t    n = s.below( uint32_t( all.size() ) );
            std::string t = gen::text( s, 40 );
            double      x = fam::finite( s );
            if ( all[ n ]->kind == ref::kArray || all[ n ]->kind == ref::kObject || all[ n ]->kind == ref::kNull ) return;
            Path path;
            if ( !find( k.v, all[ n ], path ) ) return;
            bool flip = s.chance( 1, 2 );
            auto change = [ path, t, x, flip ]( J::StructuredData& sd ) {
                J::Value* v = walk( sd, path );
                if ( !v ) return;
                if ( auto* a = v->GetDataAsPointerTo<Terathon::String<>>() ) *a = t.c_str();
                if ( auto* a = v->GetDataAsPointerTo<double>() ) *a = x;
                if ( auto* a = v->GetDataAsPointerTo<bool>() ) *a = flip;
            };
            log += fmt( " %d.edit", i );
            change( *k.sd );
            all[ n ]->s = all[ n ]->kind == ref::kString ? t : "";
            if ( all[ n ]->kind == ref::kNumber ) all[ n ]->d = x;
            if ( all[ n ]->kind == ref::kBool ) all[ n ]->b = flip;
            k.recipe.push_back( change );
        }
        void opRenew( int i )
        {
            log += fmt( " %d.renew", i );
            Doc& k = d[ i ];
            k.sd.reset( new J::StructuredData );
            k.has = false;
            k.recipe.clear();
        }
    };

    void runCase( Src& s, Ctx& c )
    {
        using namespace fam;
        World w( s, c );
        Dest<A> dA; Dest<C> dC; Dest<Array<double>> dArr; Dest<SMap<double>> dMap; Dest<Vec<C>> dVec; Dest<String<>> dStr; Dest<double> dNum; Dest<OMap<String<>>> dOm; Dest<P> dP;
        uint32_t n = 1 + s.len( 60 );
        for ( uint32_t j = 0; j < n; j++ )
        {
            int         i  = int( s.pick( { 3, 2, 1 } ) );
            const char* op = "?";
            switch ( s.pick( { 6, 4, 5, 6, 4, 1, 1, 1, 1, 1 } ) )
            {
            case 0: op = "parse"; w.opParseText( i ); break;
            case 1: op = "file parse"; w.opParseFile( i ); break;
            case 2:
                op = "serialise";
                switch ( s.below( 9 ) )
                {
                case 0: w.opSerialize<A>( i, "A" ); break;
                case 1: w.opSerialize<C>( i, "C" ); break;
                case 2: w.opSerialize<Array<double>>( i, "Array<double>" ); break;
                case 3: w.opSerialize<SMap<double>>( i, "map" ); break;
                case 4: w.opSerialize<Vec<C>>( i, "Vec<C>" ); break;
                case 5: w.opSerialize<String<>>( i, "String" ); break;
                case 6: w.opSerialize<double>( i, "double" ); break;
                case 7: w.opSerialize<OMap<String<>>>( i, "OMap<String>" ); break;
                default: w.opSerialize<P>( i, "P" ); break;
                }
                break;
            case 3:
                op = "read";
                switch ( s.below( 9 ) )
                {
                case 0: w.opRead( i, "A", dA ); break;
                case 1: w.opRead( i, "C", dC ); break;
                case 2: w.opRead( i, "Array<double>", dArr ); break;
                case 3: w.opRead( i, "map", dMap ); break;
                case 4: w.opRead( i, "Vec<C>", dVec ); break;
                case 5: w.opRead( i, "String", dStr ); break;
                case 6: w.opRead( i, "double", dNum ); break;
                case 7: w.opRead( i, "OMap<String>", dOm ); break;
                default: w.opRead( i, "P", dP ); break;
                }
                break;
            case 4: op = "write"; w.opWrite( i ); break;
            case 5: op = "failing serialisation"; w.opSerializeBad( i ); break;
            case 6: op = "failing read"; w.opReadBad( i ); break;
            case 7: op = "edit"; w.opEdit( i ); break;
            case 8: op = "failing write"; w.opWriteBad( i ); break;
            default: op = "renewal"; w.opRenew( i ); break;
            }
            w.d[ i ].ops++;
            c.label( op );
            w.all( op );
        }
        c.evals      = n;
        c.input( w.log );
        c.noteLazy( [ & ] { return w.log; } );
        for ( auto& k : w.d ) if ( k.ops >= 3 && k.eventful ) c.nontrivial = true;
    }
}
