#include "common.h"
#include <map>
#include <set>
#include <algorithm>
#include <utility>
namespace pbt
{
    const char* const kProperty = "C09";
    const char* const kRule     = "Objects with 0..400 members whose names are drawn from adversarial pools (empty, prefixes of each other, long, equal up to the last byte, non-ASCII and high bytes, ascending, descending, shuffled, duplicated), nested, "
                                  "parsed in generated member order, then extended and purged through InsertAccountedMapElement and PurgeObject; oracle: finite map (first duplicate wins): six typed finders, FindMapElement, iteration, count and index "
                                  "access for all present names and near misses, and the written text; names of every length up to 630 and around powers of two up to 65536 that differ in the last byte; non-trivial = object with at least two members; distinct by text.";
    void setup() {}

    using Model = std::vector<std::pair<std::string, ref::Val>>;

    static std::string aName( Src& s, uint32_t style, uint32_t i, uint32_t n )
    {
        char b[ 64 ];
        switch ( style )
        {
        case 0: return gen::name( s );
        case 1: snprintf( b, sizeof b, "k%05u", i ); return b;
        case 2: snprintf( b, sizeof b, "k%05u", n - i ); return b;
        case 3: snprintf( b, sizeof b, "k%u", s.below( n * 2 + 1 ) ); return b;
        case 4: return std::string( s.below( 70 ), 'a' );
        case 5: return std::string( 40, 'p' ) + char( 'a' + s.below( 26 ) ) + ( s.chance( 1, 4 ) ? "x" : "" );
        case 6: { std::string o; uint32_t k = s.below( 4 ); for ( uint32_t q = 0; q < k; q++ ) gen::utf8( o, gen::codePoint( s ) ); return o; }
        default:
        {
            // bytes around the signed / unsigned border
            static const char* const p[] = { "a", "\x7f", "\xC2\x80", "\xC3\xBF", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "z", "~", " ", "\x01" };
            std::string o = s.chance( 1, 2 ) ? "a" : "";
            uint32_t    k = 1 + s.below( 3 );
            for ( uint32_t q = 0; q < k; q++ ) o += s.oneOf( p );
            return o;
        }
        }
    }

    static std::string nearMiss( Src& s, const std::string& n )
    {
        std::string o = n;
        switch ( s.below( 6 ) )
        {
        case 0: o += 'x'; break;
        case 1: if ( !o.empty() ) o.pop_back(); else o = " "; break;
        case 2: if ( !o.empty() ) o[ s.below( uint32_t( o.size() ) ) ] ^= 0x20; break;
        case 3: if ( !o.empty() ) o[ o.size() - 1 ] = char( o[ o.size() - 1 ] ^ 0x80 ); break;
        case 4: o = o + o; break;
        default: o = " " + o; break;
        }
        std::string r;
        for ( char ch : o ) if ( ch ) r += ch;
        return r;
    }

    static void checkObject( const J::ObjectValue* o, const Model& m, Src& s, Ctx& c, const std::string& what, int depth )
    {
        auto bad = [ & ]( const std::string& msg ) { c.fail( msg + " in object of " + what ); };
        std::map<std::string, const ref::Val*> sorted;
        for ( auto& e : m ) sorted.emplace( e.first, &e.second );
        // iteration
        auto   it = sorted.begin();
        size_t n  = 0;
        for ( const J::Value* v : *o )
        {
            std::string k = str( v->GetKey(), c );
            if ( it == sorted.end() ) bad( "iteration visits more members than there are names: " + quote( k ) );
            if ( k != it->first ) bad( "iteration visits " + quote( k ) + " where " + quote( it->first ) + " is next" );
            if ( !ref::equal( *it->second, toRef( v, c ), false ) ) bad( "iteration gives another value for " + quote( k ) );
            ++it;
            n++;
        }
        if ( it != sorted.end() ) bad( "iteration omits " + quote( it->first ) );
        if ( o->GetMapElementCount() != int( n ) ) bad( fmt( "GetMapElementCount is %d for %zu names", int( o->GetMapElementCount() ), n ) );
        if ( o->Empty() != ( n == 0 ) ) bad( "Empty is wrong" );
        // lookups: all names (a sample of large objects) and near misses
        std::set<std::string> ask;
        for ( auto& e : m ) if ( m.size() < 40 || s.chance( 1, 6 ) ) ask.insert( e.first );
        std::set<std::string> miss = ask;
        uint32_t k = 0;
        for ( auto& e : miss ) { if ( k++ > 12 ) break; ask.insert( nearMiss( s, e ) ); }
        ask.insert( gen::name( s ) );
        ask.insert( "" );
        static char keptName[ 512 ]; // names are asked for from one buffer filled again and again, or each from its own
        bool        kept = s.chance( 1, 2 );
        for ( auto& q : ask )
        {
            auto            f = sorted.find( q );
            const ref::Val* w = f == sorted.end() ? nullptr : f->second;
            const char*     p = q.c_str();
            if ( kept && q.size() < sizeof keptName ) p = static_cast<const char*>( memcpy( keptName, q.c_str(), q.size() + 1 ) );
            const auto*     S = o->FindString( p );
            const double*   N = o->FindNumber( p );
            const bool*     B = o->FindBool( p );
            const auto*     Z = o->FindJsonNull( p );
            const auto*     A = o->FindJsonValueArray( p );
            const auto*     O = o->FindJsonObjectValue( p );
            const J::Value* V = o->FindMapElement( p );
            auto            yes = [ & ]( ref::Kind kd ) { return w && w->kind == kd; };
            if ( ( S != nullptr ) != yes( ref::kString ) ) bad( "FindString is wrong for " + quote( q ) );
            if ( ( N != nullptr ) != yes( ref::kNumber ) ) bad( "FindNumber is wrong for " + quote( q ) );
            if ( ( B != nullptr ) != yes( ref::kBool ) ) bad( "FindBool is wrong for " + quote( q ) );
            if ( ( Z != nullptr ) != yes( ref::kNull ) ) bad( "FindJsonNull is wrong for " + quote( q ) );
            if ( ( A != nullptr ) != yes( ref::kArray ) ) bad( "FindJsonValueArray is wrong for " + quote( q ) );
            if ( ( O != nullptr ) != yes( ref::kObject ) ) bad( "FindJsonObjectValue is wrong for " + quote( q ) );
            if ( ( V != nullptr ) != ( w != nullptr ) ) bad( "FindMapElement is wrong for " + quote( q ) );
            if ( !w ) { c.label( "absent-lookups" ); continue; }
            c.label( "present-lookups" );
            if ( str( V->GetKey(), c ) != q || !ref::equal( *w, toRef( V, c ), false ) ) bad( "FindMapElement returns another member for " + quote( q ) );
            if ( S && str( *S, c ) != w->s ) bad( "FindString returns another text for " + quote( q ) );
            if ( N && !ref::sameNumber( *N, w->d ) ) bad( "FindNumber returns another number for " + quote( q ) );
            if ( B && *B != w->b ) bad( "FindBool returns another value for " + quote( q ) );
            if ( A && A->GetArrayElementCount() != int( w->a.size() ) ) bad( "FindJsonValueArray returns another array for " + quote( q ) );
            if ( A && A != V->GetDataAsPointerTo<Terathon::Array<J::Value*>>() ) bad( "FindJsonValueArray returns another array for " + quote( q ) );
            if ( O && O != V->AsJsonObjectValue() ) bad( "FindJsonObjectValue returns another object for " + quote( q ) );
            if ( O && depth < 3 ) checkObject( O, w->o, s, c, what, depth + 1 );
        }
        if ( n )
        {
            uint32_t i = s.below( uint32_t( n ) );
            auto     x = sorted.begin();
            std::advance( x, i );
            const J::Value* v = ( *o )[ Terathon::machine( i ) ];
            if ( !v || str( v->GetKey(), c ) != x->first ) bad( fmt( "member %u is not %s", i, quote( x->first ).c_str() ) );
            if ( str( static_cast<const Terathon::Map<J::Value>*>( o )->GetFirstMapElement()->GetKey(), c ) != sorted.begin()->first || str( static_cast<const Terathon::Map<J::Value>*>( o )->GetLastMapElement()->GetKey(), c ) != sorted.rbegin()->first ) bad( "first or last member is wrong" );
        }
    }

    // Names of every length up to a bound and around large round ones, in pairs that differ in their last byte only, or by one byte more
    static void lengths( Src& s, Ctx& c )
    {
        static const uint32_t from[] = { 0, 120, 240, 360, 500, 1000, 2030, 4080, 8180, 16370, 32750, 65520 };
        uint32_t              f      = s.oneOf( from );
        if ( s.chance( 1, 3 ) ) f = gen::largeSize( s, 70000 );
        uint32_t    many = f >= 8000 ? 20 : f >= 2000 ? 40 : 130;
        char        base = char( 'a' + s.below( 20 ) );
        bool        wide = s.chance( 1, 4 ), back = s.chance( 1, 2 );
        std::string unit = wide ? "\xC3\xA9" : std::string( 1, base );
        c.input( uint64_t( f ) << 8 | uint8_t( base ) << 2 | ( wide ? 2 : 0 ) | ( back ? 1 : 0 ) );
        c.note( fmt( "names of %u to %u bytes", f, f + many ) );
        for ( uint32_t n = f; n < f + many; n++ )
        {
            std::string a( n % unit.size(), '_' );
            while ( a.size() < n ) a += unit;
            std::string names[] = { a, a + "x", a + "y", a + "xx" };
            std::string t       = "{";
            Model       m;
            for ( uint32_t i = 0; i < 4; i++ )
            {
                auto& nm = names[ back ? 3 - i : i ];
                if ( i ) t += ',';
                t += "\"" + nm + "\":" + std::to_string( i );
                ref::Val v;
                v.kind = ref::kNumber;
                v.d    = i;
                m.emplace_back( nm, v );
            }
            t += ",\"" + names[ n & 3 ] + "\":9}";
            J::StructuredData sd;
            J::ParseResult    p    = parseText( sd, t );
            std::string       what = fmt( "four names of about %u bytes", n );
            if ( p.status != J::Status::kOk ) c.fail( "parse reports " + statusText( p.status ) + " for " + what );
            const J::ObjectValue* o = std::as_const( sd ).GetRootJsonValue()->AsJsonObjectValue();
            if ( !o ) c.fail( "root is no object for " + what );
            if ( o->GetMapElementCount() != 4 ) c.fail( fmt( "%d members for ", int( o->GetMapElementCount() ) ) + what );
            std::sort( m.begin(), m.end(), []( auto& x, auto& y ) { return x.first < y.first; } );
            size_t k = 0;
            for ( const J::Value* v : *o )
            {
                if ( k >= 4 || str( v->GetKey(), c ) != m[ k ].first ) c.fail( fmt( "iteration is wrong at member %zu of ", k ) + what );
                k++;
            }
            for ( auto& e : m )
            {
                const double* d = o->FindNumber( e.first.c_str() );
                if ( !d || *d != e.second.d ) c.fail( "FindNumber is wrong for " + what );
                if ( o->FindString( e.first.c_str() ) ) c.fail( "FindString is wrong for " + what );
            }
            std::string miss = a + "z";
            if ( o->FindNumber( miss.c_str() ) || o->FindMapElement( miss.c_str() ) || ( n && o->FindNumber( a.c_str() + 1 ) && wide ) ) c.fail( "a name that is not there is found for " + what );
        }
        c.evals      = many;
        c.nontrivial = true;
        c.label( "name-lengths" );
    }

    void runCase( Src& s, Ctx& c )
    {
        if ( s.chance( 1, 60 ) ) { lengths( s, c ); return; }
        std::string t;
        if ( s.chance( 1, 6 ) )
        {
            gen::Opt o;
            t = gen::document( s, o );
        }
        else
        {
            static const uint32_t sizes[] = { 2, 4, 8, 16, 40, 120, 400 };
            uint32_t              n       = s.below( sizes[ s.pick( { 3, 5, 5, 4, 3, 2, 1 } ) ] + 1 );
            uint32_t              style   = s.below( 8 );
            if ( s.chance( 1, 500 ) ) { n = gen::largeSize( s, 70000 ); style = 1 + s.below( 3 ); c.label( "huge objects" ); }
            uint32_t              dups    = s.pick( { 3, 2, 1 } );
            std::vector<std::string> names;
            t = "{";
            for ( uint32_t i = 0; i < n; i++ )
            {
                std::string nm = ( dups && !names.empty() && s.chance( dups, 6 ) ) ? names[ s.below( uint32_t( names.size() ) ) ] : aName( s, style, i, n );
                names.push_back( nm );
                if ( i ) t += ',';
                gen::literal( s, nm, t, s.chance( 3, 4 ) );
                t += ':';
                switch ( s.pick( { 4, 2, 1, 1, 1, 1 } ) )
                {
                case 0: t += std::to_string( i ); break;
                case 1: t += "\"v" + std::to_string( i ) + "\""; break;
                case 2: t += s.chance( 1, 2 ) ? "true" : "false"; break;
                case 3: t += "null"; break;
                case 4: t += "[" + std::to_string( i ) + "]"; break;
                default: t += "{\"in\":" + std::to_string( i ) + ",\"i\":{\"in\":1,\"in\":2}}"; break;
                }
            }
            t += "}";
        }
        ref::Result r = ref::parse( t );
        c.input( t );
        c.note( "text " + quote( t, 3000 ) );
        if ( !r.ok || r.loneSurrogate || r.rawSurrogate || r.nulEscape || r.v.kind != ref::kObject ) return;
        J::StructuredData sd;
        J::ParseResult    p = parseText( sd, t );
        if ( p.status != J::Status::kOk ) c.fail( "parse reports " + statusText( p.status ) + " for " + quote( t ) );
        c.nontrivial = r.v.o.size() > 1;
        if ( r.dups ) c.label( "with-duplicates" );
        J::ObjectValue* o = sd.GetRootJsonValue()->AsJsonObjectValue();
        if ( !o ) c.fail( "root is no object" );
        Model m = r.v.o;
        checkObject( o, m, s, c, quote( t ), 0 );
        // the object extended through its interface
        std::string hist;
        if ( s.chance( 1, 3 ) )
        {
            uint32_t k = 1 + s.below( 12 );
            for ( uint32_t i = 0; i < k; i++ )
            {
                if ( s.chance( 1, 20 ) )
                {
                    o->PurgeObject();
                    m.clear();
                    hist += " purge";
                    continue;
                }
                std::string nm   = ( !m.empty() && s.chance( 1, 3 ) ) ? m[ s.below( uint32_t( m.size() ) ) ].first : aName( s, s.below( 8 ), i, k );
                bool        arr  = s.chance( 1, 2 );
                J::Value*   v    = arr ? static_cast<J::Value*>( new J::ArrayValue ) : static_cast<J::Value*>( new J::ObjectValue );
                bool        have = false;
                for ( auto& e : m ) have |= e.first == nm;
                v->name = nm.c_str();
                bool ok = o->InsertAccountedMapElement( v );
                if ( ok == have ) c.fail( fmt( "InsertAccountedMapElement returns %d for ", int( ok ) ) + quote( nm ) + " after" + hist + " on " + quote( t ) );
                if ( !ok ) delete v;
                else
                {
                    ref::Val x;
                    x.kind = arr ? ref::kArray : ref::kObject;
                    m.emplace_back( nm, x );
                }
                hist += " insert " + quote( nm );
            }
            c.note( "then" + hist );
            checkObject( o, m, s, c, quote( t ) + " after" + hist, 1 );
            c.label( "extended" );
        }
        std::string f = scratchDir() + "/a.json";
        J::Status   w = sd.Write( f.c_str(), 0 );
        if ( w != J::Status::kOk ) c.fail( "Write reports " + statusText( w ) );
        std::string out = slurp( f );
        ref::Result q   = ref::parse( out );
        ref::Val    want;
        want.kind = ref::kObject;
        want.o    = m;
        if ( !q.ok || q.dups || !ref::equal( want, q.v, true ) ) c.fail( "written text " + quote( out ) + " for " + quote( t ) + hist );
        unlink( f.c_str() );
    }
}
