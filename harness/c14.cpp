#include "common.h"
#include "TSMap.h"
#include <set>
namespace pbt
{
    const char* const kProperty = "C14";
    const char* const kRule     = "Histories of up to 700 operations on three maps and a pool of elements (insert, insert-replace, insert through a reservation, of free elements and of elements of the same or another map; remove, detach, delete, remove all, purge, "
                                  "destroy the map), integer and text keys, key spaces from 3 to 2^32, random, ascending, descending and two-sided orders, growing and shrinking phases; oracle: std::map per map plus a registry of living elements, checked after "
                                  "every step: iteration in both directions, counts, indexed access, first/last/neighbours, lookups of present and absent keys, membership, and depth at most the AVL bound; non-trivial = some map reached 4 elements "
                                  "and lost one again; distinct by history.";
    void setup() {}

    struct IntKey
    {
        using Type = uint32_t;
        static Type of( uint32_t n ) { return n; }
        static uint32_t model( uint32_t n ) { return n; }
        static std::string show( uint32_t k ) { return std::to_string( k ); }
        using Model = uint32_t;
    };
    struct TextKey
    {
        using Type  = Terathon::String<>;
        using Model = std::string;
        static Model model( uint32_t n )
        {
            // names sharing long prefixes, with high bytes, short and long
            static const char* const pre[] = { "", "k", "a name longer than the inline storage of strings ", "\xC3\xA9", "\xff" };
            return pre[ n % 5 ] + std::to_string( n / 5 );
        }
        static Type        of( uint32_t n ) { return Type( model( n ).c_str() ); }
        static std::string show( const std::string& k ) { return quote( k, 60 ); }
    };

    template <class K> struct Elem : public Terathon::MapElement<Elem<K>>
    {
        using KeyType = typename K::Type;
        uint32_t          id;
        KeyType           key;
        std::set<Elem*>*  alive;
        uint64_t*         deaths;
        Elem( uint32_t i, uint32_t k, std::set<Elem*>* a, uint64_t* d ) : id( i ), key( K::of( k ) ), alive( a ), deaths( d ) { alive->insert( this ); }
        ~Elem() { if ( alive->erase( this ) ) ( *deaths )++; else ( *deaths ) += 1000000; }
        const KeyType& GetKey() const { return key; }
    };

    template <class K> struct World
    {
        using E   = Elem<K>;
        using M   = Terathon::Map<E>;
        using Mod = std::map<typename K::Model, E*>;
        Src&                      s;
        Ctx&                      c;
        std::set<E*>              alive;
        uint64_t                  deaths = 0;
        std::map<E*, uint32_t>    keyOf;
        M*                        map[ 3 ];
        Mod                       mod[ 3 ];
        std::vector<E*>           loose;
        std::string               log;
        uint32_t                  next = 0, space = 8, made = 0, order = 0;
        size_t                    peak = 0;
        bool                      lost = false;

        World( Src& s_, Ctx& c_ ) : s( s_ ), c( c_ ) { for ( auto& m : map ) m = new M; }
        ~World()
        {
            for ( auto& m : map ) delete m;
            for ( E* e : loose ) if ( alive.count( e ) ) delete e;
        }
        void bad( const std::string& m ) { c.fail( m + "; history:" + log ); }

        uint32_t key()
        {
            switch ( order )
            {
            case 1: return next++ % space;
            case 2: return ( space - 1 ) - next++ % space;
            case 3: { uint32_t n = next++; return ( n & 1 ? space / 2 + n / 2 : space / 2 - n / 2 ) % space; }
            default: return s.below( space );
            }
        }
        E* create( uint32_t k )
        {
            E* e      = new E( made++, k, &alive, &deaths );
            keyOf[ e ] = k;
            return e;
        }
        int where( E* e )
        {
            for ( int i = 0; i < 3; i++ )
            {
                auto it = mod[ i ].find( K::model( keyOf[ e ] ) );
                if ( it != mod[ i ].end() && it->second == e ) return i;
            }
            return -1;
        }
        void forget( E* e )
        {
            for ( size_t j = 0; j < loose.size(); j++ ) if ( loose[ j ] == e ) { loose[ j ] = loose.back(); loose.pop_back(); break; }
        }
        E* member( int i )
        {
            if ( mod[ i ].empty() ) return nullptr;
            auto it = mod[ i ].lower_bound( K::model( s.below( space ) ) );
            if ( it == mod[ i ].end() ) it = mod[ i ].begin();
            return it->second;
        }
        // an element to insert: new, loose, or a member of some map
        E* source()
        {
            uint32_t k = s.pick( { 12, 2, 2 } );
            if ( k == 1 && !loose.empty() ) return loose[ s.below( uint32_t( loose.size() ) ) ];
            if ( k == 2 ) if ( E* e = member( int( s.below( 3 ) ) ) ) return e;
            E* e = create( key() );
            loose.push_back( e );
            return e;
        }
        void moved( E* e, int to )
        {
            int f = where( e );
            if ( f >= 0 ) mod[ f ].erase( K::model( keyOf[ e ] ) ), lost = true;
            else forget( e );
            if ( to >= 0 ) mod[ to ][ K::model( keyOf[ e ] ) ] = e;
            else loose.push_back( e );
        }
        std::string show( E* e ) { return fmt( "#%u(key %s)", e->id, K::show( K::model( keyOf[ e ] ) ).c_str() ); }

        static int32_t depth( E* e ) { return e ? 1 + std::max( depth( e->GetLeftSubnode() ), depth( e->GetRightSubnode() ) ) : 0; }

        void check( int i )
        {
            M&   m = *map[ i ];
            Mod& r = mod[ i ];
            if ( r.size() > peak ) peak = r.size();
            if ( m.Empty() != r.empty() ) bad( fmt( "map %d: Empty() is wrong for %zu elements", i, r.size() ) );
            if ( size_t( m.GetMapElementCount() ) != r.size() ) bad( fmt( "map %d counts %d elements instead of %zu", i, int( m.GetMapElementCount() ), r.size() ) );
            auto it = r.begin();
            E*   prev = nullptr;
            for ( E* e : m )
            {
                if ( it == r.end() ) bad( fmt( "map %d: iteration goes on after %zu elements", i, r.size() ) );
                if ( !alive.count( e ) ) bad( fmt( "map %d: iteration meets a destroyed element", i ) );
                if ( e != it->second ) bad( fmt( "map %d: iteration gives %s instead of %s", i, show( e ).c_str(), show( it->second ).c_str() ) );
                if ( e->GetPreviousMapElement() != prev ) bad( fmt( "map %d: wrong predecessor of %s", i, show( e ).c_str() ) );
                if ( e->GetOwningMap() != &m || !m.Member( e ) ) bad( fmt( "map %d: %s does not know its map", i, show( e ).c_str() ) );
                for ( int j = 0; j < 3; j++ ) if ( j != i && map[ j ]->Member( e ) ) bad( fmt( "map %d claims %s of map %d", j, show( e ).c_str(), i ) );
                prev = e;
                ++it;
            }
            if ( it != r.end() ) bad( fmt( "map %d: iteration ends before %s", i, show( it->second ).c_str() ) );
            if ( m.GetFirstMapElement() != ( r.empty() ? nullptr : r.begin()->second ) ) bad( fmt( "map %d: wrong first element", i ) );
            if ( m.GetLastMapElement() != ( r.empty() ? nullptr : r.rbegin()->second ) ) bad( fmt( "map %d: wrong last element", i ) );
            E* e = m.GetLastMapElement();
            for ( auto q = r.rbegin(); q != r.rend(); ++q )
            {
                if ( e != q->second ) bad( fmt( "map %d: backward iteration misses %s", i, show( q->second ).c_str() ) );
                e = e->GetPreviousMapElement();
            }
            if ( e ) bad( fmt( "map %d: backward iteration goes on", i ) );
            // depth of a height balanced tree
            int32_t bound = 0;
            for ( size_t a = 1, b = 2; a <= r.size(); bound++ ) { size_t x = a + b + 1; a = b; b = x; } // fewest elements of each height
            int32_t d     = depth( m.GetRootMapElement() );
            if ( d > bound ) bad( fmt( "map %d with %zu elements is %d deep", i, r.size(), d ) );
            // lookups
            size_t n = r.size(), step = n > 40 ? n / 20 : 1, at = 0;
            for ( auto& x : r )
            {
                if ( at++ % step ) continue;
                if ( m.FindMapElement( x.second->key ) != x.second ) bad( fmt( "map %d: %s is not found", i, show( x.second ).c_str() ) );
            }
            for ( int j = 0; j < 6; j++ )
            {
                uint32_t k  = s.below( space + 2 );
                auto     q  = r.find( K::model( k ) );
                E*       w  = q == r.end() ? nullptr : q->second;
                if ( m.FindMapElement( K::of( k ) ) != w ) bad( fmt( "map %d: lookup of key %s is wrong", i, K::show( K::model( k ) ).c_str() ) );
                Terathon::MapReservation res;
                if ( m.ReserveMapElement( K::of( k ), &res ) != ( w == nullptr ) ) bad( fmt( "map %d: reservation for key %s is wrong", i, K::show( K::model( k ) ).c_str() ) );
            }
            for ( int j = 0; j < 3; j++ )
            {
                uint32_t idx = s.below( uint32_t( n ) + 2 );
                auto     q   = r.begin();
                E*       w   = nullptr;
                if ( idx < n ) { std::advance( q, idx ); w = q->second; }
                if ( m[ Terathon::machine( idx ) ] != w ) bad( fmt( "map %d: element %u is wrong", i, idx ) );
            }
            if ( m[ -1 ] ) bad( fmt( "map %d: there is an element -1", i ) );
        }
        void checkAll()
        {
            for ( int i = 0; i < 3; i++ ) check( i );
            for ( E* e : loose )
            {
                if ( !alive.count( e ) ) bad( "an element outside the maps was destroyed" );
                if ( e->GetOwningMap() || e->GetNextMapElement() || e->GetPreviousMapElement() || e->GetLeftSubnode() || e->GetRightSubnode() ) bad( show( e ) + " is outside the maps but has a map or neighbours" );
                for ( int i = 0; i < 3; i++ ) if ( map[ i ]->Member( e ) ) bad( fmt( "map %d claims the free element %s", i, show( e ).c_str() ) );
            }
            size_t n = loose.size();
            for ( auto& r : mod ) n += r.size();
            if ( n != alive.size() ) bad( fmt( "%zu elements are alive instead of %zu", alive.size(), n ) );
            if ( deaths >= 1000000 ) bad( "an element was destroyed twice" );
        }

        void step( bool shrinking )
        {
            int i = int( s.pick( { 4, 2, 1 } ) );
            uint32_t op = shrinking ? s.pick( { 2, 1, 1, 8, 4, 4, 0, 0, 0 } ) : s.pick( { 40, 8, 8, 8, 4, 4, 1, 1, 1 } );
            switch ( op )
            {
            case 0:
            {
                E*   e = source();
                log += fmt( " %d.insert%s", i, show( e ).c_str() );
                bool same = where( e ) == i, dup = mod[ i ].count( K::model( keyOf[ e ] ) );
                bool r = map[ i ]->InsertMapElement( e );
                if ( same ) break; // already there: nothing changes
                if ( r == dup ) bad( dup ? "a duplicate key is inserted" : "an insertion is refused" );
                if ( !dup ) moved( e, i );
                break;
            }
            case 1:
            {
                E*   e = source();
                log += fmt( " %d.replace%s", i, show( e ).c_str() );
                bool same = where( e ) == i;
                auto q    = mod[ i ].find( K::model( keyOf[ e ] ) );
                E*   old  = q == mod[ i ].end() || same ? nullptr : q->second;
                E*   r    = map[ i ]->InsertReplaceMapElement( e );
                if ( r != old ) bad( "replacing returns a wrong element" );
                if ( same ) break;
                if ( old ) { mod[ i ].erase( q ); loose.push_back( old ); lost = true; }
                moved( e, i );
                break;
            }
            case 2:
            {
                E* e = source();
                if ( where( e ) == i ) break;
                log += fmt( " %d.reserve+insert%s", i, show( e ).c_str() );
                Terathon::MapReservation res;
                bool dup = mod[ i ].count( K::model( keyOf[ e ] ) );
                bool r   = map[ i ]->ReserveMapElement( e->key, &res );
                if ( r == dup ) bad( "wrong answer to a reservation" );
                if ( dup ) break;
                map[ i ]->InsertMapElement( e, &res );
                moved( e, i );
                break;
            }
            case 3:
            case 4:
            case 5:
            {
                E* e = member( i );
                if ( op != 3 && s.chance( 1, 6 ) && !loose.empty() ) e = loose[ s.below( uint32_t( loose.size() ) ) ]; // not in any map
                if ( !e ) break;
                log += fmt( " %d.%s%s", i, op == 3 ? "remove" : op == 4 ? "detach" : "delete", show( e ).c_str() );
                if ( op == 3 ) { map[ i ]->RemoveMapElement( e ); moved( e, -1 ); }
                if ( op == 4 ) { e->Detach(); if ( where( e ) >= 0 ) moved( e, -1 ); }
                if ( op == 5 )
                {
                    int f = where( e );
                    if ( f >= 0 ) mod[ f ].erase( K::model( keyOf[ e ] ) ), lost = true;
                    else forget( e );
                    keyOf.erase( e );
                    delete e;
                }
                break;
            }
            case 6:
                log += fmt( " %d.removeAll", i );
                map[ i ]->RemoveAllMapElements();
                for ( auto& x : mod[ i ] ) loose.push_back( x.second );
                mod[ i ].clear();
                break;
            case 7:
            case 8:
                log += fmt( " %d.%s", i, op == 7 ? "purge" : "destroy" );
                for ( auto& x : mod[ i ] ) keyOf.erase( x.second );
                mod[ i ].clear();
                if ( op == 7 ) map[ i ]->PurgeMap();
                else { delete map[ i ]; map[ i ] = new M; }
                break;
            }
        }
    };

    template <class K> void history( Src& s, Ctx& c )
    {
        World<K> w( s, c );
        static const uint32_t spaces[] = { 8, 3, 5, 16, 32, 100, 1000, 0xffffff00u };
        w.space = s.oneOf( spaces );
        w.order = s.pick( { 4, 1, 1, 1 } );
        uint32_t n = s.chance( 1, 12 ) ? 100 + s.below( 600 ) : 1 + s.len( 90 );
        bool     shrinking = false;
        for ( uint32_t i = 0; i < n; i++ )
        {
            if ( s.chance( 1, 20 ) ) { shrinking = !shrinking; w.order = s.pick( { 4, 1, 1, 1 } ); }
            w.step( shrinking );
            size_t big = w.alive.size();
            if ( big < 50 || i % 8 == 0 || i + 1 == n ) w.checkAll();
        }
        c.evals      = n;
        c.nontrivial = w.peak >= 4 && w.lost;
        if ( w.peak >= 50 ) c.label( "maps-of-50-and-more" );
        c.label( "steps", n );
        c.input( w.log );
        c.noteLazy( [ & ] { return w.log; } );
    }

    void runCase( Src& s, Ctx& c )
    {
        if ( s.chance( 1, 4 ) ) history<TextKey>( s, c );
        else history<IntKey>( s, c );
    }
}
