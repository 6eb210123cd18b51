#include "common.h"
#include "TSArray.h"
#include <set>
#include <memory>
namespace pbt
{
    const char* const kProperty = "C15";
    const char* const kRule     = "Histories of up to 120 operations on three arrays (inline storage for 0, 1, 3, 4 and 9 elements; elements: lifetime-tracked objects that own memory, integers, texts, one-byte and large structures): append (copied, moved, default), insert "
                                  "(inside, at and beyond the end), remove (also out of range), remove last, resize (with and without initial value), reserve, clear, purge, copy construct, move construct, element assignment, find, comparison, the array's own elements as values, operations in "
                                  "which the construction of an element throws or an allocation fails; long append runs; oracle: std::vector, registry of living elements (constructed once, destroyed once, none used dead), storage inside the object within the inline capacity, stable storage within the "
                                  "reserved capacity, amortised number of element moves; non-trivial = an array outgrew its storage or an element was inserted or removed before others; distinct by history.";
    void setup() {}

    // registry of living tracked elements
    struct Life
    {
        std::set<const void*> live;
        std::string           error;
        uint64_t              moves = 0, copies = 0;
        int64_t               throwAt = -1, throwNew = -1;
    };
    static Life* life;
    struct Thrown {};

    struct Tracked
    {
        int* v;
        void born()
        {
            if ( !life->live.insert( this ).second && life->error.empty() ) life->error = "an element is constructed over a living one";
        }
        void seen( const Tracked& o ) const
        {
            if ( !life->live.count( &o ) && life->error.empty() ) life->error = "a dead element is used";
        }
        Tracked()
        {
            if ( life->throwNew >= 0 && life->throwNew-- == 0 ) throw Thrown();
            v = new int( 0 );
            born();
        }
        explicit Tracked( int x ) : v( new int( x ) ) { born(); }
        Tracked( const Tracked& o )
        {
            if ( life->throwAt >= 0 && life->throwAt-- == 0 ) throw Thrown();
            seen( o );
            life->copies++;
            v = new int( o.v ? *o.v : -1 );
            born();
        }
        Tracked( Tracked&& o )
        {
            seen( o );
            life->moves++;
            v   = o.v;
            o.v = nullptr;
            born();
        }
        Tracked& operator=( const Tracked& o )
        {
            seen( *this );
            seen( o );
            int x = *o.v;
            delete v;
            v = new int( x );
            return *this;
        }
        ~Tracked()
        {
            if ( !life->live.erase( this ) )
            {
                if ( life->error.empty() ) life->error = "an element is destroyed that was not alive";
                return;
            }
            delete v;
            v = nullptr;
        }
        bool operator==( const Tracked& o ) const { seen( *this ); seen( o ); return v && o.v && *v == *o.v; }
        bool operator!=( const Tracked& o ) const { return !( *this == o ); }
    };
    struct Big
    {
        int  v;
        char pad[ 77 ];
        Big() : v( 0 ) { memset( pad, 7, sizeof pad ); }
        explicit Big( int x ) : v( x ) { memset( pad, 7, sizeof pad ); }
        bool operator==( const Big& o ) const { return v == o.v && memcmp( pad, o.pad, sizeof pad ) == 0; }
        bool operator!=( const Big& o ) const { return !( *this == o ); }
    };

    template <class T> struct Ops;
    template <> struct Ops<Tracked>
    {
        static Tracked mk( int x ) { return Tracked( x ); }
        static int     get( const Tracked& t ) { t.seen( t ); return t.v ? *t.v : -2; }
        static constexpr bool inits = true, throws = true, allocs = false;
    };
    template <> struct Ops<int>
    {
        static int mk( int x ) { return x; }
        static int get( int t ) { return t; }
        static constexpr bool inits = false, throws = false, allocs = false;
    };
    template <> struct Ops<unsigned char>
    {
        static unsigned char mk( int x ) { return (unsigned char)x; }
        static int           get( unsigned char t ) { return t; }
        static constexpr bool inits = false, throws = false, allocs = false;
    };
    template <> struct Ops<Big>
    {
        static Big mk( int x ) { return Big( x ); }
        static int get( const Big& t ) { return t.v; }
        static constexpr bool inits = true, throws = false, allocs = false;
    };
    template <> struct Ops<Terathon::String<>>
    {
        using S = Terathon::String<>;
        static S mk( int x )
        {
            S s { Terathon::int32( x ) };
            if ( x % 3 == 1 ) s += " and a text that does not fit into the string itself";
            if ( x == 0 ) s = S();
            return s;
        }
        static int get( const S& t ) { return atoi( static_cast<const char*>( t ) ); }
        static constexpr bool inits = true, throws = false, allocs = true;
    };

    template <class T, int N> struct World
    {
        using A = Terathon::Array<T, N>;
        using O = Ops<T>;
        Src&             s;
        Ctx&             c;
        std::unique_ptr<A> a[ 3 ];
        std::vector<int> m[ 3 ];
        int              cap[ 3 ]   = { N, N, N }; // capacity certainly available
        const T*         base[ 3 ]  = {};          // where the elements were when that was established
        bool             small[ 3 ] = { true, true, true };
        std::string      log;
        bool             grew = false, shifted = false;

        World( Src& s_, Ctx& c_ ) : s( s_ ), c( c_ )
        {
            for ( auto& x : a ) x.reset( new A );
            for ( int i = 0; i < 3; i++ ) base[ i ] = a[ i ]->begin();
        }
        void bad( const std::string& t )
        {
            c.fail( t + "; history:" + log );
        }
        int value() { return 1 + int( s.below( sizeof( T ) == 1 ? 200 : 1000 ) ); }
        void check( int i )
        {
            A& x = *a[ i ];
            if ( !life->error.empty() ) bad( life->error );
            if ( size_t( x.GetArrayElementCount() ) != m[ i ].size() ) bad( fmt( "array %d has %d elements instead of %zu", i, int( x.GetArrayElementCount() ), m[ i ].size() ) );
            if ( x.Empty() != m[ i ].empty() ) bad( fmt( "array %d: Empty() is wrong", i ) );
            size_t k = 0;
            for ( const T& e : x )
            {
                if ( k >= m[ i ].size() ) bad( fmt( "array %d: iteration goes on", i ) );
                if ( O::get( e ) != m[ i ][ k ] || e != O::mk( m[ i ][ k ] ) || O::get( x[ int( k ) ] ) != m[ i ][ k ] ) bad( fmt( "array %d: element %zu is %d instead of %d", i, k, O::get( e ), m[ i ][ k ] ) );
                k++;
            }
            if ( k != m[ i ].size() ) bad( fmt( "array %d: iteration ends early", i ) );
            if ( !life->error.empty() ) bad( life->error );
            const char *p = reinterpret_cast<const char*>( x.begin() ), *o = reinterpret_cast<const char*>( &x );
            if ( N && m[ i ].size() > size_t( N ) ) small[ i ] = false;
            if ( N && small[ i ] && !( p >= o && p < o + sizeof( A ) ) ) bad( fmt( "array %d leaves its inline storage without need", i ) );
        }
        void checkAll()
        {
            size_t n = 0;
            for ( int i = 0; i < 3; i++ ) { check( i ); n += m[ i ].size(); }
            if ( O::throws && life->live.size() != n ) bad( fmt( "%zu elements are alive instead of %zu", life->live.size(), n ) );
        }
        void newBase( int i, int c_ ) { cap[ i ] = c_; base[ i ] = a[ i ]->begin(); }
        // after a growth the storage may have moved
        void grown( int i )
        {
            int n = int( m[ i ].size() );
            if ( n > cap[ i ] ) { newBase( i, n ); grew = true; }
            else if ( a[ i ]->begin() != base[ i ] ) bad( fmt( "array %d moved its elements although room for %d was reserved", i, cap[ i ] ) );
        }
        void fill( int i, size_t from ) // plain data is not initialised by the array
        {
            if ( O::inits ) return;
            for ( size_t k = from; k < m[ i ].size(); k++ ) { m[ i ][ k ] = value(); ( *a[ i ] )[ int( k ) ] = O::mk( m[ i ][ k ] ); }
        }

        void step()
        {
            int   i = int( s.pick( { 4, 2, 1 } ) ), j = int( s.below( 3 ) );
            A&    x = *a[ i ];
            auto& r = m[ i ];
            int   n = int( r.size() );
            switch ( s.pick( { 10, 6, 3, 8, 6, 5, 4, 3, 2, 3, 1, 1, 3, 3, 3, 2, 1, 3, 4, 2 } ) )
            {
            case 18:
            {
                // the value is an element of the array itself
                if ( !n ) break;
                int  k  = int( s.below( uint32_t( n ) ) ), v = r[ size_t( k ) ];
                int  at = s.chance( 1, 8 ) ? n + int( s.below( 6 ) ) : int( s.below( uint32_t( n ) + 1 ) );
                int  to = n + int( s.len( 40 ) );
                switch ( s.below( 3 ) )
                {
                case 0:
                {
                    log += fmt( " %d.append(own %d)", i, k );
                    T* p = x.AppendArrayElement( static_cast<const T&>( x[ k ] ) );
                    r.push_back( v );
                    if ( p != x.begin() + n ) bad( "append returns a wrong pointer" );
                    break;
                }
                case 1:
                    log += fmt( " %d.insert(%d,own %d)", i, at, k );
                    x.InsertArrayElement( at, static_cast<const T&>( x[ k ] ) );
                    if ( at < n ) shifted = true;
                    while ( int( r.size() ) < at ) r.push_back( 0 );
                    if ( !O::inits ) for ( int q = n; q < at; q++ ) { r[ size_t( q ) ] = value(); x[ q ] = O::mk( r[ size_t( q ) ] ); }
                    r.insert( r.begin() + at, v );
                    break;
                default:
                    log += fmt( " %d.resize(%d,own %d)", i, to, k );
                    x.SetArrayElementCount( to, static_cast<const T&>( x[ k ] ) );
                    r.resize( size_t( to ), v );
                    break;
                }
                grown( i );
                break;
            }
            case 19:
                if constexpr ( O::throws || O::allocs ) failing( i );
                break;
            case 0:
            {
                int v = value();
                T   t = O::mk( v );
                log += fmt( " %d.append(%d)", i, v );
                T* p = x.AppendArrayElement( static_cast<const T&>( t ) );
                r.push_back( v );
                if ( p != x.begin() + n ) bad( "append returns a wrong pointer" );
                if ( O::get( t ) != v ) bad( "append by copy changed the original" );
                grown( i );
                break;
            }
            case 1:
            {
                int v = value();
                log += fmt( " %d.appendMoved(%d)", i, v );
                uint64_t k = life->copies;
                T*       p = x.AppendArrayElement( O::mk( v ) );
                if ( O::throws && life->copies != k ) bad( "appending an rvalue copies elements" );
                r.push_back( v );
                if ( p != x.begin() + n ) bad( "append returns a wrong pointer" );
                grown( i );
                break;
            }
            case 2:
            {
                log += fmt( " %d.append()", i );
                T* p = x.AppendArrayElement();
                r.push_back( 0 );
                fill( i, size_t( n ) );
                if ( p != x.begin() + n ) bad( "append returns a wrong pointer" );
                grown( i );
                break;
            }
            case 3:
            {
                int v  = value();
                int at = int( s.below( uint32_t( n ) + 1 ) );
                if ( s.chance( 1, 10 ) ) at = n + int( s.below( 6 ) );
                bool mv = s.chance( 1, 2 );
                log += fmt( " %d.insert%s(%d,%d)", i, mv ? "Moved" : "", at, v );
                if ( mv ) x.InsertArrayElement( at, O::mk( v ) );
                else { T t = O::mk( v ); x.InsertArrayElement( at, static_cast<const T&>( t ) ); if ( O::get( t ) != v ) bad( "insert by copy changed the original" ); }
                if ( at < n ) shifted = true;
                while ( int( r.size() ) < at ) r.push_back( 0 );
                if ( !O::inits ) for ( int k = n; k < at; k++ ) { r[ size_t( k ) ] = value(); x[ k ] = O::mk( r[ size_t( k ) ] ); }
                r.insert( r.begin() + at, v );
                grown( i );
                break;
            }
            case 4:
            {
                int at = int( s.below( uint32_t( n ) + 1 ) );
                if ( s.chance( 1, 10 ) ) at = n + int( s.below( 5 ) );
                log += fmt( " %d.remove(%d)", i, at );
                x.RemoveArrayElement( at );
                if ( at < n ) { r.erase( r.begin() + at ); if ( at + 1 < n ) shifted = true; }
                grown( i );
                break;
            }
            case 5:
                log += fmt( " %d.removeLast", i );
                x.RemoveLastArrayElement();
                if ( n ) r.pop_back();
                grown( i );
                break;
            case 6:
            case 7:
            {
                int  to   = s.chance( 1, 2 ) ? int( s.below( uint32_t( n ) + 1 ) ) : n + int( s.len( 40 ) );
                bool init = s.chance( 1, 2 );
                int  v    = value();
                log += fmt( init ? " %d.resize(%d,%d)" : " %d.resize(%d)", i, to, v );
                if ( init ) { T t = O::mk( v ); x.SetArrayElementCount( to, t ); }
                else x.SetArrayElementCount( to );
                r.resize( size_t( to ), init ? v : 0 );
                if ( !init ) fill( i, size_t( n < to ? n : to ) );
                grown( i );
                break;
            }
            case 8:
            {
                int to = s.chance( 1, 3 ) ? int( s.below( uint32_t( n ) + 1 ) ) : n + int( s.len( 100 ) );
                log += fmt( " %d.reserve(%d)", i, to );
                x.ReserveArrayElementCount( to );
                if ( to > cap[ i ] ) { newBase( i, to ); grew = true; small[ i ] = small[ i ] && to <= N; }
                else if ( x.begin() != base[ i ] ) bad( fmt( "reserving less than available moved the elements of array %d", i ) );
                break;
            }
            case 9:
            {
                if ( !n ) break;
                int at = int( s.below( uint32_t( n ) ) ), v = value();
                log += fmt( " %d[%d]=%d", i, at, v );
                x[ at ]            = O::mk( v );
                r[ size_t( at ) ] = v;
                break;
            }
            case 10:
                log += fmt( " %d.clear", i );
                x.ClearArray();
                r.clear();
                grown( i );
                break;
            case 11:
                log += fmt( " %d.purge", i );
                x.PurgeArray();
                r.clear();
                newBase( i, N );
                small[ i ] = true;
                break;
            case 12:
            {
                if ( i == j ) break;
                log += fmt( " %d=copy of %d", j, i );
                std::unique_ptr<A> z( new A( static_cast<const A&>( x ) ) );
                a[ j ] = std::move( z );
                m[ j ] = r;
                newBase( j, std::max( N, n ) );
                small[ j ] = n <= N;
                break;
            }
            case 13:
            {
                if ( i == j ) break;
                log += fmt( " %d=move of %d", j, i );
                uint64_t           k = life->copies;
                std::unique_ptr<A> z( new A( static_cast<A&&>( x ) ) );
                if ( O::throws && life->copies != k ) bad( "moving an array copies elements" );
                a[ j ] = std::move( z );
                m[ j ] = r;
                r.clear();
                newBase( j, std::max( N, n ) );
                newBase( i, N );
                small[ j ] = n <= N;
                small[ i ] = true;
                break;
            }
            case 14:
            {
                int  v    = s.chance( 1, 2 ) && n ? r[ s.below( uint32_t( n ) ) ] : value();
                int  want = -1;
                for ( int k = 0; k < n; k++ ) if ( r[ size_t( k ) ] == v ) { want = k; break; }
                log += fmt( " %d.find(%d)", i, v );
                T t = O::mk( v );
                int got = x.FindArrayElementIndex( t );
                if ( got != want ) bad( fmt( "find gives %d instead of %d", got, want ) );
                break;
            }
            case 15:
                log += fmt( " %d==%d", i, j );
                if ( ( x == *a[ j ] ) != ( r == m[ j ] ) ) bad( "comparison is wrong" );
                break;
            case 16:
                log += fmt( " %d.renew", i );
                a[ i ].reset( new A );
                r.clear();
                newBase( i, N );
                small[ i ] = true;
                if constexpr ( N == 0 )
                    if ( s.chance( 1, 2 ) )
                    {
                        int k = int( s.below( 30 ) );
                        a[ i ].reset( new A( k ) );
                        newBase( i, k );
                        log += fmt( "(%d)", k );
                    }
                break;
            default:
                if constexpr ( O::throws )
                {
                    // copies that fail part way
                    int  k  = int( s.below( uint32_t( n ) + 1 ) );
                    bool ap = s.chance( 1, 3 ), thrown = false;
                    log += fmt( ap ? " %d.appendThrowing" : " copy of %d throwing at %d", i, k );
                    T t      = O::mk( 5 );
                    life->throwAt = ap ? 0 : k;
                    try
                    {
                        if ( ap ) x.AppendArrayElement( static_cast<const T&>( t ) );
                        else A z( static_cast<const A&>( x ) );
                    }
                    catch ( Thrown& )
                    {
                        thrown = true;
                    }
                    life->throwAt = -1;
                    if ( thrown != ( ap || k < n ) ) bad( "an exception of an element is swallowed" );
                    if ( ap && a[ i ]->begin() != base[ i ] )
                    {
                        if ( n < cap[ i ] ) bad( fmt( "array %d moved its elements although room was reserved", i ) );
                        newBase( i, cap[ i ] );
                        small[ i ] = false;
                    }
                }
                break;
            }
        }

        // An operation in which the construction of an element, or an allocation, fails: the elements before the place of the
        // operation are as before, and everything counted is alive.
        void failing( int i )
        {
            A&    x   = *a[ i ];
            auto& r   = m[ i ];
            int   n   = int( r.size() ), k = int( s.below( 8 ) ), v = value(), kept = n;
            int   at  = int( s.below( uint32_t( n ) + 1 ) ), to = n + 1 + int( s.len( 12 ) );
            bool  nw  = O::throws && s.chance( 1, 2 ), thrown = false, ends = false;
            T     t   = O::mk( v );
            uint32_t how = s.below( 6 );
            if ( how == 2 && s.chance( 1, 2 ) ) at = to;
            log += fmt( " %d.failing(%u,%d,%d,%s %d)", i, how, at, to, O::allocs ? "allocation" : nw ? "default" : "copy", k );
            auto run = [ & ]()
            {
                switch ( how )
                {
                case 0: x.AppendArrayElement( static_cast<const T&>( t ) ); break;
                case 1: x.AppendArrayElement(); break;
                case 2: x.InsertArrayElement( at, static_cast<const T&>( t ) ); break;
                case 3: x.SetArrayElementCount( to ); break;
                case 4: x.SetArrayElementCount( to, static_cast<const T&>( t ) ); break;
                default: x.ReserveArrayElementCount( to + 20 ); break;
                }
                ends = true;
            };
            if constexpr ( O::allocs )
            {
                alloc::arm( k, s.chance( 1, 3 ) );
                try { run(); }
                catch ( std::bad_alloc& ) { thrown = true; }
                alloc::disarm();
            }
            else
            {
                ( nw ? life->throwNew : life->throwAt ) = k;
                try { run(); }
                catch ( Thrown& ) { thrown = true; }
                life->throwNew = life->throwAt = -1;
            }
            if ( how == 2 && at < n ) kept = at;
            int now = x.GetArrayElementCount();
            if ( ends == thrown ) bad( "an exception of an element is swallowed" );
            if ( thrown && ( now < kept || now > std::max( to + 1, n ) ) ) bad( fmt( "array %d has %d elements after a failed operation", i, now ) );
            if ( thrown )
            {
                for ( int q = 0; q < kept; q++ )
                    if ( O::get( x[ q ] ) != r[ size_t( q ) ] ) bad( fmt( "array %d: element %d is lost after a failed operation", i, q ) );
                r.resize( size_t( now ) );
                for ( int q = kept; q < now; q++ ) r[ size_t( q ) ] = O::get( x[ q ] );
            }
            else
            {
                switch ( how )
                {
                case 0: r.push_back( v ); break;
                case 1: r.push_back( 0 ); break;
                case 2: while ( int( r.size() ) < at ) r.push_back( 0 ); r.insert( r.begin() + at, v ); break;
                case 3: r.resize( size_t( to ), 0 ); break;
                case 4: r.resize( size_t( to ), v ); break;
                default: break;
                }
            }
            if ( x.begin() != base[ i ] || int( r.size() ) > cap[ i ] || how == 5 )
            {
                if ( x.begin() != base[ i ] ) small[ i ] = false;
                newBase( i, how == 5 && !thrown ? std::max( to + 20, cap[ i ] ) : std::max( int( r.size() ), small[ i ] ? N : 0 ) );
            }
        }

        // cost of a long run of appends
        void run()
        {
            int n = 200 + int( s.below( 3000 ) );
            log += fmt( " run of %d appends", n );
            A        x;
            uint64_t k = life->moves + life->copies, al = alloc::count();
            for ( int q = 0; q < n; q++ ) x.AppendArrayElement( O::mk( q % 200 ) );
            uint64_t moved = life->moves + life->copies - k - uint64_t( n ), allocs = alloc::count() - al;
            if ( O::throws && moved > uint64_t( 8 * n + 64 ) ) bad( fmt( "%d appends moved elements %llu times", n, (unsigned long long)moved ) );
            if ( !O::throws && sizeof( T ) < 8 && allocs > 80 ) bad( fmt( "%d appends allocated %llu times", n, (unsigned long long)allocs ) );
            for ( int q = 0; q < n; q++ ) if ( O::get( x[ q ] ) != q % 200 ) bad( "wrong element after a run of appends" );
            grew = true;
        }
    };

    template <class T, int N> void history( Src& s, Ctx& c, const char* name )
    {
        Life l;
        life = &l;
        {
            World<T, N> w( s, c );
            w.log      = std::string( " [" ) + name + "]";
            uint32_t n = 1 + s.len( 120 );
            if ( s.chance( 1, 40 ) ) { w.run(); n = 1; }
            for ( uint32_t i = 0; i < n; i++ ) { w.step(); w.checkAll(); }
            c.evals      = n;
            c.nontrivial = w.grew || w.shifted;
            c.input( w.log );
            c.label( name );
            c.noteLazy( [ & ] { return w.log; } );
        }
        if ( !l.error.empty() ) c.fail( l.error + " when the arrays are destroyed" );
        if ( !l.live.empty() ) c.fail( fmt( "%zu elements outlive their arrays", l.live.size() ) );
    }

    void runCase( Src& s, Ctx& c )
    {
        switch ( s.below( 12 ) )
        {
        case 0: history<Tracked, 0>( s, c, "tracked" ); break;
        case 1: history<Tracked, 0>( s, c, "tracked" ); break;
        case 2: history<Tracked, 1>( s, c, "tracked,1" ); break;
        case 3: history<Tracked, 4>( s, c, "tracked,4" ); break;
        case 4: history<Tracked, 9>( s, c, "tracked,9" ); break;
        case 5: history<int, 0>( s, c, "int" ); break;
        case 6: history<int, 3>( s, c, "int,3" ); break;
        case 7: history<Terathon::String<>, 0>( s, c, "text" ); break;
        case 8: history<Terathon::String<>, 3>( s, c, "text,3" ); break;
        case 9: history<unsigned char, 0>( s, c, "byte" ); break;
        case 10: history<Big, 0>( s, c, "big" ); break;
        default: history<Big, 4>( s, c, "big,4" ); break;
        }
    }
}
