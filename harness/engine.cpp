#include "engine.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <time.h>

namespace pbt
{
    // ------------------------------------------------------------------ dictionary
    static std::vector<int64_t>     dictInts;
    static std::vector<std::string> dictStrs;

    static void loadDict()
    {
        const char* p = getenv( "PBT_DICT" );
        FILE*       f = p ? fopen( p, "r" ) : nullptr;
        if ( f )
        {
            char line[ 4096 ];
            while ( fgets( line, sizeof line, f ) )
            {
                size_t n = strlen( line );
                while ( n && ( line[ n - 1 ] == '\n' ) ) line[ --n ] = 0;
                if ( line[ 0 ] == 'I' ) dictInts.push_back( strtoll( line + 2, nullptr, 10 ) );
                if ( line[ 0 ] == 'S' )
                {
                    std::string s;
                    for ( const char* q = line + 2; q[ 0 ] && q[ 1 ]; q += 2 )
                    {
                        unsigned v;
                        sscanf( q, "%2x", &v );
                        s += char( v );
                    }
                    if ( !s.empty() && s.size() < 200 ) dictStrs.push_back( s );
                }
            }
            fclose( f );
        }
        if ( dictInts.empty() ) dictInts = { 0, 1, 2, 8, 15, 16, 32, 64, 127, 128, 255, 256 };
        if ( dictStrs.empty() ) dictStrs = { "a", "name", "true", "null" };
    }

    // ------------------------------------------------------------------ Src
    void Src::put( uint8_t v )
    {
        uint32_t n = rec->len;
        if ( n < RecBuf::kMax )
        {
            rec->b[ n ] = v;
            rec->len    = n + 1;
        }
    }
    uint8_t Src::get() { return i < size ? data[ i++ ] : ( i++, uint8_t( 0 ) ); }

    uint8_t Src::u8()
    {
        if ( rec )
        {
            if ( rec->len >= RecBuf::kMax ) return 0;
            uint8_t v = uint8_t( rng.next() >> 24 );
            put( v );
            return v;
        }
        return get();
    }
    uint32_t Src::below( uint32_t n )
    {
        if ( n <= 1 ) return 0;
        if ( n <= 256 ) return u8() % n;
        if ( n <= 65536 ) return u16() % n;
        return u32() % n;
    }
    uint32_t Src::pick( std::initializer_list<uint32_t> w )
    {
        uint32_t sum = 0;
        for ( uint32_t x : w ) sum += x;
        uint32_t r = below( sum ), k = 0;
        for ( uint32_t x : w )
        {
            if ( r < x ) return k;
            r -= x;
            k++;
        }
        return k - 1;
    }
    uint32_t Src::len( uint32_t max )
    {
        uint32_t cls = below( 16 );
        uint32_t m;
        if ( cls < 8 ) m = 3;
        else if ( cls < 12 ) m = 9;
        else if ( cls < 14 ) m = 24;
        else if ( cls < 15 ) m = 80;
        else m = max;
        if ( m > max ) m = max;
        return below( m + 1 );
    }
    int64_t Src::dictInt()
    {
        if ( rec )
        {
            uint64_t r = rng.next();
            int64_t  v;
            switch ( r & 3 )
            {
            case 0: v = int64_t( 1 ) << ( ( r >> 8 ) % 33 ); break;
            case 1: v = int64_t( ( r >> 8 ) % 300 ); break;
            default: v = dictInts[ ( r >> 8 ) % dictInts.size() ]; break;
            }
            v += int64_t( ( r >> 40 ) % 5 ) - 2;
            if ( ( ( r >> 50 ) & 7 ) == 0 ) v = -v;
            uint64_t u = uint64_t( v );
            for ( int k = 7; k >= 0; k-- ) put( uint8_t( u >> ( 8 * k ) ) );
            return v;
        }
        return int64_t( u64() );
    }
    std::string Src::dictStr()
    {
        if ( rec )
        {
            std::string s = dictStrs[ rng.next() % dictStrs.size() ];
            put( uint8_t( s.size() ) );
            for ( char c : s ) put( uint8_t( c ) );
            return s;
        }
        uint8_t     n = get();
        std::string s;
        for ( uint8_t k = 0; k < n && i < size; k++ ) s += char( get() );
        return s;
    }
    std::string Src::rest( uint32_t maxRandom )
    {
        std::string s;
        if ( rec )
        {
            uint32_t n = uint32_t( rng.next() % ( maxRandom + 1 ) );
            for ( uint32_t k = 0; k < n; k++ ) s += char( u8() );
            return s;
        }
        while ( i < size ) s += char( data[ i++ ] );
        return s;
    }

    // ------------------------------------------------------------------ Ctx
    void Ctx::label( const char* s, uint64_t n )
    {
        if ( labels )
        {
            alloc::Untracked u;
            ( *labels )[ s ] += n;
        }
    }
    static uint64_t mix( uint64_t h, uint64_t v )
    {
        h ^= v + 0x9E3779B97F4A7C15ull + ( h << 6 ) + ( h >> 2 );
        h *= 0xff51afd7ed558ccdull;
        return h ^ ( h >> 32 );
    }
    void Ctx::input( uint64_t v ) { fp = mix( fp, v ); fpSet = true; }
    void Ctx::input( const std::string& b )
    {
        uint64_t h = 1469598103934665603ull;
        for ( unsigned char c : b ) h = ( h ^ c ) * 1099511628211ull;
        input( h ^ b.size() );
    }
    void Ctx::note( const std::string& s )
    {
        if ( verbose && text.size() < 200000 )
        {
            alloc::Untracked u;
            text += s;
            text += '\n';
        }
    }
    void Ctx::fail( const std::string& msg )
    {
        alloc::disarm();
        alloc::limitBytes( 0 );
        alloc::pause();
        throw Failure { msg };
    }

    std::string quote( const std::string& s, size_t max )
    {
        std::string o = "\"";
        for ( size_t k = 0; k < s.size() && k < max; k++ )
        {
            unsigned char c = s[ k ];
            if ( c == '"' || c == '\\' ) { o += '\\'; o += char( c ); }
            else if ( c == '\n' ) o += "\\n";
            else if ( c >= 32 && c < 127 ) o += char( c );
            else { char b[ 8 ]; snprintf( b, sizeof b, "\\x%02x", c ); o += b; }
        }
        o += '"';
        if ( s.size() > max ) o += fmt( "...(%zu bytes)", s.size() );
        return o;
    }
    std::string fmt( const char* f, ... )
    {
        char    b[ 2048 ];
        va_list ap;
        va_start( ap, f );
        vsnprintf( b, sizeof b, f, ap );
        va_end( ap );
        return b;
    }

    // ------------------------------------------------------------------ allocation tracking
    namespace alloc
    {
        struct Slot { void* p; size_t n; uint8_t kind; };
        static constexpr size_t kMinSlots = 1u << 12;
        static size_t           kSlots = 0; // power of two, grows with the number of live blocks
        static Slot*            slots  = nullptr;
        static void* const      kTomb  = (void*)1;
        static std::atomic_flag lock   = ATOMIC_FLAG_INIT;
        static uint64_t         nLive = 0, nBytes = 0, nCount = 0, nTomb = 0;
        static thread_local bool     tracking = false;
        static thread_local int64_t  failAt   = -1;
        static thread_local bool     failSticky = false;
        static thread_local uint64_t failed = 0, seen = 0;
        static size_t           maxOne = 0;

        struct L { L() { while ( lock.test_and_set( std::memory_order_acquire ) ) {} } ~L() { lock.clear( std::memory_order_release ); } };

        static Slot* mapSlots( size_t n ) { return (Slot*)mmap( nullptr, n * sizeof( Slot ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); }
        static void init()
        {
            if ( !slots )
            {
                kSlots = kMinSlots;
                slots  = mapSlots( kSlots );
            }
        }
        static size_t hashp( void* p ) { uint64_t x = uint64_t( p ) >> 4; x *= 0x9E3779B97F4A7C15ull; return ( x >> 40 ) & ( kSlots - 1 ); }
        static void rehash()
        {
            Slot*  old = slots;
            size_t on  = kSlots;
            if ( nLive > kSlots / 4 ) kSlots *= 4;
            slots = mapSlots( kSlots );
            nTomb = 0;
            for ( size_t i = 0; i < on; i++ )
            {
                if ( !old[ i ].p || old[ i ].p == kTomb ) continue;
                size_t h = hashp( old[ i ].p );
                while ( slots[ h ].p ) h = ( h + 1 ) & ( kSlots - 1 );
                slots[ h ] = old[ i ];
            }
            munmap( old, on * sizeof( Slot ) );
        }
        static void add( void* p, size_t n, uint8_t k )
        {
            L g;
            nCount++;
            if ( nLive + nTomb > kSlots / 2 ) rehash();
            size_t h = hashp( p );
            while ( slots[ h ].p && slots[ h ].p != kTomb ) h = ( h + 1 ) & ( kSlots - 1 );
            if ( slots[ h ].p == kTomb ) nTomb--;
            slots[ h ] = { p, n, k };
            nLive++;
            nBytes += n;
        }
        static void del( void* p, uint8_t k )
        {
            if ( !slots ) return;
            bool mismatch = false;
            {
                L      g;
                if ( !nLive ) return;
                size_t h = hashp( p );
                while ( slots[ h ].p && slots[ h ].p != p ) h = ( h + 1 ) & ( kSlots - 1 );
                if ( slots[ h ].p == p )
                {
                    mismatch = slots[ h ].kind != k;
                    nLive--;
                    nBytes -= slots[ h ].n;
                    if ( slots[ ( h + 1 ) & ( kSlots - 1 ) ].p == nullptr ) slots[ h ].p = nullptr;
                    else { slots[ h ].p = kTomb; nTomb++; }
                }
            }
            if ( mismatch )
            {
                fprintf( stderr, "PBT-FAIL: new/delete form mismatch\n" );
                _exit( 78 );
            }
        }
        void begin()
        {
            init();
            L g;
            if ( kSlots > kMinSlots * 16 )
            {
                munmap( slots, kSlots * sizeof( Slot ) );
                slots = nullptr;
                init();
            }
            else if ( nLive || nTomb ) memset( (void*)slots, 0, kSlots * sizeof( Slot ) );
            nLive = nBytes = nCount = nTomb = 0;
            tracking = true;
        }
        void     pause() { tracking = false; }
        void     resume() { tracking = true; }
        uint64_t live() { L g; return nLive; }
        uint64_t liveBytes() { L g; return nBytes; }
        uint64_t count() { L g; return nCount; }
        void     arm( int64_t n, bool s ) { failAt = n; failSticky = s; failed = 0; seen = 0; }
        uint64_t disarm() { failAt = -1; failSticky = false; return failed; }
        uint64_t armedCount() { return seen; }
        void     limitBytes( size_t n ) { maxOne = n; }
        Untracked::Untracked() { was = tracking; tracking = false; }
        Untracked::~Untracked() { tracking = was; }

        static void* get( size_t n, uint8_t kind, bool nothrow, size_t al = 0 )
        {
            if ( failAt >= 0 )
            {
                bool f = failSticky ? seen >= uint64_t( failAt ) : seen == uint64_t( failAt );
                seen++;
                if ( f )
                {
                    failed++;
                    if ( nothrow ) return nullptr;
                    throw std::bad_alloc();
                }
            }
            if ( maxOne && n > maxOne && tracking )
            {
                if ( nothrow ) return nullptr;
                throw std::bad_alloc();
            }
            void* p = al ? aligned_alloc( al, ( n + al - 1 ) / al * al + ( n ? 0 : al ) ) : malloc( n ? n : 1 );
            if ( !p )
            {
                if ( nothrow ) return nullptr;
                throw std::bad_alloc();
            }
            if ( tracking )
            {
                add( p, n, kind );
                // no result may depend on what new memory holds: digits, broken UTF-8, brackets
                memset( p, "7\xff" "7}"[ n & 3 ], n < 4096 ? n : 4096 );
            }
            return p;
        }
        static void put( void* p, uint8_t kind )
        {
            if ( !p ) return;
            del( p, kind );
            free( p );
        }
    }

    // ------------------------------------------------------------------ scratch
    static std::string gScratch;
    const std::string& scratchDir()
    {
        if ( gScratch.empty() )
        {
            alloc::Untracked u;
            const char*      base = getenv( "PBT_SCRATCH" );
            std::string      t    = std::string( base ? base : "/tmp" ) + "/w" + std::to_string( getpid() );
            mkdir( t.c_str(), 0700 );
            gScratch = t;
        }
        return gScratch;
    }
    static void removeScratch( pid_t pid )
    {
        const char* base = getenv( "PBT_SCRATCH" );
        std::string t    = std::string( base ? base : "/tmp" ) + "/w" + std::to_string( pid );
        DIR*        d    = opendir( t.c_str() );
        if ( !d ) return;
        while ( dirent* e = readdir( d ) )
        {
            if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) ) unlink( ( t + "/" + e->d_name ).c_str() );
        }
        closedir( d );
        rmdir( t.c_str() );
    }

    // ------------------------------------------------------------------ one case with leak accounting
    // returns true when ok; msg filled when failed
    static bool runOnce( const std::function<Src()>& mk, Ctx& ctx, std::string& msg )
    {
        for ( int attempt = 0; attempt < 2; attempt++ )
        {
            Ctx c;
            c.verbose = ctx.verbose;
            c.labels  = attempt == 0 ? ctx.labels : nullptr;
            uint64_t leaked = 0, leakedBytes = 0;
            try
            {
                Src s = mk();
                alloc::begin();
                runCase( s, c );
                alloc::pause();
                leaked      = alloc::live();
                leakedBytes = alloc::liveBytes();
            }
            catch ( const Failure& f )
            {
                alloc::pause();
                msg = f.msg;
                ctx = c;
                return false;
            }
            catch ( ... )
            {
                alloc::disarm();
                alloc::pause();
                msg = "unexpected exception escaped from the case";
                ctx = c;
                return false;
            }
            std::map<std::string, uint64_t>* l = ctx.labels;
            if ( attempt == 0 )
            {
                bool v = ctx.verbose;
                ctx = c;
                ctx.verbose = v;
                ctx.labels = l;
            }
            if ( leaked == 0 || !c.checkLeaks ) return true;
            if ( attempt == 1 )
            {
                msg = fmt( "memory leak: %llu block(s), %llu bytes still allocated after every object was destroyed", (unsigned long long)leaked,
                           (unsigned long long)leakedBytes );
                return false;
            }
            // first time: may be lazily created static state, run again
        }
        return true;
    }

    static uint64_t caseSeed( uint64_t seed, uint64_t idx )
    {
        return mix( mix( 0x1234567, seed ), idx * 0x2545F4914F6CDD1Dull + 77 );
    }

    static double now()
    {
        timespec t;
        clock_gettime( CLOCK_MONOTONIC, &t );
        return double( t.tv_sec ) + 1e-9 * double( t.tv_nsec );
    }

    static std::string readFile( const char* p )
    {
        std::string s;
        FILE*       f = fopen( p, "rb" );
        if ( !f ) return s;
        char   b[ 65536 ];
        size_t n;
        while ( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) s.append( b, n );
        fclose( f );
        return s;
    }
    static void writeFile( const std::string& p, const std::string& s )
    {
        FILE* f = fopen( p.c_str(), "wb" );
        if ( !f ) return;
        fwrite( s.data(), 1, s.size(), f );
        fclose( f );
    }

    static std::string jsonStr( const std::string& s )
    {
        std::string o = "\"";
        for ( unsigned char c : s )
        {
            if ( c == '"' || c == '\\' ) { o += '\\'; o += char( c ); }
            else if ( c < 32 || c >= 127 ) { char b[ 8 ]; snprintf( b, sizeof b, "\\u%04x", c ); o += b; }
            else o += char( c );
        }
        return o + "\"";
    }

    struct Shared
    {
        std::atomic<uint64_t> idx;     // current case index of this worker
        std::atomic<uint64_t> beat;
        std::atomic<uint64_t> evals, cases, nontrivial;
        std::atomic<uint32_t> done;
        char                  msg[ 4096 ];
        RecBuf                rec;
    };

    static void bigStack()
    {
        // parsing under ASan needs large frames; the harness exercises depth limits explicitly
        rlimit r;
        if ( getrlimit( RLIMIT_STACK, &r ) == 0 && r.rlim_cur != RLIM_INFINITY && r.rlim_cur < ( 64u << 20 ) )
        {
            rlim_t want = 64u << 20;
            if ( r.rlim_max == RLIM_INFINITY || r.rlim_max >= want )
            {
                r.rlim_cur = want;
                setrlimit( RLIMIT_STACK, &r );
            }
        }
    }

    static void workerMain( Shared* sh, int w, int W, uint64_t seed, uint64_t first, uint64_t cases, double deadline, const std::string& out )
    {
        setup();
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t>    fps;
        std::vector<std::string>        samples;
        uint64_t                        n = 0;
        int                             rc = 0;
        for ( uint64_t k = first; k < cases; k++ )
        {
            uint64_t idx = k * uint64_t( W ) + uint64_t( w );
            sh->idx.store( k );
            sh->beat.fetch_add( 1 );
            if ( ( n & 15 ) == 0 && now() > deadline ) break;
            n++;
            Ctx         ctx;
            std::string msg;
            ctx.labels  = &labels;
            ctx.verbose = ( samples.size() < 3 && n > 20 && n % 7 == 0 );
            bool ok = runOnce( [ & ]() { return Src( caseSeed( seed, idx ), &sh->rec ); }, ctx, msg );
            sh->cases.fetch_add( 1, std::memory_order_relaxed );
            sh->evals.fetch_add( ctx.evals, std::memory_order_relaxed );
            if ( !ok )
            {
                snprintf( sh->msg, sizeof sh->msg, "%s", msg.c_str() );
                rc = 77;
                break;
            }
            if ( ctx.nontrivial )
            {
                uint64_t f = ctx.fp;
                if ( !ctx.fpSet )
                {
                    f = 0;
                    for ( uint32_t q = 0; q < sh->rec.len; q++ ) f = mix( f, sh->rec.b[ q ] );
                }
                fps.insert( f );
                if ( ctx.verbose && samples.size() < 3 && !ctx.text.empty() ) samples.push_back( ctx.text.substr( 0, 1500 ) );
            }
        }
        sh->idx.store( sh->idx.load() ); 
        std::string st = "{\"labels\":{";
        bool        c  = false;
        for ( auto& l : labels )
        {
            if ( c ) st += ",";
            c = true;
            st += jsonStr( l.first ) + ":" + std::to_string( l.second );
        }
        st += "},\"samples\":[";
        c = false;
        for ( auto& s : samples )
        {
            if ( c ) st += ",";
            c = true;
            st += jsonStr( s );
        }
        st += "]}";
        static int part = 0;
        std::string tag = out + "/w" + std::to_string( w ) + "_" + std::to_string( first ) + "_" + std::to_string( part++ );
        writeFile( tag + ".json", st );
        std::string fb;
        for ( uint64_t f : fps ) fb.append( (const char*)&f, 8 );
        writeFile( tag + ".fps", fb );
        sh->done.store( 1 );
        fflush( stdout );
        fflush( stderr );
        _exit( rc );
    }

    // run one byte-string case in a child; returns 0 ok, 77 semantic failure, 2 crash, 3 timeout
    static int childRun( const std::string& bytes, Shared* sh, double timeout, bool quiet, std::string* msg, bool verbose = false )
    {
        sh->msg[ 0 ] = 0;
        fflush( stdout );
        fflush( stderr );
        pid_t p = fork();
        if ( p == 0 )
        {
            if ( quiet )
            {
                int fd = open( "/dev/null", O_WRONLY );
                dup2( fd, 2 );
                dup2( fd, 1 );
            }
            setup();
            Ctx         ctx;
            std::string m;
            ctx.verbose = verbose;
            bool ok = runOnce( [ & ]() { return Src( (const uint8_t*)bytes.data(), bytes.size() ); }, ctx, m );
            if ( verbose ) { printf( "%s\n", ctx.text.c_str() ); fflush( stdout ); }
            if ( !ok ) snprintf( sh->msg, sizeof sh->msg, "%s", m.c_str() );
            fflush( stdout );
            _exit( ok ? 0 : 77 );
        }
        double t0 = now();
        int    st = 0;
        for ( ;; )
        {
            pid_t r = waitpid( p, &st, WNOHANG );
            if ( r == p ) break;
            if ( now() - t0 > timeout )
            {
                kill( p, SIGKILL );
                waitpid( p, &st, 0 );
                removeScratch( p );
                if ( msg ) *msg = "no result within the time limit (hang)";
                return 3;
            }
            usleep( now() - t0 < 0.05 ? 300 : 3000 );
        }
        removeScratch( p );
        if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) return 0;
        if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 77 )
        {
            if ( msg ) *msg = sh->msg;
            return 77;
        }
        if ( msg )
            *msg = WIFSIGNALED( st ) ? fmt( "crash: signal %d", WTERMSIG( st ) ) : fmt( "crash: sanitizer or fatal exit code %d", WEXITSTATUS( st ) );
        return 2;
    }

    static Shared* mapShared()
    {
        return (Shared*)mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    }

    static int doShrink( const char* in, const char* outp, int confirm, double hangLimit, double budget )
    {
        Shared*     sh = mapShared();
        std::string best = readFile( in ), msg;
        int         kind = 0;
        for ( int k = 0; k < confirm; k++ )
        {
            int r = childRun( best, sh, hangLimit, true, &msg );
            if ( r == 0 )
            {
                printf( "NOT-REPRODUCED %d/%d\n", k, confirm );
                return 4;
            }
            if ( kind && r != kind ) { /* varying symptom is still a failure */ }
            kind = r;
            if ( r == 3 && k >= 1 ) break;
        }
        double t0 = now();
        if ( kind != 3 )
        {
            auto fails = [ & ]( const std::string& s ) { return childRun( s, sh, 10, true, nullptr ) != 0; };
            bool progress = true;
            while ( progress && now() - t0 < budget )
            {
                progress = false;
                // truncate
                for ( size_t cut = best.size(); cut >= 1 && now() - t0 < budget; cut /= 2 )
                {
                    while ( best.size() >= cut )
                    {
                        std::string s = best.substr( 0, best.size() - cut );
                        if ( !fails( s ) ) break;
                        best     = s;
                        progress = true;
                        if ( now() - t0 > budget ) break;
                    }
                }
                // delete chunks
                for ( size_t chunk = best.size() / 2; chunk >= 1 && now() - t0 < budget; chunk /= 2 )
                {
                    for ( size_t a = 0; a + chunk <= best.size() && now() - t0 < budget; )
                    {
                        std::string s = best.substr( 0, a ) + best.substr( a + chunk );
                        if ( fails( s ) ) { best = s; progress = true; }
                        else a += chunk;
                    }
                }
                // zero chunks, then lower single bytes
                for ( size_t chunk = 8; chunk >= 1 && now() - t0 < budget; chunk /= 2 )
                {
                    for ( size_t a = 0; a < best.size() && now() - t0 < budget; a += chunk )
                    {
                        std::string s = best;
                        bool        ch = false;
                        for ( size_t q = a; q < a + chunk && q < s.size(); q++ )
                        {
                            if ( s[ q ] ) { s[ q ] = 0; ch = true; }
                        }
                        if ( ch && fails( s ) ) { best = s; progress = true; }
                    }
                }
                for ( size_t a = 0; a < best.size() && now() - t0 < budget; a++ )
                {
                    uint8_t v = uint8_t( best[ a ] );
                    for ( int t : { 1, v / 2, v - 1 } )
                    {
                        if ( t <= 0 || t >= v ) continue;
                        std::string s = best;
                        s[ a ]        = char( t );
                        if ( fails( s ) ) { best = s; progress = true; break; }
                    }
                }
            }
        }
        childRun( best, sh, kind == 3 ? 5 : hangLimit, true, &msg );
        writeFile( outp, best );
        printf( "SHRUNK %zu bytes: %s\n", best.size(), msg.c_str() );
        return 0;
    }
}

// ---------------------------------------------------------------- global operator new/delete
#ifndef PBT_NOTRACK
void* operator new( size_t n ) { return pbt::alloc::get( n, 1, false ); }
void* operator new[]( size_t n ) { return pbt::alloc::get( n, 2, false ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept { return pbt::alloc::get( n, 1, true ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { return pbt::alloc::get( n, 2, true ); }
void* operator new( size_t n, std::align_val_t a ) { return pbt::alloc::get( n, 1, false, size_t( a ) ); }
void* operator new[]( size_t n, std::align_val_t a ) { return pbt::alloc::get( n, 2, false, size_t( a ) ); }
void  operator delete( void* p ) noexcept { pbt::alloc::put( p, 1 ); }
void  operator delete[]( void* p ) noexcept { pbt::alloc::put( p, 2 ); }
void  operator delete( void* p, size_t ) noexcept { pbt::alloc::put( p, 1 ); }
void  operator delete[]( void* p, size_t ) noexcept { pbt::alloc::put( p, 2 ); }
void  operator delete( void* p, const std::nothrow_t& ) noexcept { pbt::alloc::put( p, 1 ); }
void  operator delete[]( void* p, const std::nothrow_t& ) noexcept { pbt::alloc::put( p, 2 ); }
void  operator delete( void* p, std::align_val_t ) noexcept { pbt::alloc::put( p, 1 ); }
void  operator delete[]( void* p, std::align_val_t ) noexcept { pbt::alloc::put( p, 2 ); }
void  operator delete( void* p, size_t, std::align_val_t ) noexcept { pbt::alloc::put( p, 1 ); }
void  operator delete[]( void* p, size_t, std::align_val_t ) noexcept { pbt::alloc::put( p, 2 ); }
#endif

#ifdef PBT_FUZZ

#include <cstdlib>
namespace pbt
{
    static std::atomic<uint64_t>   fzEvals { 0 };
    static std::unordered_set<uint64_t>* fzFps = nullptr;
    static std::map<std::string, uint64_t>* fzLabels = nullptr;
    static void fzDump()
    {
        const char* o = getenv( "PBT_FZ_STATS" );
        if ( !o || !fzFps ) return;
        std::string s = "{\"evals\":" + std::to_string( fzEvals.load() ) + "}";
        writeFile( std::string( o ) + ".json", s );
        std::string fb;
        for ( uint64_t f : *fzFps ) fb.append( (const char*)&f, 8 );
        writeFile( std::string( o ) + ".fps", fb );
        std::string st = "{\"labels\":{";
        bool        c  = false;
        for ( auto& l : *fzLabels )
        {
            if ( c ) st += ",";
            c = true;
            st += jsonStr( l.first ) + ":" + std::to_string( l.second );
        }
        writeFile( std::string( o ) + ".labels.json", st + "}}" );
        removeScratch( getpid() );
    }
}

extern "C" int LLVMFuzzerInitialize( int*, char*** )
{
    pbt::bigStack();
    pbt::loadDict();
    pbt::fzFps    = new std::unordered_set<uint64_t>;
    pbt::fzLabels = new std::map<std::string, uint64_t>;
    pbt::setup();
    atexit( pbt::fzDump );
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput( const uint8_t* d, size_t n )
{
    using namespace pbt;
    Ctx         ctx;
    std::string msg;
    ctx.labels = fzLabels;
    bool ok    = runOnce( [ & ]() { return Src( d, n ); }, ctx, msg );
    fzEvals += ctx.evals;
    if ( !ok )
    {
        fprintf( stderr, "PBT-FAIL: %s\n", msg.c_str() );
        fzDump();
        abort();
    }
    if ( ctx.nontrivial && fzFps->size() < 2000000 ) fzFps->insert( ctx.fpSet ? ctx.fp : mix( 1, n ) );
    return 0;
}

#else

int main( int argc, char** argv )
{
    using namespace pbt;
    bigStack();
    // re-exec once so that the larger stack limit is in force for the main thread
    if ( !getenv( "PBT_REEXEC" ) )
    {
        setenv( "PBT_REEXEC", "1", 1 );
        execv( "/proc/self/exe", argv );
    }
    loadDict();
    std::map<std::string, std::string> opt;
    std::vector<std::string>           pos;
    for ( int k = 1; k < argc; k++ )
    {
        if ( !strncmp( argv[ k ], "--", 2 ) && k + 1 < argc )
        {
            opt[ argv[ k ] + 2 ] = argv[ k + 1 ];
            k++;
        }
        else pos.push_back( argv[ k ] );
    }
    auto num = [ & ]( const char* k, double d ) { return opt.count( k ) ? atof( opt[ k ].c_str() ) : d; };
    if ( pos.empty() ) return 2;

    if ( pos[ 0 ] == "rule" )
    {
        printf( "%s\n", kRule );
        return 0;
    }
    if ( pos[ 0 ] == "replay" )
    {
        Shared*     sh = mapShared();
        std::string msg, b = readFile( pos[ 1 ].c_str() );
        int         r = childRun( b, sh, num( "timeout", 60 ), false, &msg, true );
        if ( r == 0 ) { printf( "REPLAY-OK\n" ); return 0; }
        printf( "REPLAY-FAILED: %s\n", msg.c_str() );
        return 1;
    }
    if ( pos[ 0 ] == "shrink" )
    {
        return doShrink( pos[ 1 ].c_str(), pos[ 2 ].c_str(), int( num( "confirm", 3 ) ), num( "hang", 40 ), num( "budget", 40 ) );
    }
    if ( pos[ 0 ] == "campaign" )
    {
        // deterministic re-run of a sequence of cases of one worker in one process (failures that need process history)
        Shared* sh = mapShared();
        uint64_t seed = strtoull( opt[ "seed" ].c_str(), nullptr, 10 );
        pid_t p = fork();
        if ( p == 0 ) workerMain( sh, int( num( "worker", 0 ) ), int( num( "workers", 8 ) ), seed, uint64_t( num( "first", 0 ) ), uint64_t( num( "cases", 1 ) ), now() + 1e6, opt[ "out" ] );
        int st;
        waitpid( p, &st, 0 );
        removeScratch( p );
        if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) { printf( "CAMPAIGN-OK\n" ); return 0; }
        printf( "CAMPAIGN-FAILED at %llu: %s\n", (unsigned long long)sh->idx.load(), sh->msg );
        return 1;
    }
    if ( pos[ 0 ] == "random" )
    {
        int                  W     = int( num( "workers", 8 ) );
        uint64_t             seed  = strtoull( opt[ "seed" ].c_str(), nullptr, 10 );
        uint64_t             cases = uint64_t( num( "cases", 10000 ) );
        uint64_t             per   = ( cases + W - 1 ) / W;
        double               dl    = now() + num( "time", 60 );
        double               hang  = num( "hang", 40 );
        std::string          out   = opt[ "out" ];
        std::vector<Shared*> sh( W );
        std::vector<pid_t>   pid( W );
        std::vector<double>  lastChange( W, now() );
        std::vector<uint64_t> lastBeat( W, 0 );
        for ( int w = 0; w < W; w++ )
        {
            sh[ w ] = mapShared();
            fflush( stdout );
            pid[ w ] = fork();
            if ( pid[ w ] == 0 )
            {
                // keep the sanitizer report of a crash
                int fd = open( ( out + "/stderr." + std::to_string( w ) ).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
                dup2( fd, 2 );
                workerMain( sh[ w ], w, W, seed, 0, per, dl, out );
            }
        }
        int  running = W, failures = 0;
        std::vector<bool> alive( W, true );
        while ( running > 0 )
        {
            usleep( 20000 );
            for ( int w = 0; w < W; w++ )
            {
                if ( !alive[ w ] ) continue;
                int   st = 0;
                pid_t r  = waitpid( pid[ w ], &st, WNOHANG );
                bool  ended = r == pid[ w ], hung = false;
                if ( !ended )
                {
                    uint64_t b = sh[ w ]->beat.load();
                    if ( b != lastBeat[ w ] ) { lastBeat[ w ] = b; lastChange[ w ] = now(); }
                    else if ( now() - lastChange[ w ] > hang )
                    {
                        kill( pid[ w ], SIGKILL );
                        waitpid( pid[ w ], &st, 0 );
                        ended = hung = true;
                    }
                }
                if ( !ended ) continue;
                alive[ w ] = false;
                running--;
                removeScratch( pid[ w ] );
                bool ok = !hung && WIFEXITED( st ) && WEXITSTATUS( st ) == 0;
                if ( !ok )
                {
                    failures++;
                    std::string f = out + "/fail." + std::to_string( w ) + ".bin";
                    writeFile( f, std::string( (const char*)sh[ w ]->rec.b, sh[ w ]->rec.len ) );
                    std::string why = hung ? "hang" : ( WIFEXITED( st ) && WEXITSTATUS( st ) == 77 ? std::string( sh[ w ]->msg ) : std::string( "crash" ) );
                    for ( char& ch : why ) if ( ch == '\n' ) ch = ' ';
                    printf( "FAIL worker=%d first=0 index=%llu file=%s why=%s\n", w, (unsigned long long)sh[ w ]->idx.load(), f.c_str(), why.c_str() );
                    fflush( stdout );
                }
            }
            // once something failed, give the others two seconds and stop
            if ( failures )
            {
                static double t0 = 0;
                if ( t0 == 0 ) t0 = now();
                if ( now() - t0 > 2 )
                {
                    for ( int w = 0; w < W; w++ )
                        if ( alive[ w ] )
                        {
                            int st;
                            kill( pid[ w ], SIGKILL );
                            waitpid( pid[ w ], &st, 0 );
                            removeScratch( pid[ w ] );
                            alive[ w ] = false;
                            running--;
                        }
                }
            }
        }
        uint64_t e = 0, c = 0;
        for ( int w = 0; w < W; w++ ) { e += sh[ w ]->evals.load(); c += sh[ w ]->cases.load(); }
        printf( "DONE cases=%llu evals=%llu failures=%d\n", (unsigned long long)c, (unsigned long long)e, failures );
        return failures ? 1 : 0;
    }
    return 2;
}
#endif
