// Property-based testing engine: every random decision of a case is drawn from a byte
// stream (Src), so that a case is replayed, shrunk and fuzzed as a plain byte string.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace pbt
{
    struct Rng
    {
        uint64_t s;
        uint64_t next()
        {
            uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
            z          = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
            z          = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
            return z ^ ( z >> 31 );
        }
    };

    // Recording buffer lives in shared memory so that the parent can read the draws of a crashed worker.
    struct RecBuf
    {
        static constexpr uint32_t kMax = 1u << 20;
        volatile uint32_t         len;
        uint8_t                   b[ kMax ];
    };

    class Src
    {
    public:
        // random mode
        Src( uint64_t seed, RecBuf* r ) : rng { seed }, rec( r ) { rec->len = 0; }
        // replay mode
        Src( const uint8_t* d, size_t n ) : data( d ), size( n ) {}

        bool     random() const { return rec != nullptr; }
        uint8_t  u8();
        uint16_t u16() { uint16_t a = u8(); return uint16_t( a << 8 | u8() ); }
        uint32_t u32() { uint32_t a = u16(); return a << 16 | u16(); }
        uint64_t u64() { uint64_t a = u32(); return a << 32 | u32(); }
        // uniform in [0,n)
        uint32_t below( uint32_t n );
        uint32_t range( uint32_t lo, uint32_t hi ) { return lo + below( hi - lo + 1 ); }
        bool     chance( uint32_t num, uint32_t den ) { return below( den ) >= den - num; } // zero bytes -> false
        // weighted choice; index 0 is the simplest
        uint32_t pick( std::initializer_list<uint32_t> w );
        // geometric-ish small size with occasional large ones
        uint32_t len( uint32_t max );
        // integers near literals of the sources and powers of two
        int64_t     dictInt();
        std::string dictStr();
        size_t      pos() const { return rec ? rec->len : i; }
        bool        exhausted() const { return !rec && i >= size; }
        size_t      remaining() const { return rec ? 0 : ( i < size ? size - i : 0 ); }
        // all remaining bytes in replay mode (fuzzing), or a drawn number of random bytes
        std::string rest( uint32_t maxRandom );

        template <class T, size_t N>
        const T& oneOf( const T ( &a )[ N ] ) { return a[ below( N ) ]; }
        template <class T>
        T oneOf( std::initializer_list<T> a ) { return a.begin()[ below( uint32_t( a.size() ) ) ]; }
        template <class T>
        const T& oneOf( const std::vector<T>& a ) { return a[ below( uint32_t( a.size() ) ) ]; }

    private:
        Rng            rng { 0 };
        RecBuf*        rec  = nullptr;
        const uint8_t* data = nullptr;
        size_t         size = 0;
        size_t         i    = 0;
        void           put( uint8_t v );
        uint8_t        get();
    };

    struct Failure
    {
        std::string msg;
    };

    class Ctx
    {
    public:
        bool     verbose    = false;
        bool     nontrivial = false;
        bool     checkLeaks = true;
        uint64_t fp         = 0;
        bool     fpSet      = false;
        uint64_t evals      = 1; // evaluations represented by this case

        std::string                       text; // human readable description (verbose only)
        std::map<std::string, uint64_t>*  labels = nullptr;

        void label( const char* s, uint64_t n = 1 );
        void input( const std::string& bytes ); // folds into the fingerprint
        void input( uint64_t v );
        void note( const std::string& s );      // adds to description when verbose
        template <class F>
        void noteLazy( F&& f ) { if ( verbose ) { note( f() ); } }
        [[noreturn]] void fail( const std::string& msg );
        void check( bool ok, const char* what ) { if ( !ok ) fail( what ); }
    };

    std::string quote( const std::string& s, size_t max = 400 ); // C-like quoting
    std::string fmt( const char* f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );

    // ---- allocation tracking and fault injection
    namespace alloc
    {
        void     begin();               // forget everything tracked, start tracking on this thread
        void     pause();               // stop tracking on this thread
        void     resume();
        uint64_t live();                // tracked blocks not yet freed
        uint64_t liveBytes();
        uint64_t count();               // allocations since begin()
        // Fail the n-th (0-based) allocation made by this thread after the call; sticky: all later ones as well.
        void     arm( int64_t n, bool sticky );
        uint64_t disarm();              // returns number of failures injected
        uint64_t armedCount();          // allocations seen since arm()
        void     limitBytes( size_t n );// single allocations above n fail (0 = off)

        struct Untracked
        {
            Untracked();
            ~Untracked();
            bool was;
        };
    }

    // scratch directory of this process (created on demand, removed by the driver)
    const std::string& scratchDir();

    // ---- supplied by each property
    extern const char* const kProperty;
    extern const char* const kRule;
    void                     setup();              // once per process
    void                     runCase( Src&, Ctx& );
}
