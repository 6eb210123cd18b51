// System calls of the library replaced at link time (-Wl,--wrap=...): short, interrupted, failing and early ending transfers.
// Only calls made while armed are affected; everything that fired is recorded.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <vector>
#include <string>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>

namespace iofault
{
    enum Act { aFull, aOne, aShort, aEintr, aFail, aEnd };
    struct Step { Act a; uint32_t n; int err; };

    struct State
    {
        bool              armed = false;
        std::vector<Step> rd, wr; // per transfer; afterwards full
        size_t            ri = 0, wi = 0;
        int               openErr = 0, closeErr = 0, fstatErr = 0;
        uint32_t          closeNth = 0, closeSeen = 0;
        std::string       growPath, growBy; // appended to the file right before the read with this number
        uint32_t          growAt = 0;
        bool              grown = false;
        // what happened
        uint32_t reads = 0, writes = 0, opens = 0, closes = 0, shorts = 0, eintrs = 0, hard = 0, ends = 0, openFails = 0, closeFails = 0, fstatFails = 0;
    };
    inline State st;

    inline const char* name( Act a )
    {
        static const char* const n[] = { "full", "one", "short", "EINTR", "fail", "end" };
        return n[ a ];
    }
    inline std::string show( const std::vector<Step>& v )
    {
        std::string o;
        for ( auto& s : v )
        {
            o += " ";
            o += name( s.a );
            if ( s.a == aShort ) o += std::to_string( s.n );
            if ( s.a == aFail ) o += std::to_string( s.err );
        }
        return o.empty() ? " none" : o;
    }
    // everything back to normal, and no memory of the schedule left behind
    inline void reset()
    {
        State z;
        std::swap( st, z );
    }
    struct Scope
    {
        Scope() { reset(); }
        ~Scope() { reset(); }
    };
    struct Armed
    {
        Armed() { st.armed = true; }
        ~Armed() { st.armed = false; }
    };
}

extern "C"
{
    int     __real_open( const char*, int, ... );
    int     __real_open64( const char*, int, ... );
    ssize_t __real_read( int, void*, size_t );
    ssize_t __real_write( int, const void*, size_t );
    int     __real_close( int );
    int     __real_fstat( int, struct stat* );

    int __wrap_open( const char* p, int f, ... )
    {
        va_list a;
        va_start( a, f );
        mode_t m = ( f & O_CREAT ) ? mode_t( va_arg( a, int ) ) : 0;
        va_end( a );
        if ( iofault::st.armed )
        {
            iofault::st.opens++;
            if ( iofault::st.openErr ) { iofault::st.openFails++; errno = iofault::st.openErr; return -1; }
        }
        return __real_open( p, f, m );
    }
    int __wrap_open64( const char* p, int f, ... )
    {
        va_list a;
        va_start( a, f );
        mode_t m = ( f & O_CREAT ) ? mode_t( va_arg( a, int ) ) : 0;
        va_end( a );
        return __wrap_open( p, f, m );
    }
    ssize_t __wrap_read( int fd, void* b, size_t n )
    {
        using namespace iofault;
        if ( !st.armed ) return __real_read( fd, b, n );
        if ( !st.growBy.empty() && !st.grown && st.reads == st.growAt )
        {
            st.grown = true;
            int g = __real_open( st.growPath.c_str(), O_WRONLY | O_APPEND, 0 );
            if ( g >= 0 ) { if ( __real_write( g, st.growBy.data(), st.growBy.size() ) < 0 ) st.grown = false; __real_close( g ); }
        }
        st.reads++;
        if ( st.ri >= st.rd.size() || n == 0 ) return __real_read( fd, b, n );
        Step s = st.rd[ st.ri++ ];
        switch ( s.a )
        {
        case aOne: if ( n > 1 ) st.shorts++; return __real_read( fd, b, 1 );
        case aShort:
            if ( s.n && s.n < n ) { st.shorts++; n = s.n; }
            return __real_read( fd, b, n );
        case aEintr: st.eintrs++; errno = EINTR; return -1;
        case aFail: st.hard++; errno = s.err; return -1;
        case aEnd:
        {
            // early only while bytes remain
            struct stat q;
            off_t       at = lseek( fd, 0, SEEK_CUR );
            if ( at < 0 || __real_fstat( fd, &q ) != 0 || at < q.st_size ) st.ends++;
            return 0;
        }
        default: return __real_read( fd, b, n );
        }
    }
    ssize_t __wrap_write( int fd, const void* b, size_t n )
    {
        using namespace iofault;
        if ( !st.armed ) return __real_write( fd, b, n );
        st.writes++;
        if ( st.wi >= st.wr.size() || n == 0 ) return __real_write( fd, b, n );
        Step s = st.wr[ st.wi++ ];
        switch ( s.a )
        {
        case aOne: if ( n > 1 ) st.shorts++; return __real_write( fd, b, 1 );
        case aShort:
            if ( s.n && s.n < n ) { st.shorts++; n = s.n; }
            return __real_write( fd, b, n );
        case aEintr: st.eintrs++; errno = EINTR; return -1;
        case aFail: st.hard++; errno = s.err; return -1;
        default: return __real_write( fd, b, n );
        }
    }
    int __wrap_close( int fd )
    {
        using namespace iofault;
        if ( !st.armed ) return __real_close( fd );
        st.closes++;
        int r = __real_close( fd );
        if ( st.closeErr && r == 0 ) { st.closeFails++; errno = st.closeErr; return -1; }
        return r;
    }
    int __wrap_fstat( int fd, struct stat* b )
    {
        using namespace iofault;
        if ( st.armed && st.fstatErr ) { st.fstatFails++; errno = st.fstatErr; return -1; }
        return __real_fstat( fd, b );
    }
}

// how many descriptors are open
inline int openFds()
{
    int n = 0;
    for ( int fd = 0; fd < 96; fd++ )
        if ( fcntl( fd, F_GETFD ) != -1 ) n++;
    return n;
}
