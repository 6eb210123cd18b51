#include "common.h"
#include "iofault.h"
namespace pbt
{
    // an error of the file as a whole is at no line and column
    static void noPosition( const J::ParseResult& r, Ctx& c, const std::string& what )
    {
        if ( ( r.status == J::Status::KFileOpenError || r.status == J::Status::KFileReadError || r.status == J::Status::KFileTooLarge ) && ( r.errorLine != 0 || r.errorColumn != 0 ) )
            c.fail( statusText( r.status ) + fmt( " at %d:%d: ", int( r.errorLine ), int( r.errorColumn ) ) + what );
    }
    const char* const kProperty = "C10";
    const char* const kRule     = "File contents (valid, damaged and binary texts, embedded NULs, empty, sizes 65500..65540, 65536..131080 and beyond 4 GiB) x read schedules (whole, single bytes, short reads, EINTR, errors, early end, failing open/fstat, growth of the file while it is read; for small files every place of the first short transfer, followed by the rest, an error or the end) "
                                  "x a document object in use; oracle: buffer parse of the same bytes (status, line, column, tree), error class for refused and failing files, descriptor balance; non-trivial = at least one injected event fired, or the size "
                                  "is within 40 bytes of the limit or above; distinct by content and schedule.";
    void setup() {}

    static std::string content( Src& s, Ctx& c )
    {
        gen::TextClass cls = gen::tcRaw;
        std::string    t;
        switch ( s.pick( { 6, 3, 3, 1 } ) )
        {
        case 0: t = gen::anyText( s, cls, true ); break;
        case 1:
        {
            // a document filled up to a size near the limit
            static const uint32_t base[] = { 65534, 65534, 65534, 65535, 65536, 32768, 4096, 8192, 16384, 131072, 65536 + 4096 };
            size_t want = s.oneOf( base );
            want += size_t( int( s.below( 13 ) ) - 6 );
            gen::Opt o;
            o.plain = true;
            t       = gen::document( s, o );
            switch ( s.below( 5 ) )
            {
            case 0: while ( t.size() < want ) t += ' '; break;
            case 1: { std::string p; while ( p.size() + t.size() < want ) p += ( p.size() % 50 == 49 ) ? '\n' : ' '; t = p + t; break; }
            case 2:
            {
                t = "[\"";
                while ( t.size() + 2 < want ) t += char( 'a' + ( t.size() * 7 ) % 26 );
                t += "\"]";
                break;
            }
            case 3:
            {
                t = "[";
                while ( t.size() + 12 < want ) { t += std::to_string( t.size() % 1000 ); t += ( t.size() % 97 < 3 ) ? ",\n" : ","; }
                t += "0";
                while ( t.size() + 1 < want ) t += ' ';
                t += "]";
                break;
            }
            default:
                while ( t.size() + 1 < want ) t += '\n';
                t += "?";
            }
            c.label( "large" );
            break;
        }
        case 2: t = gen::document( s ); if ( s.chance( 1, 3 ) ) gen::mutate( s, t ); break;
        default: t = ""; break;
        }
        return t;
    }

    static void same( const J::ParseResult& a, const J::StructuredData& x, const J::ParseResult& b, const J::StructuredData& y, Ctx& c, const std::string& what )
    {
        if ( a.status != b.status || a.errorLine != b.errorLine || a.errorColumn != b.errorColumn )
            c.fail( fmt( "file parse gives status %u at %d:%d, buffer parse %u at %d:%d", unsigned( a.status ), int( a.errorLine ), int( a.errorColumn ), unsigned( b.status ), int( b.errorLine ), int( b.errorColumn ) ) + what );
        if ( a.status != J::Status::kOk ) return;
        if ( !x.GetRootJsonValue() || !y.GetRootJsonValue() ) c.fail( "successful parse without document" + what );
        if ( !ref::equal( toRef( x.GetRootJsonValue(), c ), toRef( y.GetRootJsonValue(), c ), false ) ) c.fail( "file parse gives another document than buffer parse" + what );
    }

    // One small file, read in every way that differs in the place of one event: the first transfer ends after k bytes, and then continues, fails or ends.
    static void sweep( Src& s, Ctx& c )
    {
        using namespace iofault;
        std::string f = scratchDir() + "/in.json", t;
        for ( int i = 0; i < 6; i++ )
        {
            t = gen::document( s );
            if ( t.size() <= 300 ) break;
        }
        if ( t.size() > 300 ) t.resize( 300 );
        if ( s.chance( 1, 3 ) ) gen::mutate( s, t );
        if ( t.empty() ) t = " ";
        static const int errs[] = { EIO, EISDIR, EAGAIN, ENOMEM };
        int               err = s.oneOf( errs );
        uint32_t          second = 1 + s.below( 5 );
        J::StructuredData ref;
        J::ParseResult    want = parseText( ref, t );
        spew( f, t );
        int      fd0 = openFds();
        uint64_t n   = 0;
        for ( uint32_t kind = 0; kind < 5; kind++ )
            for ( uint32_t k = 0; k <= t.size(); k++ )
            {
                reset();
                if ( kind == 4 )
                    for ( uint32_t i = 0; i <= k; i++ ) st.rd.push_back( Step { aOne, 0, 0 } );
                else if ( k ) st.rd.push_back( Step { aShort, k, 0 } );
                if ( kind == 1 ) st.rd.push_back( Step { aShort, second, 0 } );
                if ( kind == 2 ) st.rd.push_back( Step { aFail, 0, err } );
                if ( kind == 3 )
                    for ( uint32_t i = 0; i < 500; i++ ) st.rd.push_back( Step { aEnd, 0, 0 } );
                std::string       what = fmt( ", file of %zu bytes ", t.size() ) + quote( t ) + fmt( ", first transfer of %u bytes, then ", k ) + ( kind == 2 ? "an error" : kind == 3 ? "the end of the file" : kind == 4 ? "(bytewise) the rest" : "the rest" );
                J::StructuredData sd;
                J::ParseResult    got;
                {
                    Armed a;
                    got = sd.Parse( f.c_str() );
                }
                n++;
                if ( openFds() != fd0 ) c.fail( "a descriptor stays open" + what );
                if ( st.hard || st.ends )
                {
                    if ( got.status != J::Status::KFileReadError && got.status != J::Status::KFileOpenError ) c.fail( "a failing read gives " + statusText( got.status ) + what );
                }
                else same( got, sd, want, ref, c, what );
            }
        unlink( f.c_str() );
        c.evals = n;
        c.input( t );
        c.input( uint64_t( err ) );
        c.nontrivial = true;
        c.label( "sweeps" );
    }

    void runCase( Src& s, Ctx& c )
    {
        using namespace iofault;
        Scope scope;
        if ( s.chance( 1, 100 ) ) { sweep( s, c ); return; }
        std::string f    = scratchDir() + "/in.json";
        int         fd0  = openFds();
        J::StructuredData sd;
        if ( s.chance( 1, 4 ) ) parseText( sd, "{\"old\":[1,2,{\"x\":\"a string that lives on the heap\"}]}" );
        uint32_t special = s.below( 60 );
        if ( special >= 57 )
        {
            // no regular file, or one of enormous size
            J::Status  got;
            const char* what;
            if ( special == 57 ) { what = "missing file"; got = sd.Parse( ( scratchDir() + "/none/such.json" ).c_str() ).status; }
            else if ( special == 58 ) { what = "directory"; { J::ParseResult r = sd.Parse( scratchDir().c_str() ); noPosition( r, c, what ); got = r.status; } }
            else
            {
                static const uint64_t sizes[] = { 0x100000000ull, 0x100000005ull, 0x80000010ull, 0x10000ull * 7, 0xfffffffffull, 65535 };
                uint64_t              n       = s.oneOf( sizes );
                what                          = "enormous sparse file";
                spew( f, "[1] " );
                if ( truncate( f.c_str(), off_t( n ) ) != 0 ) { unlink( f.c_str() ); return; }
                alloc::limitBytes( 1u << 28 );
                J::ParseResult r = sd.Parse( f.c_str() );
                noPosition( r, c, what );
                got = r.status;
                alloc::limitBytes( 0 );
                unlink( f.c_str() );
            }
            c.input( special );
            c.note( what );
            c.label( what );
            bool ok = special == 59 ? got == J::Status::KFileTooLarge : ( got == J::Status::KFileOpenError || got == J::Status::KFileReadError );
            if ( !ok ) c.fail( std::string( what ) + " gives " + statusText( got ) );
            if ( openFds() != fd0 ) c.fail( std::string( "a descriptor stays open: " ) + what );
            return;
        }
        std::string t = content( s, c );
        uint32_t    mode = s.pick( { 3, 6, 2, 1 } );
        if ( mode == 3 && t.size() < 2 ) mode = 0;
        if ( mode == 1 || ( mode == 3 && s.chance( 1, 2 ) ) )
        {
            uint32_t n = 1 + s.len( 40 );
            bool     hard = mode == 1 && s.chance( 1, 3 );
            for ( uint32_t i = 0; i < n; i++ )
            {
                Step x { aShort, 0, EIO };
                x.a = Act( s.pick( { 0, 3, 6 } ) );
                x.n = 1 + s.below( t.size() > 1 ? uint32_t( t.size() ) : 1 );
                if ( s.chance( 1, 2 ) ) x.n = 1 + x.n % 64;
                st.rd.push_back( x );
            }
            if ( hard )
            {
                Step& x = st.rd[ s.below( uint32_t( st.rd.size() ) ) ];
                static const int errs[] = { EIO, EISDIR, EAGAIN, ENOMEM };
                x.a = Act( 3 + s.below( 3 ) );
                x.err = s.oneOf( errs );
            }
            if ( hard && s.chance( 1, 3 ) )
            {
                // everything after stays at end of file
                Step x { aEnd, 0, 0 };
                for ( uint32_t i = 0; i < 4000; i++ ) st.rd.push_back( x );
            }
        }
        if ( mode == 2 )
        {
            if ( s.chance( 1, 2 ) ) st.openErr = s.chance( 1, 2 ) ? EACCES : EMFILE;
            else st.fstatErr = EIO;
        }
        if ( mode == 3 )
        {
            // somebody appends to the file while it is being read
            st.growPath = f;
            st.growAt   = s.chance( 2, 3 ) ? 0 : s.below( 4 );
            st.growBy   = s.chance( 1, 3 ) ? std::string( 1 + s.below( 3 ), ' ' ) : s.chance( 1, 2 ) ? gen::document( s ) : std::string( 1 + s.below( 9000 ), s.chance( 1, 2 ) ? ' ' : 'x' );
        }
        spew( f, t );
        std::string sched = show( st.rd );
        if ( sched.size() > 300 ) sched.resize( 300 );
        c.input( t );
        c.input( sched );
        c.input( st.growBy );
        c.input( uint64_t( st.growAt ) );
        c.noteLazy( [ & ] { return fmt( "file of %zu bytes ", t.size() ) + quote( t ) + " reads:" + sched + fmt( " open error %d fstat error %d", st.openErr, st.fstatErr ) + ( st.growBy.empty() ? std::string() : fmt( " before read %u the file grows by ", st.growAt ) + quote( st.growBy, 200 ) ); } );
        J::ParseResult got;
        {
            Armed a;
            got = sd.Parse( f.c_str() );
        }
        std::string what = fmt( ", file of %zu bytes ", t.size() ) + quote( t ) + ", reads:" + sched;
        if ( openFds() != fd0 ) c.fail( "a descriptor stays open" + what );
        unlink( f.c_str() );
        noPosition( got, c, what );
        bool event   = st.shorts || st.eintrs || st.hard || st.ends || st.openFails || st.fstatFails;
        c.nontrivial = event || t.size() > 65494;
        if ( st.shorts ) c.label( "short-reads", st.shorts );
        if ( st.hard || st.ends ) c.label( "failing-reads" );
        if ( st.eintrs ) c.label( "interrupted" );
        if ( st.openFails ) c.label( "open-failures" );
        if ( st.openFails )
        {
            if ( got.status != J::Status::KFileOpenError && got.status != J::Status::KFileReadError ) c.fail( "a file that cannot be opened gives " + statusText( got.status ) + what );
            return;
        }
        if ( st.hard || st.ends )
        {
            if ( got.status != J::Status::KFileReadError && got.status != J::Status::KFileOpenError ) c.fail( "a failing read gives " + statusText( got.status ) + what );
            return;
        }
        if ( st.grown )
        {
            c.label( "growing files" );
            c.nontrivial = true;
            if ( got.status == J::Status::KFileReadError ) return;
            if ( got.status == J::Status::KFileTooLarge && t.size() + st.growBy.size() > 65534 ) return;
            // the old or the new content
            J::StructuredData grownRef;
            J::ParseResult    w = parseText( grownRef, t + st.growBy );
            if ( w.status == got.status && w.errorLine == got.errorLine && w.errorColumn == got.errorColumn && ( got.status != J::Status::kOk || ref::equal( toRef( sd.GetRootJsonValue(), c ), toRef( grownRef.GetRootJsonValue(), c ), false ) ) ) return;
            what += fmt( ", which grows by %zu bytes meanwhile", st.growBy.size() );
        }
        if ( t.size() > 65534 )
        {
            if ( st.fstatFails || st.eintrs ) { if ( got.status == J::Status::kOk ) c.fail( "oversized file accepted" + what ); return; }
            if ( got.status != J::Status::KFileTooLarge ) c.fail( "oversized file gives " + statusText( got.status ) + what );
            c.label( "oversized" );
            return;
        }
        if ( ( st.eintrs || st.fstatFails ) && got.status != J::Status::kOk ) return; // retried or reported
        J::StructuredData ref;
        J::ParseResult    want = parseText( ref, t );
        same( got, sd, want, ref, c, what );
        c.label( got.status == J::Status::kOk ? "accepted" : "rejected" );
    }
}
