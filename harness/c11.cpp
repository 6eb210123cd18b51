#include "common.h"
#include "iofault.h"
#include <cmath>
namespace pbt
{
    const char* const kProperty = "C11";
    const char* const kRule     = "Documents x prior file (absent, shorter, longer, same text, much longer) x indentation x fault schedule (short writes, EINTR, ENOSPC/EIO at any write, failing open, failing close, a really full device, every place of one short or failing transfer for small documents, missing directory, "
                                  "a directory as target), document objects without document, documents holding a NaN; oracle: the text of an undisturbed write to a fresh file; success only with exactly that content, every hard fault reported, file untouched without "
                                  "document, descriptor balance, object usable afterwards; non-trivial = a fault fired or the file existed before; distinct by document, prior content and schedule.";
    void setup() {}

    static void numbers( J::Value* v, std::vector<double*>& out )
    {
        if ( double* d = v->GetDataAsPointerTo<double>() ) out.push_back( d );
        if ( auto* a = v->GetDataAsPointerTo<Terathon::Array<J::Value*>>() )
            for ( int i = 0; i < a->GetArrayElementCount(); i++ ) numbers( ( *a )[ i ], out );
        if ( J::ObjectValue* o = v->AsJsonObjectValue() )
            for ( auto* e : *o ) numbers( e, out );
    }

    // One small document, written with one event at every place of the run of transfers.
    static void sweep( Src& s, Ctx& c )
    {
        using namespace iofault;
        std::string f = scratchDir() + "/out.json", t;
        for ( int i = 0; i < 6; i++ )
        {
            t = gen::document( s );
            if ( t.size() <= 200 ) break;
        }
        ref::Result r = ref::parse( t );
        if ( t.size() > 200 || !r.ok || r.depth > kDepthClaim ) t = "{\"a\":[1,\"b\\n\",null],\"c\":-1.5e9}";
        J::StructuredData sd;
        if ( parseText( sd, t ).status != J::Status::kOk ) return;
        uint32_t iw  = s.below( 5 );
        int      fd0 = openFds();
        unlink( f.c_str() );
        J::Status w;
        {
            Armed a;
            w = sd.Write( f.c_str(), iw );
        }
        if ( w != J::Status::kOk ) c.fail( "undisturbed write reports " + statusText( w ) + " for " + quote( t ) );
        uint32_t    calls = st.writes;
        std::string want  = slurp( f ), prior = want + "a longer tail that must go";
        if ( calls > 1200 ) calls = 1200;
        static const int errs[] = { ENOSPC, EIO, EDQUOT, EFBIG };
        int      err = s.oneOf( errs );
        uint32_t len = 1 + s.below( 12 );
        uint64_t n   = 0;
        for ( uint32_t kind = 0; kind < 4; kind++ )
            for ( uint32_t k = 0; k <= calls; k++ )
            {
                reset();
                for ( uint32_t i = 0; i < k; i++ ) st.wr.push_back( Step { kind == 3 ? aOne : aFull, 0, 0 } );
                if ( kind == 0 ) st.wr.push_back( Step { aOne, 0, 0 } );
                if ( kind == 1 ) st.wr.push_back( Step { aShort, len, 0 } );
                if ( kind >= 2 ) st.wr.push_back( Step { aFail, 0, err } );
                if ( ( k + kind ) % 3 ) spew( f, prior );
                else unlink( f.c_str() );
                std::string what = ", document " + quote( t ) + fmt( ", event %u (0: one byte, 1: %u bytes, 2: error %d, 3: error after single bytes) at transfer %u", kind, len, err, k );
                {
                    Armed a;
                    w = sd.Write( f.c_str(), iw );
                }
                n++;
                if ( openFds() != fd0 ) c.fail( "a descriptor stays open" + what );
                if ( st.hard && w == J::Status::kOk ) c.fail( "a failure is reported as success" + what );
                if ( !st.hard && w != J::Status::kOk ) c.fail( "write without failure reports " + statusText( w ) + what );
                if ( w == J::Status::kOk )
                {
                    std::string now = slurp( f );
                    if ( now != want ) c.fail( "success, but the file holds " + quote( now ) + " instead of " + quote( want ) + what );
                }
            }
        unlink( f.c_str() );
        c.evals = n;
        c.input( t );
        c.input( uint64_t( iw * 64 + len ) );
        c.nontrivial = true;
        c.label( "sweeps" );
    }

    void runCase( Src& s, Ctx& c )
    {
        using namespace iofault;
        Scope scope;
        if ( s.chance( 1, 100 ) ) { sweep( s, c ); return; }
        std::string f   = scratchDir() + "/out.json", g = scratchDir() + "/ref.json";
        unlink( f.c_str() );
        int         fd0 = openFds();
        J::StructuredData sd;
        std::string       t;
        bool              have = !s.chance( 1, 12 );
        if ( have )
        {
            t             = gen::document( s );
            ref::Result r = ref::parse( t );
            if ( !r.ok || r.depth > kDepthClaim || parseText( sd, t ).status != J::Status::kOk ) return;
        }
        else if ( s.chance( 1, 2 ) )
        {
            parseText( sd, "[1" ); // failed parse
        }
        uint32_t iw = s.below( 6 );
        // the undisturbed text
        std::string want;
        if ( have )
        {
            unlink( g.c_str() );
            J::Status w = sd.Write( g.c_str(), iw );
            if ( w != J::Status::kOk ) c.fail( "undisturbed write reports " + statusText( w ) + " for " + quote( t ) );
            want = slurp( g );
            ref::Result q = ref::parse( want );
            if ( !q.ok ) c.fail( "undisturbed write is not valid JSON: " + quote( want ) );
            if ( !ref::equal( q.v, toRef( sd.GetRootJsonValue(), c ), false ) ) c.fail( "undisturbed write gives another document: " + quote( want ) + " for " + quote( t ) );
            unlink( g.c_str() );
        }
        // a number no JSON text can express, anywhere in the document
        bool nan = false;
        if ( have && s.chance( 1, 10 ) )
        {
            std::vector<double*> all;
            numbers( sd.GetRootJsonValue(), all );
            if ( !all.empty() )
            {
                double* d = all[ s.below( uint32_t( all.size() ) ) ];
                *d        = s.chance( 1, 2 ) ? NAN : -NAN;
                nan       = true;
                c.label( "not-a-number" );
            }
        }
        // prior state of the file
        bool        existed = s.chance( 3, 4 );
        std::string prior;
        if ( existed )
        {
            switch ( s.below( 6 ) )
            {
            case 0: prior = want; break;
            case 1: prior = want + "tail"; break;
            case 2: prior = want.substr( 0, want.size() / 2 ); break;
            case 3: prior = std::string( 1 + s.below( 5000 ), '#' ); break;
            case 4: prior = "{}"; break;
            default: prior = "[1,2,3]\n" + std::string( s.below( 70000 ), ' ' ) + "]"; break;
            }
            spew( f, prior );
        }
        std::string target = f;
        uint32_t    place  = s.pick( { 30, 1, 1, 1 } );
        if ( place == 1 ) target = scratchDir() + "/none/out.json";
        if ( place == 2 ) target = scratchDir();
        if ( place == 3 ) target = "/dev/full";
        if ( place == 3 && access( "/dev/full", W_OK ) != 0 ) target = f, place = 0;
        if ( place == 0 )
        {
            uint32_t mode = s.pick( { 2, 4, 3, 1, 2 } );
            if ( mode == 1 || mode == 2 )
            {
                // transfers of the library are small: place the event anywhere in the run of writes
                size_t   span = want.size() / 2 + 2;
                uint32_t at   = s.chance( 1, 2 ) ? s.below( 8 ) : s.below( uint32_t( span > 4000 ? 4000 : span ) );
                Step     x { aShort, 1 + s.below( 40 ), 0 };
                for ( uint32_t i = 0; i < at; i++ ) st.wr.push_back( Step { s.chance( 1, 8 ) ? aOne : aFull, 0, 0 } );
                if ( mode == 2 )
                {
                    static const int errs[] = { ENOSPC, EIO, EDQUOT, EFBIG };
                    x.a   = s.chance( 1, 8 ) ? aEintr : aFail;
                    x.err = s.oneOf( errs );
                }
                else
                {
                    x.a = s.chance( 1, 2 ) ? aOne : aShort;
                    for ( uint32_t i = 0, k = s.below( 30 ); i < k; i++ ) st.wr.push_back( Step { s.chance( 1, 2 ) ? aOne : aShort, 1 + s.below( 10 ), 0 } );
                }
                st.wr.push_back( x );
                if ( mode == 2 && x.a == aFail && s.chance( 1, 2 ) )
                    for ( uint32_t i = 0; i < 200; i++ ) st.wr.push_back( x ); // the disk stays full for a while
            }
            if ( mode == 3 ) st.openErr = s.chance( 1, 2 ) ? EACCES : ENOSPC;
            if ( mode == 4 ) st.closeErr = s.chance( 1, 2 ) ? EIO : ENOSPC;
        }
        std::string sched;
        for ( size_t i = 0; i < st.wr.size(); i++ )
            if ( st.wr[ i ].a != aFull ) { sched += fmt( " #%zu %s%u", i, name( st.wr[ i ].a ), st.wr[ i ].n ); if ( sched.size() > 200 ) break; }
        sched += fmt( " open error %d close error %d target %u", st.openErr, st.closeErr, place );
        c.input( t );
        c.input( prior );
        if ( nan ) sched += " with a NaN";
        c.input( sched );
        std::string what = ", document " + ( have ? quote( t ) : "none" ) + ", " + ( existed ? fmt( "file held %zu bytes", prior.size() ) : "no file before" ) + ", faults:" + sched;
        c.noteLazy( [ & ] { return what; } );
        J::Status w;
        {
            Armed a;
            w = sd.Write( target.c_str(), iw );
        }
        if ( openFds() != fd0 ) c.fail( "a descriptor stays open" + what );
        bool        there = false;
        std::string now   = slurp( f, &there );
        if ( st.shorts ) c.label( "short-writes", st.shorts );
        if ( st.hard ) c.label( "failing-writes" );
        if ( st.closeFails ) c.label( "failing-closes" );
        if ( st.openFails ) c.label( "failing-opens" );
        c.nontrivial = existed || st.shorts || st.eintrs || st.hard || st.openFails || st.closeFails || place || nan;
        if ( !have )
        {
            if ( w == J::Status::kOk ) c.fail( "writing without a document succeeds" + what );
            if ( there != existed || now != prior ) c.fail( "writing without a document touches the file" + what );
            c.label( "without-document" );
            unlink( f.c_str() );
            return;
        }
        bool mustFail = nan || st.hard || st.openFails || st.closeFails || place;
        if ( mustFail && w == J::Status::kOk ) c.fail( "a failure is reported as success" + what );
        if ( w == J::Status::kOk && now != want ) c.fail( "success, but the file holds " + quote( now ) + " instead of " + quote( want ) + what );
        if ( !mustFail && !st.eintrs && w != J::Status::kOk ) c.fail( "write without failure reports " + statusText( w ) + what );
        if ( ( st.openFails || place ) && ( there != existed || now != prior ) ) c.fail( "the file changed although it was not opened" + what );
        // the object is still usable and the next write is complete
        if ( w != J::Status::kOk )
        {
            reset();
            w  = sd.Write( f.c_str(), iw );
            if ( nan ) { if ( w == J::Status::kOk ) c.fail( "a document with a NaN is written with success" + what ); }
            else if ( w != J::Status::kOk || slurp( f ) != want ) c.fail( "writing again after a failure gives " + statusText( w ) + " and " + quote( slurp( f ) ) + what );
        }
        unlink( f.c_str() );
        c.label( mustFail ? "must-fail" : "must-succeed" );
    }
}
