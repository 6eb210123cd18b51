#include "types.h"
#include <atomic>
#include <thread>
#include <sched.h>
#include <sys/wait.h>
#include <signal.h>
#include <sys/prctl.h>
namespace pbt
{
    const char* const kProperty = "C19";
    const char* const kRule     = "2 to 6 threads, each with a generated script of up to 6 steps on documents of its own (parse a valid or broken text, write, re-parse the file, read objects of 9 structure types from a text, serialise them, write and read them back, look names "
                                  "up, edit the tree) and on one shared unchanging document (walk, look names up, iterate, validate, deserialise, write to a file of the thread, parse the shared file). Every case runs in a fresh process, first with all threads at once, started together and with "
                                  "generated yields, then step by step alone; oracle: the thread sanitizer reports nothing and the transcript (statuses, positions, trees, objects, file bytes) of every thread equals that of the sequential run; non-trivial = at least two threads "
                                  "ran steps of the same kind or used the shared document; distinct by scripts.";
    void setup() {}

    enum Op { oParse, oWrite, oTyped, oFind, oEdit, oSharedRead, oSharedFind, oSharedTyped, oSharedWrite, oSharedFile, oTexts, kOps };
    struct Step
    {
        Op          op;
        std::string text;
        uint32_t    n;
        uint8_t     yields;
    };
    using Script = std::vector<Step>;

    struct Shared
    {
        J::StructuredData sd;
        std::string       file;
    };

    static const char* const kNames[] = { "a", "b", "", "name", "value", "exactly_16_bytes", "a_name_that_is_longer_than_any_inline_buffer_0123456789", "nested", "req", "s" };

    static std::string result( const J::ParseResult& r ) { return fmt( "%u@%d:%d", unsigned( r.status ), r.errorLine, r.errorColumn ) + std::string( static_cast<const char*>( J::ParseResultToString( r ) ) ); }

    static std::string tree( const J::Value* v, Ctx& c ) { return v ? ref::show( toRef( v, c ) ) : "-"; }

    static std::string finders( const J::Value* v )
    {
        std::string o;
        const J::ObjectValue* ob = v ? v->AsJsonObjectValue() : nullptr;
        if ( !ob ) return "no object";
        for ( const char* n : kNames )
        {
            const Terathon::String<>* s = ob->FindString( n );
            const double*             d = ob->FindNumber( n );
            const bool*               b = ob->FindBool( n );
            o += fmt( "%d%d%d%d%d%d%d;", s != nullptr, d != nullptr, b != nullptr, ob->FindJsonNull( n ) != nullptr, ob->FindJsonValueArray( n ) != nullptr, ob->FindJsonObjectValue( n ) != nullptr, ob->FindMapElement( n ) != nullptr );
            if ( s ) o += static_cast<const char*>( *s );
            if ( d ) o += fmt( "%a", *d );
        }
        for ( const auto* e : *ob ) { o += static_cast<const char*>( e->GetKey() ); o += ','; }
        return o;
    }

    template <class T> std::string typed( J::StructuredData& sd, const std::string& file, Ctx& c, bool own )
    {
        std::string o;
        fam::Box<T> x;
        o += fmt( "v%u", unsigned( J::Validate( sd, x.v ) ) );
        o += fmt( "d%u", unsigned( sd.DeserializeTo( x.v ) ) );
        o += ref::show( fam::enc( x.v ) );
        if ( !own ) return o;
        J::StructuredData out, back;
        o += fmt( "s%u", unsigned( out.SerializeFrom( x.v ) ) );
        o += fmt( "w%u", unsigned( out.Write( file.c_str(), 1 ) ) );
        o += slurp( file );
        o += result( back.Parse( file.c_str() ) );
        o += tree( back.GetRootJsonValue(), c );
        unlink( file.c_str() );
        return o;
    }
    static std::string typedBy( uint32_t n, J::StructuredData& sd, const std::string& file, Ctx& c, bool own )
    {
        using namespace fam;
        switch ( n % 9 )
        {
        case 0: return typed<A>( sd, file, c, own );
        case 1: return typed<B>( sd, file, c, own );
        case 2: return typed<C>( sd, file, c, own );
        case 3: return typed<O>( sd, file, c, own );
        case 4: return typed<Vec<B>>( sd, file, c, own );
        case 5: return typed<OMap<C>>( sd, file, c, own );
        case 6: return typed<SMap<Array<double>>>( sd, file, c, own );
        case 7: return typed<Array<String<>>>( sd, file, c, own );
        default: return typed<F>( sd, file, c, own );
        }
    }
    template <class T> std::string sample( Src& s )
    {
        fam::Gen    g { s, 12 };
        fam::Box<T> b;
        fam::make( g, b.v );
        ref::Val v = fam::enc( b.v );
        if ( s.chance( 1, 3 ) ) fam::edit( s, v );
        std::string t;
        fam::render( s, v, t, true );
        return t;
    }
    static std::string sampleBy( uint32_t n, Src& s )
    {
        using namespace fam;
        switch ( n % 9 )
        {
        case 0: return sample<A>( s );
        case 1: return sample<B>( s );
        case 2: return sample<C>( s );
        case 3: return sample<O>( s );
        case 4: return sample<Vec<B>>( s );
        case 5: return sample<OMap<C>>( s );
        case 6: return sample<SMap<Array<double>>>( s );
        case 7: return sample<Array<String<>>>( s );
        default: return sample<F>( s );
        }
    }

    static std::string runScript( const Script& sc, Shared& sh, uint32_t sharedType, const std::string& dir, Ctx& c, bool threaded )
    {
        std::string       o, file = dir + ".json";
        J::StructuredData sd;
        for ( const Step& st : sc )
        {
            if ( threaded ) for ( uint8_t y = 0; y < st.yields; y++ ) sched_yield();
            o += fmt( "\n#%d ", int( st.op ) );
            switch ( st.op )
            {
            case oParse: o += result( parseText( sd, st.text ) ) + tree( sd.GetRootJsonValue(), c ); break;
            case oWrite:
                o += fmt( "%u", unsigned( sd.Write( file.c_str(), st.n % 5, st.n & 8 ? '\t' : ' ' ) ) );
                if ( sd.GetRootJsonValue() )
                {
                    o += slurp( file );
                    J::StructuredData again;
                    o += result( again.Parse( file.c_str() ) ) + tree( again.GetRootJsonValue(), c );
                    unlink( file.c_str() );
                }
                break;
            case oTyped:
            {
                J::StructuredData d;
                o += result( parseText( d, st.text ) );
                if ( d.GetRootJsonValue() ) o += typedBy( st.n, d, file, c, true );
                break;
            }
            case oFind: o += finders( sd.GetRootJsonValue() ); break;
            case oEdit:
                if ( J::Value* v = sd.GetRootJsonValue() )
                {
                    if ( double* p = v->GetDataAsPointerTo<double>() ) *p += 1;
                    if ( Terathon::String<>* p = v->GetDataAsPointerTo<Terathon::String<>>() ) *p += int32_t( st.n );
                    if ( v->AsJsonObjectValue() )
                    {
                        o += fmt( "%u", unsigned( J::Serialize( v, "edited by the thread", double( st.n ) ) ) );
                        if ( st.n % 4 == 0 ) v->AsJsonObjectValue()->PurgeObject();
                    }
                    o += tree( v, c );
                }
                break;
            case oSharedRead: o += tree( sh.sd.GetRootJsonValue(), c ); break;
            case oSharedFind: o += finders( sh.sd.GetRootJsonValue() ); break;
            case oSharedTyped: o += typedBy( sharedType, sh.sd, file, c, false ); break;
            case oSharedWrite:
                o += fmt( "%u", unsigned( sh.sd.Write( file.c_str(), st.n % 5 ) ) );
                o += slurp( file );
                unlink( file.c_str() );
                break;
            case oSharedFile:
            {
                J::StructuredData d;
                o += result( d.Parse( sh.file.c_str() ) ) + tree( d.GetRootJsonValue(), c );
                break;
            }
            default:
                for ( unsigned k = 0, m = unsigned( J::Status::kNestingTooDeep ) + 1; k < m; k++ ) { o += static_cast<const char*>( J::StatusToString( J::Status( ( k + st.n ) % m ) ) ); o += '|'; }
                break;
            }
        }
        return o;
    }

    // in a process of its own: returns a message, or nothing if all is well
    static std::string child( const std::vector<Script>& scripts, const std::string& sharedText, uint32_t sharedType, const std::string& base, bool verbose )
    {
        (void)verbose;
        Ctx    c;
        Shared sh;
        sh.file = base + "shared.json";
        spew( sh.file, sharedText );
        // the shared document comes from a thread that has ended, as it would in a program
        std::thread( [ & ] { parseText( sh.sd, sharedText ); } ).join();
        size_t                   n = scripts.size();
        std::vector<std::string> got( n ), err( n );
        std::atomic<uint32_t>    ready { 0 };
        std::atomic<bool>        go { false };
        std::vector<std::thread> th;
        for ( size_t k = 0; k < n; k++ )
            th.emplace_back( [ &, k ] {
                Ctx own;
                ready.fetch_add( 1, std::memory_order_relaxed );
                while ( !go.load( std::memory_order_relaxed ) ) sched_yield();
                try { got[ k ] = runScript( scripts[ k ], sh, sharedType, base + "t" + std::to_string( k ), own, true ); }
                catch ( const Failure& f ) { err[ k ] = f.msg; }
                catch ( ... ) { err[ k ] = "exception"; }
            } );
        while ( ready.load( std::memory_order_relaxed ) < n ) sched_yield();
        go.store( true, std::memory_order_relaxed );
        for ( auto& t : th ) t.join();
        std::string msg;
        for ( size_t k = 0; k < n && msg.empty(); k++ )
        {
            if ( !err[ k ].empty() ) { msg = fmt( "thread %zu: ", k ) + err[ k ]; break; }
            std::string alone;
            try { alone = runScript( scripts[ k ], sh, sharedType, base + "t" + std::to_string( k ), c, false ); }
            catch ( const Failure& f ) { msg = "run alone: " + f.msg; break; }
            if ( alone != got[ k ] )
            {
                size_t d = 0;
                while ( d < alone.size() && d < got[ k ].size() && alone[ d ] == got[ k ][ d ] ) d++;
                msg = fmt( "thread %zu got other results than when run alone: ", k ) + quote( got[ k ].substr( d > 60 ? d - 60 : 0, 160 ) ) + " instead of " + quote( alone.substr( d > 60 ? d - 60 : 0, 160 ) );
            }
        }
        unlink( sh.file.c_str() );
        return msg;
    }

    void runCase( Src& s, Ctx& c )
    {
        alloc::pause();
        c.checkLeaks = false;
        uint32_t            threads = 2 + s.below( 5 ), sharedType = s.below( 9 );
        std::string         sharedText = sampleBy( sharedType, s );
        if ( s.chance( 1, 4 ) ) { gen::Opt o; sharedText = gen::document( s, o ); }
        std::vector<Script> scripts( threads );
        uint32_t            uses[ kOps ] = {};
        std::string         same; // two threads often do the same thing
        for ( uint32_t k = 0; k < threads; k++ )
        {
            if ( k && s.chance( 1, 3 ) ) { scripts[ k ] = scripts[ k - 1 ]; }
            else
                for ( uint32_t n = 1 + s.below( 6 ); n; n-- )
                {
                    Step st;
                    st.op     = Op( s.pick( { 6, 5, 6, 2, 2, 2, 2, 3, 2, 2, 1 } ) );
                    st.n      = s.below( 64 );
                    st.yields = uint8_t( s.chance( 1, 3 ) ? s.below( 5 ) : 0 );
                    if ( st.op == oParse )
                    {
                        gen::TextClass cl;
                        if ( s.chance( 2, 3 ) ) { gen::Opt o; st.text = gen::document( s, o ); }
                        else st.text = gen::anyText( s, cl );
                        if ( st.text.size() > 3000 ) st.text.resize( 3000 );
                    }
                    if ( st.op == oTyped ) st.text = sampleBy( st.n, s );
                    scripts[ k ].push_back( st );
                }
            bool seen[ kOps ] = {};
            for ( auto& st : scripts[ k ] ) { if ( !seen[ st.op ] ) uses[ st.op ]++; seen[ st.op ] = true; }
        }
        for ( uint32_t k = 0; k < kOps; k++ ) if ( uses[ k ] > 1 ) c.nontrivial = true;
        c.input( sharedText );
        for ( auto& sc : scripts )
            for ( auto& st : sc ) { c.input( uint64_t( st.op ) << 32 | st.n ); c.input( st.text ); }
        c.evals = 0;
        for ( auto& sc : scripts ) c.evals += sc.size();
        c.label( fmt( "%u threads", threads ).c_str() );
        static const char* const names[] = { "parse", "write", "typed", "find", "edit", "shared walk", "shared find", "shared typed", "shared write", "shared file", "status texts" };
        for ( uint32_t k = 0; k < kOps; k++ ) if ( uses[ k ] > 1 ) c.label( names[ k ] );
        c.noteLazy( [ & ] {
            std::string o = "shared document " + quote( sharedText, 600 );
            for ( size_t k = 0; k < threads; k++ )
            {
                o += fmt( "\nthread %zu:", k );
                for ( auto& st : scripts[ k ] ) o += std::string( "\n  " ) + names[ st.op ] + fmt( " %u ", st.n ) + ( st.text.empty() ? "" : quote( st.text, 300 ) );
            }
            return o;
        } );
        std::string base = scratchDir() + "/";
        int         fd[ 2 ];
        if ( pipe( fd ) != 0 ) return;
        pid_t p = fork();
        if ( p == 0 )
        {
            close( fd[ 0 ] );
            prctl( PR_SET_PDEATHSIG, SIGKILL );
            std::string m = child( scripts, sharedText, sharedType, base, c.verbose );
            if ( m.size() > 4000 ) m.resize( 4000 );
            if ( write( fd[ 1 ], m.data(), m.size() ) < 0 ) _exit( 3 );
            _exit( 0 );
        }
        close( fd[ 1 ] );
        std::string m;
        char        b[ 4096 ];
        ssize_t     n;
        while ( ( n = read( fd[ 0 ], b, sizeof b ) ) > 0 ) m.append( b, size_t( n ) );
        close( fd[ 0 ] );
        int st = 0;
        waitpid( p, &st, 0 );
        if ( !m.empty() ) c.fail( m );
        if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 99 ) c.fail( "the thread sanitizer reports a data race" );
        if ( !WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ) c.fail( fmt( "the process ended with status %x", st ) );
    }
}
