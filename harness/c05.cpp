#include "common.h"
namespace pbt
{
    const char* const kProperty = "C05";
    const char* const kRule     = "Valid documents (hostile strings, all number spellings, duplicates, empty containers, deep nesting) x indentation width 0..20/200 x indentation character (space, tab, LF, CR); "
                                  "oracle: written bytes accepted by the reference parser with equal ordered tree, every line indented as asked, library re-parse equal, second write byte-identical; non-trivial = accepted document with a container or string; distinct by text and indentation.";
    void setup() {}

    static void one( Ctx& c, const std::string& t, uint32_t iw, char ic, bool single );
    void runCase( Src& s, Ctx& c )
    {
        static const char indents[] = { ' ', '\t', '\n', '\r' };
        if ( s.chance( 1, 120 ) )
        {
            char     ic = s.oneOf( indents );
            uint64_t h  = 1469598103934665603ull;
            if ( s.chance( 1, 4 ) )
            {
                // one document with every indentation
                std::string t = gen::document( s );
                if ( t.size() > 600 ) t = "{\"a\":[1,{\"b\":[[]]}],\"c\":{}}";
                for ( uint32_t iw = 0; iw <= 70; iw++ ) one( c, t, iw, ic, false );
                c.evals = 71;
                c.input( t );
            }
            else
            {
                uint32_t iw = s.below( 6 );
                c.evals     = gen::sweep( s, [ & ]( const std::string& t ) { one( c, t, iw, ic, false ); for ( char ch : t ) h = ( h ^ uint8_t( ch ) ) * 1099511628211ull; } );
                c.input( h );
                c.input( uint64_t( iw ) << 8 | uint8_t( ic ) );
            }
            c.nontrivial = true;
            c.label( "sweeps" );
            return;
        }
        std::string t;
        switch ( s.pick( { 1, 8, 2, 1 } ) )
        {
        case 0: t = s.rest( 48 ); break;
        case 1: t = gen::document( s ); break;
        case 2:
        {
            t          = "{";
            uint32_t n = 1 + s.below( 12 );
            for ( uint32_t i = 0; i < n; i++ )
            {
                if ( i ) t += ',';
                gen::literal( s, gen::name( s ), t );
                t += ':';
                if ( s.chance( 1, 2 ) ) gen::numberText( s, t );
                else gen::literal( s, gen::text( s, 200 ), t );
            }
            t += "}";
            break;
        }
        default: t = gen::deep( s ); break;
        }
        if ( s.chance( 1, 80 ) ) { t = gen::large( s, s.chance( 1, 2 ) ? 140000 : 65534 ); c.label( "large" ); }
        char              ic        = s.oneOf( indents );
        uint32_t          iw        = s.chance( 1, 12 ) ? s.below( 200 ) : s.below( 9 );
        c.input( t );
        c.input( uint64_t( iw ) << 8 | uint8_t( ic ) );
        c.note( "text " + quote( t ) + fmt( " indentation %u x 0x%02x", iw, ic ) );
        one( c, t, iw, ic, true );
    }

    static void one( Ctx& c, const std::string& t, uint32_t iw, char ic, bool single )
    {
        ref::Result r = ref::parse( t );
        if ( !r.ok || r.bom || r.depth > kDepthClaim ) return;
        if ( r.depth * iw > 20000 ) iw = 1;
        if ( t.size() > 65534 ) iw %= 3;
        J::StructuredData sd;
        if ( parseText( sd, t ).status != J::Status::kOk ) return;
        if ( single ) c.nontrivial = r.depth > 0 || r.strings > 0;
        if ( r.dups ) c.label( "with-duplicates" );
        std::string f1 = scratchDir() + "/a.json", f2 = scratchDir() + "/b.json";
        J::Status   w  = sd.Write( f1.c_str(), iw, ic );
        if ( w != J::Status::kOk ) c.fail( "writing failed with " + statusText( w ) + " for " + quote( t ) );
        std::string out = slurp( f1 );
        ref::Result q   = ref::parse( out );
        if ( !q.ok ) c.fail( fmt( "written file is not valid JSON (error at byte %zu): ", q.first ) + quote( out ) + " for document " + quote( t ) );
        if ( ic == ' ' || ic == '\t' )
        {
            std::string p = indentProblem( out, iw, ic );
            if ( !p.empty() ) c.fail( p + ": " + quote( out ) + " for document " + quote( t ) );
        }
        if ( r.loneSurrogate || r.rawSurrogate || r.nulEscape ) { c.label( "surrogates" ); }
        else if ( !ref::equal( r.v, q.v, true ) )
            c.fail( "written file denotes a different document: " + quote( out ) + " for " + quote( t ) );
        // exact tree against the in-memory document in any case
        ref::Val mem = toRef( sd.GetRootJsonValue(), c );
        if ( !r.loneSurrogate && !r.rawSurrogate && !ref::equal( mem, q.v, false ) ) c.fail( "written file differs from the document in memory: " + quote( out ) );
        {
            const bool big = out.size() > 65534; // more than a file may have
            if ( big ) c.label( "beyond-the-file-limit" );
            J::StructuredData sd2;
            J::ParseResult    p = big ? parseText( sd2, out ) : sd2.Parse( f1.c_str() );
            if ( p.status != J::Status::kOk ) c.fail( "written file rejected with " + statusText( p.status ) + ": " + quote( out ) + " for " + quote( t ) );
            if ( !ref::equal( mem, toRef( sd2.GetRootJsonValue(), c ), false ) ) c.fail( "re-parsed document differs: " + quote( out ) + " for " + quote( t ) );
            if ( sd2.Write( f2.c_str(), iw, ic ) != J::Status::kOk ) c.fail( "second write failed" );
            std::string out2 = slurp( f2 );
            if ( out2 != out ) c.fail( "second write differs: " + quote( out ) + " versus " + quote( out2 ) );
            unlink( f2.c_str() );
        }
        unlink( f1.c_str() );
        if ( single ) c.label( "round-trips" );
    }
}
