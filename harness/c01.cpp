#include "common.h"
namespace pbt
{
    const char* const kProperty = "C01";
    const char* const kRule     = "Texts are drawn as valid documents from the RFC 8259 grammar, as such documents with byte/token damage, as random token sequences, number-like and string-like "
                                  "spellings, deep nestings (<=1000) and raw bytes (also coverage-guided), and as bounded sweeps (every byte value at one place, every code unit of a row, every size up to a bound); non-trivial = acceptance is specified for the text and it has at least 2 bytes; distinct by text.";
    void setup() {}
    static void one( Ctx& c, const std::string& t, bool single );
    void runCase( Src& s, Ctx& c )
    {
        if ( s.chance( 1, 60 ) )
        {
            uint64_t h = 1469598103934665603ull;
            c.evals    = gen::sweep( s, [ & ]( const std::string& t ) { one( c, t, false ); for ( char ch : t ) h = ( h ^ uint8_t( ch ) ) * 1099511628211ull; } );
            c.input( h );
            c.nontrivial = true;
            c.label( "sweeps" );
            return;
        }
        gen::TextClass cls;
        std::string    t = gen::anyText( s, cls, true );
        c.label( gen::className( cls ) );
        one( c, t, true );
    }
    static void one( Ctx& c, const std::string& t, bool single )
    {
        ref::Result    r = ref::parse( t );
        if ( single ) { c.input( t ); c.note( "text " + quote( t ) ); }
        if ( r.open() || ( r.ok && r.depth > kDepthClaim ) ) { c.label( "left-open" ); }
        J::StructuredData sd;
        J::ParseResult    p = parseText( sd, t );
        if ( r.open() || r.depth > kDepthClaim ) return;
        if ( single ) c.nontrivial = t.size() >= 2;
        if ( single ) c.label( r.ok ? "acceptable" : "unacceptable" );
        bool ok = p.status == J::Status::kOk;
        if ( r.ok && !ok ) c.fail( "valid JSON text rejected with " + statusText( p.status ) + ": " + quote( t ) );
        if ( !r.ok && ok ) c.fail( fmt( "invalid JSON text accepted (first error at byte %zu): ", r.first ) + quote( t ) );
        if ( ok != ( sd.GetRootJsonValue() != nullptr ) ) c.fail( "success and presence of a root value disagree: " + quote( t ) );
    }
}
