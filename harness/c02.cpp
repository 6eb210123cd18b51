#include "common.h"
namespace pbt
{
    const char* const kProperty = "C02";
    const char* const kRule     = "Texts as for C01, biased to valid documents, and bounded sweeps (every byte value at one place, every code unit of a row, every exponent, every size up to a bound); for accepted texts the tree read through the public API is compared with an independent decoder "
                                  "(numbers bit for bit against std::from_chars); non-trivial = accepted text with a number, a string or a container; distinct by text.";
    void setup() {}
    static void one( Ctx& c, const std::string& t, bool single );
    void runCase( Src& s, Ctx& c )
    {
        if ( s.chance( 1, 60 ) )
        {
            uint64_t h = 1469598103934665603ull;
            c.evals    = gen::sweep( s, [ & ]( const std::string& t ) { one( c, t, false ); for ( char ch : t ) h = ( h ^ uint8_t( ch ) ) * 1099511628211ull; } );
            c.input( h );
            c.nontrivial = true;
            c.label( "sweeps" );
            return;
        }
        std::string t;
        switch ( s.pick( { 2, 6, 3, 3, 1 } ) )
        {
        case 0: t = s.rest( 48 ); break;
        case 1: t = gen::document( s ); break;
        case 2:
        {
            t          = "[";
            uint32_t n = 1 + s.below( 8 );
            for ( uint32_t i = 0; i < n; i++ ) { if ( i ) t += ','; gen::numberText( s, t ); }
            t += "]";
            break;
        }
        case 3:
        {
            t          = "[";
            uint32_t n = 1 + s.below( 5 );
            for ( uint32_t i = 0; i < n; i++ ) { if ( i ) t += ','; gen::literal( s, gen::text( s ), t ); }
            t += "]";
            break;
        }
        default: t = gen::deep( s ); break;
        }
        if ( s.chance( 1, 150 ) ) { t = gen::large( s ); c.label( "large" ); }
        c.input( t );
        c.note( "text " + quote( t ) );
        one( c, t, true );
    }
    static void one( Ctx& c, const std::string& t, bool single )
    {
        ref::Result       r = ref::parse( t );
        J::StructuredData sd;
        J::ParseResult    p = parseText( sd, t );
        if ( !r.ok || r.open() || r.depth > kDepthClaim ) return;
        if ( p.status != J::Status::kOk ) return; // acceptance is C01's business
        if ( single ) c.nontrivial = r.numbers || r.strings || r.depth;
        c.label( "numbers", r.numbers );
        c.label( "strings", r.strings );
        c.label( "escapes", r.escapes );
        c.label( "non-ascii", r.nonAscii );
        ref::Val got = toRef( sd.GetRootJsonValue(), c );
        if ( !ref::equal( r.v, got, false ) ) c.fail( "parsed document differs from the text " + quote( t ) + ": got " + quote( ref::show( got ) ) + " want " + quote( ref::show( r.v ) ) );
    }
}
