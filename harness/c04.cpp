#include "common.h"
namespace pbt
{
    const char* const kProperty = "C04";
    const char* const kRule     = "Damaged documents (with leading whitespace and newlines, at times up to 140000 of them), token sequences, misspelt numbers, strings and literals, bounded sweeps (every byte value at one place, every prefix, lost, doubled or swapped byte); oracle: independent first-error classifier giving "
                                  "status class, token start and first impossible byte; plus all status values for the text table; non-trivial = text rejected at a byte after the first; distinct by text.";
    void setup() {}

    static void statusTable( Ctx& c )
    {
        struct E { J::Status s; const char* word; };
        // one characteristic word (lower case) of each documented status text
        static const E e[] = { { J::Status::kOk, "ok" },
                               { J::Status::KFileOpenError, "open" },
                               { J::Status::KFileReadError, "read" },
                               { J::Status::KFileTooLarge, "large" },
                               { J::Status::kTextBufferContentsInvalid, "text" },
                               { J::Status::kUnterminatedTextBuffer, "unterminated" },
                               { J::Status::kExpectedOpeningCurlyBraces, "opening curly" },
                               { J::Status::kExpectedClosingCurlyBracesOrComma, "closing curly" },
                               { J::Status::kExpectedOpeningSquareBrackets, "opening square" },
                               { J::Status::kExpectedClosingSquareBracketsOrComma, "closing square" },
                               { J::Status::kStringIllegalChar, "character" },
                               { J::Status::kStringIllegalEscape, "escape" },
                               { J::Status::kExpectedColon, "colon" },
                               { J::Status::kExpectedBeginingDoubleQuotes, "begin" },
                               { J::Status::kExpectedEndingDoubleQuotes, "ending" },
                               { J::Status::kFloatInvalid, "number" },
                               { J::Status::kExpectedTrueOrFalse, "true" },
                               { J::Status::kExpectedNull, "null" },
                               { J::Status::kExpectedJsonValue, "value" },
                               { J::Status::kExpectedEndOfFile, "end" },
                               { J::Status::kPrematureNullTerminator, "premature" },
                               { J::Status::kNumbersCannotHaveLeadingZeros, "zero" },
                               { J::Status::kInvalidStructuredData, "structure" },
                               { J::Status::kMissingObjectElement, "not found" },
                               { J::Status::kException, "exception" },
                               { J::Status::kInvalidValueType, "type" },
                               { J::Status::kNameNotPresent, "name" },
                               { J::Status::KFileWriteError, "writ" },
                               { J::Status::kNestingTooDeep, "nest" } };
        std::set<std::string> seen;
        for ( const E& x : e )
        {
            std::string t = str( J::StatusToString( x.s ), c ), l;
            for ( char ch : t ) l += char( tolower( (unsigned char)ch ) );
            if ( t.empty() ) c.fail( statusText( x.s ) + " has an empty text" );
            if ( !seen.insert( t ).second ) c.fail( statusText( x.s ) + " shares its text with another status: " + quote( t ) );
            if ( l.find( x.word ) == std::string::npos ) c.fail( statusText( x.s ) + " is described as " + quote( t ) + ", which does not mention '" + x.word + "'" );
        }
    }

    static void one( Ctx& c, const std::string& t, bool single );
    void runCase( Src& s, Ctx& c )
    {
        if ( s.chance( 1, 60 ) )
        {
            uint64_t    h   = 1469598103934665603ull;
            std::string pre = s.chance( 1, 2 ) ? "" : " \n\t\r\n ";
            c.evals = gen::sweep( s, [ & ]( const std::string& t ) { one( c, pre + t, false ); for ( char ch : t ) h = ( h ^ uint8_t( ch ) ) * 1099511628211ull; } );
            c.input( h );
            c.input( pre );
            c.nontrivial = true;
            c.label( "sweeps" );
            return;
        }
        if ( s.chance( 1, 200 ) )
        {
            statusTable( c );
            c.label( "status-table" );
            return;
        }
        std::string    t;
        gen::TextClass cls = gen::tcMutated;
        switch ( s.pick( { 2, 8, 3, 3 } ) )
        {
        case 0: t = s.rest( 48 ); break;
        case 1:
        {
            gen::Opt o;
            o.plain = s.chance( 2, 3 );
            t       = gen::document( s, o );
            gen::mutate( s, t );
            break;
        }
        case 2: t = gen::tokens( s ); break;
        default: t = gen::anyText( s, cls, true ); break;
        }
        if ( s.chance( 1, 3 ) )
        {
            std::string w;
            uint32_t    n = 1 + s.below( 6 );
            for ( uint32_t i = 0; i < n; i++ ) w += " \n\t\r"[ s.below( 4 ) ];
            if ( s.chance( 1, 100 ) )
            {
                // far from the start
                std::string u = w;
                n             = gen::largeSize( s, 140000 );
                while ( w.size() < n ) w += u;
                c.label( "far-positions" );
            }
            t = w + t;
        }
        c.input( t );
        c.note( "text " + quote( t ) );
        c.label( gen::className( cls ) );
        one( c, t, true );
    }

    static void one( Ctx& c, const std::string& t, bool single )
    {
        ref::Result       r = ref::parse( t );
        J::StructuredData sd;
        J::ParseResult    p = parseText( sd, t );
        // the textual form: status text plus position
        {
            std::string a = str( J::StatusToString( p.status ), c ), b = str( J::ParseResultToString( p ), c );
            if ( b.compare( 0, a.size(), a ) != 0 ) c.fail( "result text " + quote( b ) + " does not start with the status text " + quote( a ) );
            std::string tail = b.substr( a.size() );
            if ( p.errorLine > 0 )
            {
                // the numbers of the tail, in order, are line and column
                std::vector<long> nums;
                for ( size_t i = 0; i < tail.size(); )
                {
                    if ( isdigit( (unsigned char)tail[ i ] ) ) { nums.push_back( strtol( tail.c_str() + i, nullptr, 10 ) ); while ( i < tail.size() && isdigit( (unsigned char)tail[ i ] ) ) i++; }
                    else i++;
                }
                if ( nums != std::vector<long> { p.errorLine, p.errorColumn } ) c.fail( fmt( "result text for line %d column %d is ", p.errorLine, p.errorColumn ) + quote( b ) );
            }
        }
        if ( p.status == J::Status::kOk )
        {
            if ( p.errorLine != 0 || p.errorColumn != 0 ) c.fail( fmt( "successful parse reports position %d:%d for ", p.errorLine, p.errorColumn ) + quote( t ) );
            return;
        }
        if ( r.ok || r.open() || r.depth > kDepthClaim ) return;
        if ( single ) c.nontrivial = r.first > 0;
        if ( single ) c.label( fmt( "error-class-%d", int( r.err ) ).c_str() );
        if ( !statusAllowed( r, p.status ) ) c.fail( statusText( p.status ) + fmt( " does not describe the error (class %d at byte %zu) in ", int( r.err ), r.first ) + quote( t ) );
        if ( t.empty() && ( p.errorLine != 0 || p.errorColumn != 0 ) ) c.fail( fmt( "the empty text has an error at %d:%d", p.errorLine, p.errorColumn ) );
        if ( t.empty() || ( p.status == J::Status::kTextBufferContentsInvalid && p.errorLine == 0 && t.size() < 2 ) ) return;
        long long off = offsetOf( t, p.errorLine, p.errorColumn );
        if ( off < 0 ) c.fail( fmt( "position %d:%d does not exist in ", p.errorLine, p.errorColumn ) + quote( t ) );
        size_t lo = r.tok, hi = r.first;
        if ( r.afterNum ) lo = r.numTok;
        else if ( structural( r.err ) ) lo = hi;
        int l1, c1, l2, c2;
        lineCol( t, lo, l1, c1 );
        lineCol( t, hi, l2, c2 );
        if ( size_t( off ) < lo || size_t( off ) > hi ) c.fail( fmt( "error reported at %d:%d, but the problem is between %d:%d and %d:%d in ", p.errorLine, p.errorColumn, l1, c1, l2, c2 ) + quote( t ) );
        if ( p.errorLine > 1 ) c.label( "multi-line" );
    }
}
