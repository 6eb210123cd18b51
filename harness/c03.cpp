#include "common.h"
namespace pbt
{
    const char* const kProperty = "C03";
    const char* const kRule     = "Any byte sequence: the C01 texts, every truncation of valid documents, bounded sweeps (every byte value at one place, every prefix, every size up to a bound) through one object, nestings up to 200000 levels on an ordinary 8 MB stack, embedded NULs, unterminated and empty buffers; run under "
                                  "ASan/UBSan with exact-size buffers, allocation balance and a hang limit; non-trivial = at least 3 bytes and either malformed, deep or with a container; distinct by text.";
    void setup() {}

    static std::string bottomless( Src& s )
    {
        static const char* const unit[] = { "[", "{\"a\":", "[[", "[{\"a\":", "[1,", "{\"a\":1,\"b\":", " [", "[\n" };
        static const uint32_t    n[]    = { 900, 1001, 1100, 2000, 5000, 20000, 65534, 100000, 200000 };
        const char*              u      = s.oneOf( unit );
        uint32_t                 k      = s.oneOf( n );
        std::string              t;
        for ( uint32_t i = 0; i < k; i++ ) t += u;
        switch ( s.below( 4 ) )
        {
        case 0: break;
        case 1: t += "1"; break;
        case 2:
            t += "1";
            for ( size_t i = t.size(); i-- > 0; )
            {
                if ( t[ i ] == '[' ) t += ']';
                if ( t[ i ] == '{' ) t += '}';
                if ( t.size() > 3000000 ) break;
            }
            break;
        default: t += "]"; break;
        }
        return t;
    }

    void runCase( Src& s, Ctx& c )
    {
        if ( s.chance( 1, 60 ) )
        {
            bool     terminate = s.chance( 3, 4 );
            uint64_t h         = 1469598103934665603ull;
            J::StructuredData sd; // the same object for all of them
            c.evals = gen::sweep( s, [ & ]( const std::string& t )
            {
                if ( !terminate && !t.empty() && t.back() == 0 ) return;
                for ( char ch : t ) h = ( h ^ uint8_t( ch ) ) * 1099511628211ull;
                Buf            b( t, terminate );
                J::ParseResult p = sd.Parse( b.a );
                if ( !terminate && p.status == J::Status::kOk ) c.fail( "unterminated buffer accepted: " + quote( t ) );
                if ( p.status == J::Status::kOk ) toRef( sd.GetRootJsonValue(), c );
                else if ( terminate && t.size() >= 2 && sd.GetRootJsonValue() ) c.fail( "failed parse left a root value: " + quote( t ) );
            } );
            c.input( h );
            c.input( uint64_t( terminate ) );
            c.nontrivial = true;
            c.label( "sweeps" );
            return;
        }
        gen::TextClass cls = gen::tcRaw;
        std::string    t;
        bool           terminate = true, isDeep = false;
        switch ( s.pick( { 60, 30, 3, 1 } ) )
        {
        case 0: t = gen::anyText( s, cls, true ); break;
        case 1:
            t = gen::document( s );
            if ( !t.empty() ) t.resize( s.below( uint32_t( t.size() ) ) );
            c.label( "truncated" );
            break;
        case 2:
            t         = gen::anyText( s, cls );
            terminate = false;
            c.label( "unterminated" );
            break;
        default:
            t      = bottomless( s );
            isDeep = true;
            c.label( "bottomless" );
            break;
        }
        c.input( t );
        c.input( uint64_t( terminate ) );
        c.note( "text " + quote( t ) + ( terminate ? "" : " (unterminated)" ) );
        c.label( gen::className( cls ) );
        if ( !terminate && !t.empty() && t.back() == 0 ) terminate = true, t.pop_back();
        J::StructuredData sd;
        if ( s.chance( 1, 4 ) ) parseText( sd, "{\"old\":[1,2,{\"x\":\"a string that lives on the heap\"}]}" );
        J::ParseResult p;
        {
            Buf b( t, terminate );
            p = sd.Parse( b.a );
        }
        if ( !terminate && p.status == J::Status::kOk ) c.fail( "unterminated buffer accepted: " + quote( t ) );
        if ( p.status != J::Status::kOk && terminate && t.size() >= 2 && sd.GetRootJsonValue() ) c.fail( "failed parse left a root value: " + quote( t ) );
        if ( p.status == J::Status::kOk )
        {
            if ( !sd.GetRootJsonValue() ) c.fail( "successful parse without root value: " + quote( t ) );
            if ( !isDeep ) toRef( sd.GetRootJsonValue(), c );
        }
        if ( s.chance( 1, 4 ) ) parseText( sd, "[]" );
        c.nontrivial = t.size() >= 3 && ( p.status != J::Status::kOk || t.find_first_of( "[{" ) != std::string::npos );
        c.label( p.status == J::Status::kOk ? "accepted" : "rejected" );
    }
}
