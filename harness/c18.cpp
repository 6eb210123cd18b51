#include "common.h"
#include <dlfcn.h>
#include <clocale>
#include <cmath>
namespace pbt
{
    const char* const kProperty = "C18";
    const char* const kRule     = "A script of 1 to 8 steps (parse a generated text from a buffer or a file, write with an indentation, read the document into one of 8 structure types and write it again, look names up, text primitives) and a locale per step, run by every build variant of the "
                                  "library (compilers, optimisation, exceptions off, standard library off, C++ standard, unsigned char, own number conversion) in the C locale, and by every second one again in the generated locales; "
                                  "oracle: all transcripts (statuses, positions, messages, trees, numbers bit for bit, files byte for byte) are equal; with the library's own number conversion numbers agree within rounding error and the rest is equal; "
                                  "non-trivial = a document was accepted and written, or rejected with a position; distinct by script.";
    typedef void ( *Sink )( void*, int, const char*, unsigned long );
    struct Variant
    {
        std::string name;
        bool        own; // own number conversion
        void* ( *make )();
        void ( *drop )( void* );
        void ( *step )( void*, int, const char*, unsigned long, unsigned, const char*, Sink, void* );
    };
    static std::vector<Variant>     variants;
    static std::vector<std::string> locales; // usable ones, C not included

    void setup()
    {
        std::string dir = getenv( "PBT_VARIANTS" ) ? getenv( "PBT_VARIANTS" ) : ".";
        std::string list = slurp( dir + "/list" );
        for ( size_t p = 0; p < list.size(); )
        {
            size_t      e = list.find( '\n', p );
            std::string n = list.substr( p, e - p );
            p             = e + 1;
            void* h       = dlopen( ( dir + "/" + n + ".so" ).c_str(), RTLD_NOW | RTLD_LOCAL );
            if ( !h ) { fprintf( stderr, "%s\n", dlerror() ); abort(); }
            Variant v;
            v.name = n;
            v.own  = n.find( "own-" ) == 0;
            v.make = reinterpret_cast<decltype( v.make )>( dlsym( h, "c18_new" ) );
            v.drop = reinterpret_cast<decltype( v.drop )>( dlsym( h, "c18_free" ) );
            v.step = reinterpret_cast<decltype( v.step )>( dlsym( h, "c18_step" ) );
            variants.push_back( v );
        }
        for ( const char* l : { "de_DE.UTF-8", "ps_AF.UTF-8", "tr_TR.UTF-8", "fr_FR.UTF-8", "de_DE.ISO-8859-1", "C.UTF-8", "C.utf8", "POSIX" } )
            if ( setlocale( LC_ALL, l ) ) locales.push_back( l );
        setlocale( LC_ALL, "C" );
        if ( variants.empty() ) abort();
    }

    struct Item
    {
        int         tag;
        std::string s;
        bool operator==( const Item& o ) const { return tag == o.tag && s == o.s; }
    };
    typedef std::vector<Item> Transcript;
    static void sink( void* u, int tag, const char* p, unsigned long n )
    {
        Transcript& t = *static_cast<Transcript*>( u );
        if ( tag == 'F' )
        {
            t.push_back( { tag, slurp( std::string( p, n ) ) } );
            unlink( std::string( p, n ).c_str() );
        }
        else t.push_back( { tag, std::string( p, n ) } );
    }
    static double dbl( const std::string& s ) { double d; memcpy( &d, s.data(), 8 ); return d; }

    struct Step
    {
        int         op;
        std::string text;
        unsigned    n;
        unsigned    locale; // index + 1, 0: unchanged
        bool        thread; // through uselocale
    };

    // numbers of a document that the simple conversion handles within rounding error: few digits, exponent in range
    static bool tame( const std::string& t )
    {
        size_t run = 0;
        for ( size_t i = 0; i < t.size(); i++ )
        {
            bool dig = t[ i ] >= '0' && t[ i ] <= '9';
            run      = dig ? run + 1 : 0;
            if ( run > 40 ) return false;
            if ( ( t[ i ] == 'e' || t[ i ] == 'E' ) && i + 1 < t.size() )
            {
                size_t k = i + 1, z;
                if ( t[ k ] == '+' || t[ k ] == '-' ) k++;
                while ( k < t.size() && t[ k ] == '0' ) k++;
                for ( z = k; z < t.size() && t[ z ] >= '0' && t[ z ] <= '9'; ) z++;
                if ( z - k > 3 || ( z - k == 3 && t.compare( k, 3, "200" ) > 0 ) ) return false;
            }
        }
        return true;
    }
    static bool close( double a, double b, double eps )
    {
        if ( a == b || ( a != a && b != b ) ) return true;
        return std::fabs( a - b ) <= eps * std::fmax( std::fabs( a ), std::fabs( b ) );
    }
    static bool closeDoc( const ref::Val& a, const ref::Val& b, bool& skipped )
    {
        if ( a.kind != b.kind ) return false;
        if ( a.kind == ref::kNumber )
        {
            double m = std::fabs( a.d );
            if ( m != 0 && ( m > 1e300 || m < 1e-300 || m - m != 0 ) ) { skipped = true; return true; }
            return close( a.d, b.d, 3e-5 ) || ( m > 0.99e-4 && std::fabs( a.d - b.d ) < 1.2e-5 ); // digits end at the fourth zero or nine
        }
        if ( a.s != b.s || a.b != b.b || a.a.size() != b.a.size() || a.o.size() != b.o.size() ) return false;
        for ( size_t i = 0; i < a.a.size(); i++ ) if ( !closeDoc( a.a[ i ], b.a[ i ], skipped ) ) return false;
        for ( size_t i = 0; i < a.o.size(); i++ ) if ( a.o[ i ].first != b.o[ i ].first || !closeDoc( a.o[ i ].second, b.o[ i ].second, skipped ) ) return false;
        return true;
    }

    static std::string showItem( const Transcript& t, size_t i )
    {
        if ( i >= t.size() ) return "nothing";
        if ( t[ i ].tag == 'D' ) return fmt( "number %.17g", dbl( t[ i ].s ) );
        if ( t[ i ].tag == 'I' ) { long long v; memcpy( &v, t[ i ].s.data(), 8 ); return fmt( "integer %lld", v ); }
        return ( t[ i ].tag == 'F' ? "file " : "text " ) + quote( t[ i ].s );
    }

    void runCase( Src& s, Ctx& c )
    {
        std::vector<Step> script;
        uint32_t          n = 1 + s.below( 7 );
        bool              haveDoc = false;
        std::string       docs;
        static const char* const names[] = { "a", "b", "n", "s", "z", "o", "m", "inner", "", "exactly_16_bytes" };
        for ( uint32_t i = 0; i < n; i++ )
        {
            Step st;
            st.op     = haveDoc ? int( s.pick( { 4, 2, 5, 6, 2, 1 } ) ) : int( s.pick( { 6, 3, 0, 0, 0, 1 } ) );
            st.n      = s.u8() | unsigned( s.below( 40 ) ) << 8;
            st.locale = s.below( uint32_t( locales.size() ) + 1 );
            st.thread = s.chance( 1, 4 );
            if ( st.op == 0 || st.op == 1 )
            {
                haveDoc = true;
                switch ( s.pick( { 5, 5, 3, 2 } ) )
                {
                case 0: { gen::TextClass k; st.text = gen::anyText( s, k ); break; }
                case 1: // a document for the structures
                {
                    auto P = [ & ]( std::string& o ) {
                        o += "{\"s\":";
                        gen::literal( s, gen::text( s, 40 ), o );
                        o += ",\"n\":";
                        gen::numberText( s, o );
                        o += s.chance( 1, 2 ) ? ",\"b\":true,\"z\":null" : ",\"z\":null,\"b\":false";
                        if ( s.chance( 1, 2 ) ) { o += ",\"o\":"; gen::numberText( s, o ); }
                        o += '}';
                    };
                    std::string& o = st.text;
                    auto         N = [ & ]( std::string& o ) { uint32_t k = s.below( 5 ); for ( uint32_t q = 0; q < k; q++ ) { if ( q ) o += ','; gen::numberText( s, o ); } };
                    auto         M = [ & ]( std::string& o, bool p ) { uint32_t k = s.below( 4 ); for ( uint32_t q = 0; q < k; q++ ) { if ( q ) o += ','; gen::literal( s, gen::name( s ), o ); o += ':'; if ( p ) P( o ); else gen::numberText( s, o ); } };
                    unsigned     t = s.below( 8 );
                    st.n           = t << 3;
                    switch ( t )
                    {
                    case 0: P( o ); break;
                    case 1:
                        o += "{\"nums\":["; N( o ); o += "],\"inner\":"; P( o );
                        if ( s.chance( 2, 3 ) ) { o += ",\"list\":["; if ( s.chance( 1, 2 ) ) P( o ); o += ']'; }
                        if ( s.chance( 2, 3 ) ) { o += ",\"m\":{"; M( o, false ); o += '}'; }
                        if ( s.chance( 2, 3 ) ) { o += ",\"mp\":{"; M( o, true ); o += '}'; }
                        if ( s.chance( 1, 2 ) ) o += ",\"ab\":[true,false,true]";
                        if ( s.chance( 1, 2 ) ) { o += ",\"aa\":[[],["; gen::literal( s, gen::text( s, 40 ), o ); o += "]]"; }
                        o += '}';
                        break;
                    case 2: o += '['; N( o ); o += ']'; break;
                    case 3: o += '{'; M( o, true ); o += '}'; break;
                    case 4: o += '['; if ( s.chance( 3, 4 ) ) { P( o ); o += ','; P( o ); } o += ']'; break;
                    case 5: o += '{'; M( o, false ); o += '}'; break;
                    case 6: o += '['; gen::literal( s, gen::text( s, 300 ), o ); o += ']'; break;
                    default: gen::numberText( s, o );
                    }
                    if ( s.chance( 1, 8 ) ) gen::mutate( s, o );
                    break;
                }
                case 2: // numbers only
                {
                    st.text = "[";
                    uint32_t k = 1 + s.below( 6 );
                    for ( uint32_t q = 0; q < k; q++ ) { if ( q ) st.text += ','; if ( s.chance( 1, 3 ) ) st.text += gen::numberish( s ); else gen::numberText( s, st.text ); }
                    st.text += ']';
                    break;
                }
                default: st.text = gen::document( s ); gen::mutate( s, st.text ); break;
                }
                if ( st.op == 1 && s.chance( 1, 3 ) ) st.text = "\xEF\xBB\xBF" + st.text;
                docs += st.text;
            }
            if ( st.op == 3 && !script.empty() && s.chance( 3, 4 ) ) for ( auto& q : script ) if ( q.op < 2 ) st.n = ( st.n & ~0x38u ) | ( q.n & 0x38u );
            if ( st.op == 4 ) st.text = s.chance( 2, 3 ) ? s.oneOf( names ) : gen::name( s );
            if ( st.op == 5 ) st.text = s.chance( 1, 2 ) ? gen::text( s, 60 ) : gen::stringish( s ) + gen::numberish( s );
            if ( st.op == 5 ) st.text = st.text.c_str();
            c.input( uint64_t( st.op ) );
            c.input( st.text );
            c.input( uint64_t( st.n << 8 | st.locale ) );
            script.push_back( st );
        }
        c.noteLazy( [ & ] {
            std::string t;
            for ( auto& q : script ) t += fmt( "step %d n=%u locale=%s%s text=", q.op, q.n, q.locale ? locales[ q.locale - 1 ].c_str() : "-", q.thread ? " (thread)" : "" ) + quote( q.text, 2000 ) + "\n";
            return t;
        } );
        const std::string path = scratchDir() + "/v.json";
        auto run = [ & ]( const Variant& v, bool loc, std::vector<size_t>& marks ) {
            Transcript t;
            locale_t   tl = locale_t( 0 );
            void*      d  = v.make();
            for ( auto& st : script )
            {
                if ( loc && st.locale )
                {
                    if ( st.thread )
                    {
                        uselocale( LC_GLOBAL_LOCALE );
                        if ( tl ) freelocale( tl );
                        tl = newlocale( LC_ALL_MASK, locales[ st.locale - 1 ].c_str(), locale_t( 0 ) );
                        if ( tl ) uselocale( tl );
                    }
                    else setlocale( st.n & 1 ? LC_NUMERIC : LC_ALL, locales[ st.locale - 1 ].c_str() );
                }
                if ( st.op == 1 ) spew( path, st.text );
                marks.push_back( t.size() );
                v.step( d, st.op, st.text.data(), st.text.size(), st.n, path.c_str(), sink, &t );
            }
            v.drop( d );
            unlink( path.c_str() );
            if ( loc )
            {
                uselocale( LC_GLOBAL_LOCALE );
                if ( tl ) freelocale( tl );
                setlocale( LC_ALL, "C" );
            }
            return t;
        };
        std::vector<size_t> marks, m2;
        Transcript          base = run( variants[ 0 ], false, marks );
        for ( auto& i : base ) if ( i.tag == 'F' && i.s.size() > 1 ) c.nontrivial = true;
        for ( size_t i = 0; i < script.size(); i++ )
            if ( script[ i ].op < 2 && marks[ i ] < base.size() )
            {
                long long v;
                memcpy( &v, base[ marks[ i ] ].s.data(), 8 );
                c.label( v ? "rejected text" : "accepted text" );
                if ( v ) c.nontrivial = true;
            }
        bool tameNumbers = tame( docs );
        auto compare     = [ & ]( const Variant& v, bool loc ) {
            m2.clear();
            Transcript t = run( v, loc, m2 );
            c.label( ( ( loc ? "locale:" : "variant:" ) + v.name ).c_str() );
            c.evals++;
            for ( size_t i = 0; i < base.size() || i < t.size(); i++ )
            {
                bool same = i < base.size() && i < t.size() && base[ i ] == t[ i ];
                if ( !same && v.own && i < base.size() && i < t.size() && base[ i ].tag == t[ i ].tag )
                {
                    if ( base[ i ].tag == 'D' )
                    {
                        if ( !tameNumbers ) { c.label( "own conversion: wild number" ); return; }
                        // numbers read back from the own texts are floats
                        same = close( dbl( base[ i ].s ), dbl( t[ i ].s ), 1e-13 );
                    }
                    if ( base[ i ].tag == 'F' )
                    {
                        ref::Result x = ref::parse( base[ i ].s ), y = ref::parse( t[ i ].s );
                        bool        sk = false;
                        if ( x.ok && y.ok && closeDoc( x.v, y.v, sk ) ) same = true;
                        if ( !tameNumbers ) { c.label( "own conversion: wild number" ); return; }
                    }
                }
                if ( same ) continue;
                size_t k = 0;
                while ( k + 1 < marks.size() && marks[ k + 1 ] <= i ) k++;
                c.fail( "variant " + v.name + ( loc ? " in other locales" : "" ) + fmt( " differs from %s in step %zu (op %d): ", variants[ 0 ].name.c_str(), k, script[ k ].op ) + showItem( t, i ) + " instead of " + showItem( base, i ) );
            }
        };
        for ( size_t i = 1; i < variants.size(); i++ ) compare( variants[ i ], false );
        for ( size_t i = s.u8() & 1; i < variants.size(); i += 2 ) compare( variants[ i ], true );
    }
}
