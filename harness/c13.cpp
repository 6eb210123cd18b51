#include "types.h"
#include <memory>
namespace pbt
{
    // Runs body() with every allocation of the operation failing in turn. body must start from equal state each time:
    //   before() prepares, op() is the operation (returns its status), after( status, injected ) judges.
    template <class Before, class Op, class After> void enumerate( Src& s, Ctx& c, const char* what, Before before, Op op, After after )
    {
        before();
        alloc::arm( int64_t( 1 ) << 60, false );
        J::Status st = op();
        uint64_t  n  = alloc::armedCount();
        alloc::disarm();
        after( st, false );
        c.label( what );
        c.label( "allocations", n );
        std::vector<uint64_t> at;
        const uint64_t        kMax = 160;
        if ( n <= kMax ) for ( uint64_t i = 0; i < n; i++ ) at.push_back( i );
        else
        {
            for ( uint64_t i = 0; i < 40; i++ ) { at.push_back( i ); at.push_back( n - 1 - i ); }
            for ( uint64_t i = 0; i < 80; i++ ) at.push_back( s.below( uint32_t( n ) ) );
            c.label( "sampled-indices" );
        }
        c.nontrivial = n > 0;
        c.evals      = 1;
        for ( uint64_t i : at )
            for ( int sticky = 0; sticky < 2; sticky++ )
            {
                c.noteLazy( [ & ] { return fmt( "\n%s: allocation %llu of %llu fails%s", what, (unsigned long long)i, (unsigned long long)n, sticky ? " and all later ones" : "" ); } );
                before();
                alloc::arm( int64_t( i ), sticky != 0 );
                st         = op();
                uint64_t k = alloc::disarm();
                c.evals++;
                if ( k ) c.label( "injected" );
                after( st, k != 0 );
            }
    }

    template <class T> void typed( Src& s, Ctx& c, const char* type )
    {
        using namespace fam;
        static const uint32_t budgets[] = { 1, 3, 6, 12 };
        Gen                   g { s, s.oneOf( budgets ), 40 };
        Box<T>                value;
        make( g, value.v );
        ref::Val    want = enc( value.v );
        std::string t;
        render( s, want, t, true );
        bool malformed = s.chance( 1, 8 );
        if ( malformed )
        {
            ref::Val v = want;
            edit( s, v );
            t.clear();
            render( s, v, t, true );
        }
        std::string shown = quote( t, 600 );
        uint32_t    what  = s.below( 6 );
        bool        used  = s.chance( 1, 3 );
        c.input( type );
        c.input( t );
        c.input( what * 2 + used );
        c.noteLazy( [ & ] { return std::string( "type " ) + type + " document " + shown; } );
        auto bad = [ & ]( const std::string& m ) { c.fail( m + " (type " + type + ", document " + shown + ")" ); };

        if ( what == 0 )
        {
            std::unique_ptr<J::StructuredData> sd;
            enumerate(
                s, c, "serialise",
                [ & ] {
                    sd.reset( new J::StructuredData );
                    if ( used ) parseText( *sd, "{\"old\":[1,2,{\"x\":\"some text that is kept on the heap\"}]}" );
                },
                [ & ] { return sd->SerializeFrom( value.v ); },
                [ & ]( J::Status st, bool injected ) {
                    if ( !ref::equal( want, enc( value.v ), true ) ) bad( "serialising changed the object" );
                    if ( st != J::Status::kOk && !injected ) bad( "serialising reports " + statusText( st ) );
                    if ( st == J::Status::kOk && ( !sd->GetRootJsonValue() || !ref::equal( want, toRef( sd->GetRootJsonValue(), c ), false ) ) ) bad( "serialising reports success with an incomplete document" );
                    if ( st != J::Status::kOk )
                    {
                        if ( sd->GetRootJsonValue() ) toRef( sd->GetRootJsonValue(), c );
                        if ( sd->Write( ( scratchDir() + "/x.json" ).c_str() ) == J::Status::kOk ) bad( "a document can be written after a failed serialisation" );
                        st = sd->SerializeFrom( value.v );
                        if ( st != J::Status::kOk ) bad( "serialising again reports " + statusText( st ) );
                        if ( !ref::equal( want, toRef( sd->GetRootJsonValue(), c ), false ) ) bad( "serialising again gives another document" );
                    }
                } );
            return;
        }
        if ( what == 4 )
        {
            // one more member or element
            const bool  array = s.chance( 1, 2 );
            std::string base  = array ? "[" : "{";
            for ( uint32_t n = s.below( 24 ), i = 0; i < n; i++ ) base += fmt( array ? "%s%u" : "%s\"%u\":0", i ? "," : "", i );
            base += array ? "]" : "}";
            const std::string name = s.chance( 1, 4 ) ? std::to_string( s.below( 30 ) ) : s.chance( 1, 3 ) ? std::string( 1 + s.below( 60 ), 'n' ) : "name";
            c.input( base );
            c.input( name );
            std::unique_ptr<J::StructuredData> sd;
            ref::Val                           old;
            // the old content, followed by the value
            auto complete = [ & ]( const ref::Val& v, const char* when ) {
                ref::Val x = old;
                if ( array ) x.a.push_back( want );
                else if ( !x.find( name ) ) x.o.emplace_back( name, want );
                if ( !ref::equal( x, v, false ) ) bad( std::string( when ) + " gives " + quote( ref::show( v ), 600 ) + " instead of " + quote( ref::show( x ), 600 ) );
            };
            enumerate(
                s, c, array ? "add an element" : "add a member",
                [ & ] {
                    sd.reset( new J::StructuredData );
                    parseText( *sd, base );
                    old = toRef( sd->GetRootJsonValue(), c );
                },
                [ & ] { return J::Serialize( sd->GetRootJsonValue(), name.c_str(), value.v ); },
                [ & ]( J::Status st, bool injected ) {
                    if ( !ref::equal( want, enc( value.v ), true ) ) bad( "adding changed the object" );
                    if ( st != J::Status::kOk && !injected ) bad( "adding reports " + statusText( st ) );
                    ref::Val v = toRef( sd->GetRootJsonValue(), c );
                    if ( st == J::Status::kOk ) { complete( v, "adding" ); return; }
                    // what was there is still there; at most an incomplete element is new
                    if ( array && v.a.size() == old.a.size() + 1 ) { old.a.push_back( v.a.back() ); }
                    if ( !ref::equal( old, v, false ) ) bad( "adding fails and gives " + quote( ref::show( v ), 600 ) );
                    st = J::Serialize( sd->GetRootJsonValue(), name.c_str(), value.v );
                    if ( st != J::Status::kOk ) bad( "adding again reports " + statusText( st ) );
                    complete( toRef( sd->GetRootJsonValue(), c ), "adding again" );
                } );
            return;
        }
        if ( what == 5 )
        {
            // into a value: containers and scalars are replaced, the members of a structure are new
            constexpr bool isStruct = std::is_same<T, fam::A>::value || std::is_same<T, fam::B>::value || std::is_same<T, fam::C>::value || std::is_same<T, fam::O>::value || std::is_same<T, fam::D>::value || std::is_same<T, fam::E>::value || std::is_same<T, fam::F>::value || std::is_same<T, fam::N>::value || std::is_same<T, fam::H>::value || std::is_same<T, fam::P>::value || std::is_same<T, fam::Q>::value;
            std::string    base = "{}";
            if ( !isStruct )
            {
                Gen    g2 { s, 6, 30 };
                Box<T> o;
                make( g2, o.v );
                base.clear();
                render( s, enc( o.v ), base, true );
            }
            c.input( base );
            std::unique_ptr<J::StructuredData> sd;
            enumerate(
                s, c, "serialise into a value",
                [ & ] {
                    sd.reset( new J::StructuredData );
                    parseText( *sd, base );
                },
                [ & ] { return J::SerializeProto( sd->GetRootJsonValue(), (const T&)value.v ); },
                [ & ]( J::Status st, bool injected ) {
                    if ( !ref::equal( want, enc( value.v ), true ) ) bad( "serialising changed the object" );
                    if ( st != J::Status::kOk && !injected ) bad( "serialising into a value reports " + statusText( st ) );
                    ref::Val v = toRef( sd->GetRootJsonValue(), c );
                    if ( st != J::Status::kOk )
                    {
                        st = J::SerializeProto( sd->GetRootJsonValue(), (const T&)value.v );
                        if ( st != J::Status::kOk ) bad( "serialising again reports " + statusText( st ) );
                        v = toRef( sd->GetRootJsonValue(), c );
                    }
                    if ( !ref::equal( want, v, false ) ) bad( "serialising into " + quote( base, 300 ) + " gives " + quote( ref::show( v ), 600 ) );
                } );
            return;
        }
        J::StructuredData sd;
        if ( parseText( sd, t ).status != J::Status::kOk ) bad( "parse failed" );
        ref::Val  doc = toRef( sd.GetRootJsonValue(), c );
        Box<T>    model;
        Problems  p, q;
        ref::Val  prior;
        if ( used )
        {
            Gen    g2 { s, 5, 30 };
            Box<T> o;
            make( g2, o.v );
            prior = enc( o.v );
            dec( prior, model.v, q );
        }
        dec( doc, model.v, p );
        ref::Val result = enc( model.v );
        // a map that is read into again keeps or drops its members: not compared
        const bool open = used && p.mapReread;
        std::unique_ptr<Box<T>> dest;
        auto before = [ & ] {
            dest.reset( new Box<T> );
            Problems z;
            if ( used ) dec( prior, dest->v, z );
        };
        auto ok     = [ & ]( J::Status st ) { return ( st == J::Status::kOk ) == p.none(); };
        if ( what == 1 )
        {
            ref::Val empty;
            enumerate(
                s, c, "validate", before, [ & ] { return J::Validate( sd, dest->v ); },
                [ & ]( J::Status st, bool injected ) {
                    if ( !ref::equal( doc, toRef( sd.GetRootJsonValue(), c ), false ) ) bad( "validation changed the document" );
                    if ( !p.none() && st == J::Status::kOk ) bad( "a document that does not conform is validated" );
                    if ( p.none() && st != J::Status::kOk && !injected ) bad( "validation reports " + statusText( st ) );
                    if ( injected && !ok( J::Validate( sd, dest->v ) ) ) bad( "validating again gives another result" );
                } );
            return;
        }
        enumerate(
            s, c, "deserialise", before, [ & ] { return sd.DeserializeTo( dest->v ); },
            [ & ]( J::Status st, bool injected ) {
                if ( !ref::equal( doc, toRef( sd.GetRootJsonValue(), c ), false ) ) bad( "deserialisation changed the document" );
                if ( !p.none() && st == J::Status::kOk ) bad( "a document that does not conform is deserialised" );
                if ( p.none() && st != J::Status::kOk && !injected ) bad( "deserialisation reports " + statusText( st ) );
                if ( st == J::Status::kOk && !open && !ref::equal( result, enc( dest->v ), true ) ) bad( "deserialisation reports success with an incomplete object: " + quote( ref::show( enc( dest->v ) ) ) + " instead of " + quote( ref::show( result ) ) );
                if ( st != J::Status::kOk )
                {
                    enc( dest->v );
                    st = sd.DeserializeTo( dest->v );
                    if ( !ok( st ) ) bad( "deserialising again reports " + statusText( st ) );
                    if ( st == J::Status::kOk && !open && !ref::equal( result, enc( dest->v ), true ) ) bad( "deserialising again gives " + quote( ref::show( enc( dest->v ) ) ) + " instead of " + quote( ref::show( result ) ) );
                }
            } );
    }

#if FAM_PART == 0
    static void parsing( Src& s, Ctx& c )
    {
        std::string    t;
        gen::TextClass cls;
        switch ( s.pick( { 5, 2, 1 } ) )
        {
        case 0: { gen::Opt o; t = gen::document( s, o ); break; }
        case 1: { t = gen::document( s ); gen::mutate( s, t ); break; }
        default: t = gen::anyText( s, cls );
        }
        if ( t.size() > 3000 ) t.resize( 3000 );
        if ( t.empty() ) t = "[\"a\"]";
        bool        file = s.chance( 1, 3 ), used = s.chance( 1, 3 );
        std::string f = scratchDir() + "/in.json", shown = quote( t, 600 );
        if ( file ) spew( f, t );
        c.input( t );
        c.input( file * 2 + used );
        c.noteLazy( [ & ] { return ( file ? "file " : "text " ) + shown; } );
        auto bad = [ & ]( const std::string& m ) { c.fail( m + " (" + ( file ? "file " : "text " ) + shown + ")" ); };
        J::StructuredData ref;
        J::ParseResult    want = parseText( ref, t );
        ref::Val          doc;
        if ( want.status == J::Status::kOk ) doc = toRef( ref.GetRootJsonValue(), c );
        Buf                                b( t );
        std::unique_ptr<J::StructuredData> sd;
        J::ParseResult                     r;
        auto parse = [ & ] { r = file ? sd->Parse( f.c_str() ) : sd->Parse( b.a ); return r.status; };
        auto same  = [ & ]( J::ParseResult x, const char* when ) {
            if ( x.status != want.status || x.errorLine != want.errorLine || x.errorColumn != want.errorColumn ) bad( fmt( "%s gives status %u at %d:%d instead of %u at %d:%d", when, unsigned( x.status ), int( x.errorLine ), int( x.errorColumn ), unsigned( want.status ), int( want.errorLine ), int( want.errorColumn ) ) );
            if ( x.status == J::Status::kOk && ( !sd->GetRootJsonValue() || !ref::equal( doc, toRef( sd->GetRootJsonValue(), c ), false ) ) ) bad( std::string( when ) + " gives another document" );
        };
        enumerate(
            s, c, file ? "parse file" : "parse text",
            [ & ] {
                sd.reset( new J::StructuredData );
                if ( used ) parseText( *sd, "{\"old\":[1,2,{\"x\":\"some text that is kept on the heap\"}]}" );
            },
            parse,
            [ & ]( J::Status st, bool injected ) {
                if ( !injected ) { same( r, "parse" ); return; }
                if ( st == J::Status::kOk ) same( r, "parse that lacked memory" );
                else
                {
                    if ( sd->GetRootJsonValue() )
                    {
                        ref::Val v = toRef( sd->GetRootJsonValue(), c );
                        // with a file the text may not have been obtained, so that the old document is still there
                        if ( !( file && used && v.kind == ref::kObject && v.find( "old" ) ) ) bad( "a failed parse leaves a document: " + quote( ref::show( v ) ) );
                    }
                }
                J::Status again = parse();
                (void)again;
                same( r, "parse again" );
            } );
        if ( file ) unlink( f.c_str() );
    }

    static void writing( Src& s, Ctx& c )
    {
        std::string       t = gen::document( s );
        if ( t.size() > 3000 ) t = "{\"a\":[1,2,\"three\\u0041\"],\"long\":\"" + std::string( 300, 'x' ) + "\"}";
        J::StructuredData sd;
        if ( parseText( sd, t ).status != J::Status::kOk ) return;
        std::string f = scratchDir() + "/out.json", g = scratchDir() + "/want.json", shown = quote( t, 600 );
        uint32_t    iw = s.chance( 1, 3 ) ? 40 : s.below( 6 );
        J::Status   w  = sd.Write( g.c_str(), iw );
        if ( w != J::Status::kOk ) return;
        std::string want = slurp( g );
        ref::Val    doc  = toRef( sd.GetRootJsonValue(), c );
        unlink( g.c_str() );
        c.input( t );
        c.input( iw );
        c.noteLazy( [ & ] { return fmt( "write with indentation %u, text ", iw ) + shown; } );
        auto bad = [ & ]( const std::string& m ) { c.fail( m + " (text " + shown + ")" ); };
        enumerate(
            s, c, "write", [ & ] { unlink( f.c_str() ); }, [ & ] { return sd.Write( f.c_str(), iw ); },
            [ & ]( J::Status st, bool injected ) {
                if ( !ref::equal( doc, toRef( sd.GetRootJsonValue(), c ), false ) ) bad( "write changed the document" );
                if ( st != J::Status::kOk && !injected ) bad( "write reports " + statusText( st ) );
                if ( st == J::Status::kOk && slurp( f ) != want ) bad( "write reports success with an incomplete file " + quote( slurp( f ) ) );
                if ( st != J::Status::kOk )
                {
                    st = sd.Write( f.c_str(), iw );
                    if ( st != J::Status::kOk || slurp( f ) != want ) bad( "writing again gives " + statusText( st ) + " and " + quote( slurp( f ) ) );
                }
            } );
        unlink( f.c_str() );
    }
#endif
}
void fam::FAM_CAT( part, FAM_PART )( Src& s, Ctx& c, uint32_t type )
{
    dispatch( type, [ & ]( auto tag, const char* n ) { pbt::typed<typename decltype( tag )::Type>( s, c, n ); } );
}
#if FAM_PART == 0
namespace pbt
{
    const char* const kProperty = "C13";
    const char* const kRule     = "Operations (parse text and file, write, serialise (a document, a new member or element, into an existing value), validate and deserialise values and documents of 37 types, on fresh and used document objects) x every allocation of the operation failing alone and with all later ones "
                                  "(all indices up to 160 allocations, otherwise the first and last 40 and 80 drawn); oracle: non-success status or the complete result, document and objects intact, the repeated operation gives the undisturbed result, allocation "
                                  "balance; non-trivial = the operation allocates; distinct by operation and input; evaluations count the injected runs.";
    void setup() {}
    void runCase( Src& s, Ctx& c )
    {
        switch ( s.pick( { 3, 1, 6 } ) )
        {
        case 0: parsing( s, c ); break;
        case 1: writing( s, c ); break;
        default: fam::runPart( s, c, s.below( fam::kTypes ) );
        }
    }
}
#endif
