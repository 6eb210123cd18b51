#include "types.h"
namespace pbt
{
    template <class T> void roundTrip( Src& s, Ctx& c, const char* type, fam::Gen& g, bool single );
    template <class T> void roundTrip( Src& s, Ctx& c, const char* type )
    {
        static const uint32_t budgets[] = { 2, 6, 20, 60, 200 };
        if ( s.chance( 1, 250 ) )
        {
            // every size of the first container of scalars, or every length of the first text
            bool text = s.chance( 1, 2 );
            for ( uint32_t n = 1; n <= 130; n++ )
            {
                fam::Gen g { s, 3 };
                ( text ? g.hugeText : g.huge ) = n;
                roundTrip<T>( s, c, type, g, false );
            }
            c.evals = 130;
            c.label( "sweeps" );
            return;
        }
        fam::Gen g { s, s.oneOf( budgets ) };
        if ( s.chance( 1, 30 ) ) g.maxText = 1100;
        if ( s.chance( 1, 40 ) ) ( s.chance( 1, 2 ) ? g.huge : g.hugeText ) = gen::largeSize( s, 70000 );
        roundTrip<T>( s, c, type, g, true );
    }
    template <class T> void roundTrip( Src& s, Ctx& c, const char* type, fam::Gen& g, bool single )
    {
        fam::Box<T> box;
        T&          obj = box.v;
        fam::make( g, obj );
        ref::Val    want = fam::enc( obj );
        std::string shown = ref::show( want );
        c.input( type );
        c.input( shown );
        if ( single ) c.noteLazy( [ & ] { return std::string( "type " ) + type + " value " + quote( shown, 3000 ); } );
        c.nontrivial = c.nontrivial || !want.a.empty() || !want.o.empty();
        if ( single ) c.label( type );
        auto bad = [ & ]( const std::string& m ) { c.fail( m + " (type " + type + ", value " + quote( shown ) + ")" ); };

        J::StructuredData sd;
        bool              used = s.chance( 1, 4 );
        if ( used && parseText( sd, "{\"old\":[1,2,{\"x\":null}]}" ).status != J::Status::kOk ) bad( "parse failed" );
        J::Status st = sd.SerializeFrom( obj );
        if ( st != J::Status::kOk ) bad( "SerializeFrom reports " + statusText( st ) );
        if ( !ref::equal( want, fam::enc( obj ), true ) ) bad( "SerializeFrom changed the object" );
        ref::Val tree = toRef( sd.GetRootJsonValue(), c );
        if ( !ref::equal( want, tree, false ) ) bad( "serialised tree is " + quote( ref::show( tree ) ) );
        if ( J::Validate( sd, obj ) != J::Status::kOk ) bad( "the serialised document does not validate" );
        {
            fam::Box<T> backBox;
            T& back = backBox.v;
            st = sd.DeserializeTo( back );
            if ( st != J::Status::kOk ) bad( "DeserializeTo reports " + statusText( st ) );
            if ( !ref::equal( want, fam::enc( back ), true ) ) bad( "deserialised object is " + quote( ref::show( fam::enc( back ) ) ) );
            // once more into the same object
            st = sd.DeserializeTo( back );
            if ( st != J::Status::kOk ) bad( "second DeserializeTo reports " + statusText( st ) );
            if ( !ref::equal( want, fam::enc( back ), true ) ) bad( "deserialising twice gives " + quote( ref::show( fam::enc( back ) ) ) );
        }
        if ( !ref::equal( tree, toRef( sd.GetRootJsonValue(), c ), false ) ) bad( "DeserializeTo changed the document" );
        std::string f = scratchDir() + "/o.json";
        st            = sd.Write( f.c_str(), s.below( 5 ) );
        if ( st != J::Status::kOk ) bad( "Write reports " + statusText( st ) );
        std::string out = slurp( f );
        ref::Result r   = ref::parse( out );
        if ( !r.ok ) bad( "written file is not valid JSON: " + quote( out ) );
        if ( r.dups || !ref::equal( want, r.v, true ) ) bad( "written file is " + quote( out ) );
        if ( out.size() <= 65534 )
        {
            J::StructuredData sd2;
            J::ParseResult    p = sd2.Parse( f.c_str() );
            if ( p.status != J::Status::kOk ) bad( "written file is rejected with " + statusText( p.status ) + ": " + quote( out ) );
            fam::Box<T> backBox;
            T& back = backBox.v;
            st = sd2.DeserializeTo( back );
            if ( st != J::Status::kOk ) bad( "DeserializeTo from the file reports " + statusText( st ) );
            if ( !ref::equal( want, fam::enc( back ), true ) ) bad( "object from the file is " + quote( ref::show( fam::enc( back ) ) ) );
            // serialising into the document that was read gives the same again
            st = sd2.SerializeFrom( back );
            if ( st != J::Status::kOk || !ref::equal( want, toRef( sd2.GetRootJsonValue(), c ), false ) ) bad( "serialising the object read back gives something else" );
        }
        else c.label( "too-large-to-reparse" );
        unlink( f.c_str() );
    }

}
void fam::FAM_CAT( part, FAM_PART )( Src& s, Ctx& c, uint32_t type )
{
    dispatch( type, [ & ]( auto tag, const char* n ) { pbt::roundTrip<typename decltype( tag )::Type>( s, c, n ); } );
}
#if FAM_PART == 0
namespace pbt
{
    const char* const kProperty = "C06";
    const char* const kRule     = "Values of 37 types (scalars, both array and both map families, structures with free or member functions, optional, private, inherited, recursive and oddly named members, nested; at times every container size or text length from 1 to 130) with "
                                  "hostile texts, all doubles and generated keys; oracle: reference encoding of the value versus tree after SerializeFrom and versus the written file read by the reference parser (member order included), "
                                  "and equality after DeserializeTo from the tree and from the re-parsed file, also into a used object; non-trivial = value whose document is a non-empty container; distinct by type and document.";
    void setup() {}

    void runCase( Src& s, Ctx& c ) { fam::runPart( s, c, s.below( fam::kTypes ) ); }
}
#endif
