#include "typed.h"
namespace pbt
{
    template <class T> void conform( Src& s, Ctx& c, const char* type )
    {
        using namespace fam;
        static const uint32_t budgets[] = { 2, 6, 20, 60 };
        ref::Val              v;
        switch ( s.pick( { 12, 1, 2 } ) )
        {
        case 0:
        {
            Gen g { s, s.oneOf( budgets ), 30 };
            Box<T> b;
            make( g, b.v );
            v = enc( b.v );
            break;
        }
        case 1: v = anyVal( s ); break;
        default:
            // document of another type of the family
            v = anyVal( s );
            v.kind = ref::kObject;
            v.a.clear();
            {
                Gen g { s, 10, 20 };
                Box<A> a; Box<C> x; Box<N> n;
                make( g, a.v ); make( g, x.v ); make( g, n.v );
                ref::Val o[] = { enc( a.v ), enc( x.v ), enc( n.v ) };
                for ( auto& e : o[ s.below( 3 ) ].o ) if ( !v.find( e.first ) ) v.o.push_back( e );
            }
        }
        uint32_t n = s.pick( { 2, 5, 3, 1, 1 } );
        for ( uint32_t i = 0; i < n; i++ ) edit( s, v );
        const char* under = nullptr;
        if ( s.chance( 1, 6 ) )
        {
            ref::Val w;
            w.kind = ref::kObject;
            w.o.emplace_back( "x", anyVal( s, 2 ) );
            w.o.emplace_back( s.chance( 1, 4 ) ? "in" : "inner", v );
            if ( s.chance( 1, 12 ) ) { w.o.clear(); w.kind = ref::kArray; w.a.push_back( v ); }
            v     = w;
            under = "inner";
        }
        std::string t;
        render( s, v, t, s.chance( 2, 3 ) );
        c.input( type );
        c.input( t );
        c.noteLazy( [ & ] { return std::string( "type " ) + type + ( under ? " under \"inner\"" : "" ) + " document " + quote( t, 3000 ); } );
        c.label( type );
        Problems p = against<T>( c, type, t, nullptr, under );
        c.nontrivial = true;
        c.label( p.none() ? "conforming" : p.kind && p.missing ? "both" : p.kind ? "wrong-kind" : "missing-name" );
        if ( p.deepest > 1 && !p.none() ) c.label( "nested-problem" );
    }
}
void fam::FAM_CAT( part, FAM_PART )( Src& s, Ctx& c, uint32_t type )
{
    dispatch( type, [ & ]( auto tag, const char* n ) { pbt::conform<typename decltype( tag )::Type>( s, c, n ); } );
}
#if FAM_PART == 0
namespace pbt
{
    const char* const kProperty = "C07";
    const char* const kRule     = "Documents of the 44 structures of the family with 0..4 edits anywhere (kind changed, member deleted, renamed, added, reordered, array element added or removed, null), documents of other structures, arbitrary "
                                  "documents, optionally below a name; oracle: reference schema checker: Validate ok <=> Deserialize ok <=> document conforms, the reported problem exists, document and validated object unchanged; every case counts as "
                                  "non-trivial (it runs both operations on a generated pair); distinct by structure and document.";
    void setup() {}
    void runCase( Src& s, Ctx& c ) { fam::runPart( s, c, s.below( fam::kTypes ) ); }
}
#endif
