#include "typed.h"
namespace pbt
{
    // decides for every member whether it is present, absent or malformed
    static void cut( Src& s, ref::Val& v, uint32_t& removed )
    {
        if ( v.kind == ref::kObject )
        {
            for ( size_t i = 0; i < v.o.size(); )
            {
                uint32_t k = s.pick( { 5, 3 } );
                if ( k == 1 && v.o[ i ].first != "req" && v.o[ i ].first != "last" )
                {
                    // required members of nested structures go as well, but less often
                    bool optionalName = v.o[ i ].first == "opt" || v.o[ i ].first == "name" || v.o[ i ].first == "nested" || v.o[ i ].first == "arr" || v.o[ i ].first == "m" || v.o[ i ].first == "c" ||
                                        v.o[ i ].first == "z" || v.o[ i ].first == "b" || v.o[ i ].first == "s" || v.o[ i ].first == "v" || v.o[ i ].first == "d";
                    if ( optionalName || s.chance( 1, 12 ) )
                    {
                        v.o.erase( v.o.begin() + long( i ) );
                        removed++;
                        continue;
                    }
                }
                cut( s, v.o[ i ].second, removed );
                i++;
            }
        }
        for ( auto& e : v.a ) cut( s, e, removed );
    }

    template <class T> void optional( Src& s, Ctx& c, const char* type )
    {
        using namespace fam;
        static const uint32_t budgets[] = { 2, 6, 20 };
        Gen                   g { s, s.oneOf( budgets ), 24 };
        ref::Val              v, prior;
        bool                  used = s.chance( 2, 3 );
        {
            Box<T> b, p;
            make( g, b.v );
            v = enc( b.v );
            Gen g2 { s, 6, 24 };
            if ( used ) make( g2, p.v );
            prior = enc( p.v );
        }
        const bool map     = v.anyOrder;
        uint32_t   removed = 0;
        if ( s.chance( 5, 6 ) )
        {
            // only the top level, or everything
            if ( s.chance( 1, 2 ) ) cut( s, v, removed );
            else if ( v.kind == ref::kObject )
            {
                for ( size_t i = 0; i < v.o.size(); )
                    if ( s.chance( 2, 5 ) ) { v.o.erase( v.o.begin() + long( i ) ); removed++; }
                    else i++;
            }
        }
        uint32_t n = s.pick( { 3, 3, 2, 1 } );
        for ( uint32_t i = 0; i < n; i++ )
        {
            // reorder and add unknown members; sometimes damage a present member
            bool damage = s.chance( 1, 3 );
            edit( s, v, damage ? ( 1u << eKind | 1u << eDelete | 1u << eNullify | 1u << eRename ) : ( 1u << eExtra | 1u << eShuffle ) );
        }
        std::string t;
        render( s, v, t, s.chance( 2, 3 ) );
        c.input( type );
        c.input( t );
        c.input( ref::show( prior ) );
        c.noteLazy( [ & ] { return std::string( "type " ) + type + " document " + quote( t, 3000 ) + " into " + quote( ref::show( prior ), 2000 ); } );
        c.label( type );
        Problems p   = against<T>( c, type, t, used ? &prior : nullptr, nullptr );
        c.nontrivial = p.absentOptional + p.presentOptional > 0;
        if ( p.absentOptional ) c.label( "absent-optional", p.absentOptional );
        if ( p.presentOptional ) c.label( "present-optional", p.presentOptional );
        if ( !p.none() && p.presentOptional ) c.label( "malformed-with-optional" );
        if ( p.none() && p.absentOptional && used ) c.label( "absent-into-used-object" );

        // metamorphic: the same members in another order and with unknown members around give the same outcome
        if ( v.kind == ref::kObject && !map )
        {
            ref::Val w = v;
            uint32_t k = 1 + s.below( 3 );
            for ( uint32_t i = 0; i < k; i++ ) w.o.insert( w.o.begin() + s.below( uint32_t( w.o.size() + 1 ) ), { "unknown member " + std::to_string( i ), anyVal( s, 1 ) } );
            for ( size_t i = w.o.size() - 1; i > 0; i-- ) std::swap( w.o[ i ], w.o[ s.below( uint32_t( i + 1 ) ) ] );
            std::string t2;
            render( s, w, t2, true );
            Problems p2 = against<T>( c, type, t2, used ? &prior : nullptr, nullptr );
            if ( p2.none() != p.none() ) c.fail( "harness: unknown members changed the model" );
        }
    }
}
void fam::FAM_CAT( part, FAM_PART )( Src& s, Ctx& c, uint32_t type )
{
    dispatch( type, [ & ]( auto tag, const char* n ) { pbt::optional<typename decltype( tag )::Type>( s, c, n ); } );
}
#if FAM_PART == 0
namespace pbt
{
    const char* const kProperty = "C08";
    const char* const kRule     = "Structures with optional members (required and optional mixed, optional nested structures with required and optional members of their own, optional arrays and maps, in arrays, vectors and maps of both families) with every member present, "
                                  "absent or malformed, unknown members added and members reordered, read into fresh and into used objects; oracle: reference reader (absent keeps the previous value, malformed is reported), plus the metamorphic relation that "
                                  "unknown members and member order change nothing; non-trivial = at least one optional member was looked at; distinct by structure, document and prior object.";
    void setup() {}
    void runCase( Src& s, Ctx& c )
    {
        static const uint32_t with[] = { 2, 8, 36, 22, 32, 25, 29, 35, 37, 38, 39, 40, 41, 42, 43 };
        fam::runPart( s, c, s.oneOf( with ) );
    }
}
#endif
