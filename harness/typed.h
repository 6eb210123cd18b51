// One document against one structure: validation and deserialisation versus the reference model (C07, C08).
#pragma once
#include "types.h"

namespace fam
{
    inline bool reported( J::Status st, const Problems& p )
    {
        if ( p.none() ) return st == J::Status::kOk;
        return ( p.kind && st == J::Status::kInvalidValueType ) || ( p.missing && ( st == J::Status::kNameNotPresent || st == J::Status::kMissingObjectElement ) );
    }

    // prior: document of the state the object has before reading (null: fresh object)
    template <class T> Problems against( Ctx& c, const char* type, const std::string& text, const ref::Val* prior, const char* under )
    {
        ref::Result r = ref::parse( text );
        if ( !r.ok ) c.fail( "harness: generated document is not valid: " + quote( text ) );
        auto bad = [ & ]( const std::string& m ) {
            c.fail( m + " (type " + type + ( under ? std::string( " under name " ) + quote( under ) : "" ) + ", document " + quote( text, 2000 ) +
                    ( prior ? ", object before " + quote( ref::show( *prior ) ) : "" ) + ")" );
        };
        J::StructuredData sd;
        J::ParseResult    pr = parseText( sd, text );
        if ( pr.status != J::Status::kOk ) bad( "parse reports " + statusText( pr.status ) );

        Box<T>   model, lib;
        Problems p, q;
        if ( prior )
        {
            dec( *prior, model.v, q );
            dec( *prior, lib.v, q );
            if ( !q.none() ) c.fail( "harness: prior state does not conform" );
        }
        ref::Val before = enc( lib.v );
        if ( under )
        {
            const ref::Val* m = r.v.kind == ref::kObject ? r.v.find( under ) : nullptr;
            if ( r.v.kind != ref::kObject ) p.kind++;
            else if ( !m ) p.missing++;
            else dec( *m, model.v, p );
        }
        else dec( r.v, model.v, p );
        ref::Val  want = enc( model.v );
        ref::Val  doc  = toRef( sd.GetRootJsonValue(), c );
        const J::Value* root = sd.GetRootJsonValue();
        J::Status v1   = under ? J::Validate( root, under, lib.v ) : J::Validate( sd, lib.v );
        if ( !reported( v1, p ) ) bad( fmt( "Validate reports status %u; wrong kinds %u, missing names %u", unsigned( v1 ), p.kind, p.missing ) );
        if ( !ref::equal( before, enc( lib.v ), true ) ) bad( "Validate changed the object" );
        J::Status d = under ? J::Deserialize( root, under, lib.v ) : sd.DeserializeTo( lib.v );
        if ( !reported( d, p ) ) bad( fmt( "deserialisation reports status %u; wrong kinds %u, missing names %u", unsigned( d ), p.kind, p.missing ) );
        if ( !ref::equal( doc, toRef( sd.GetRootJsonValue(), c ), false ) ) bad( "the document was modified" );
        if ( p.none() && !( prior && p.mapReread ) )
        {
            ref::Val got = enc( lib.v );
            if ( !ref::equal( want, got, true ) ) bad( "deserialised object is " + quote( ref::show( got ), 1500 ) + " instead of " + quote( ref::show( want ), 1500 ) );
        }
        // the object read (or half read) before has no influence on validation
        J::Status v2 = under ? J::Validate( root, under, lib.v ) : J::Validate( sd, lib.v );
        if ( ( v2 == J::Status::kOk ) != p.none() ) bad( "Validate changes its answer after deserialising" );
        return p;
    }
}
