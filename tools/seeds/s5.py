# C20
J = "Json4C4/C4Json.cpp"
H = "Json4C4/C4Json.h"

seed("c20-vector-keeps", "C20", [(H, '''                    Detail::PurgePointerArray( *valueData );
                    valueData->ReserveArrayElementCount( int32( data.size() ) );
''', '''                    // nothing to throw away unless the old content is longer
                    if ( valueData->GetArrayElementCount() > int32( data.size() ) )
                    {
                        Detail::PurgePointerArray( *valueData );
                    }

                    valueData->ReserveArrayElementCount( int32( data.size() ) );
''')], r'''
int main()
{
    StructuredData d;
    EXPECT( parse( d, "{\"a\":[1,2]}" ).status == Status::kOk );
    Value* a = d.GetRootJsonValue()->AsJsonObjectValue()->FindMapElement( "a" );
    std::vector<double> v { 5, 6, 7 };
    EXPECT( Serialize( a, v ) == Status::kOk );
    EXPECT( a->GetDataAsPointerTo<Array<Value*>>()->GetArrayElementCount() == 3 );
    return bad;
}
''', "a std::vector serialised into an array value that already holds as many elements or fewer", "the old elements stay in front of the new ones")

seed("c20-array-reuse", "C20", [(H, '''                    Detail::PurgePointerArray( *valueData );
                    valueData->ReserveArrayElementCount( data.GetArrayElementCount() );
''', '''                    if ( valueData->GetArrayElementCount() == data.GetArrayElementCount() )
                    {
                        // same number of elements: reuse the values
                        Status reuseStatus = Status::kOk;

                        for ( int32 a = 0; a < data.GetArrayElementCount() && reuseStatus == Status::kOk; a++ )
                        {
                            if constexpr ( Detail::HasSerializeMember<T>::Value )
                            {
                                reuseStatus = data[ a ].Serialize( ( *valueData )[ a ] );
                            }
                            else
                            {
                                reuseStatus = Serialize( ( *valueData )[ a ], data[ a ] );
                            }
                        }

                        if ( reuseStatus == Status::kOk )
                        {
                            return reuseStatus;
                        }
                    }

                    Detail::PurgePointerArray( *valueData );
                    valueData->ReserveArrayElementCount( data.GetArrayElementCount() );
'''), (H, '''            Array<Value*>* valueArray = value->GetDataAsPointerTo<Array<Value*>>();
            if ( valueArray != nullptr )
''', '''            Array<Value*>* const valueArray = value->GetDataAsPointerTo<Array<Value*>>();
            if ( valueArray != nullptr )
''')], r'''
struct P
{
    P() {}
    double x = 0;
};
#define P_PROTO "x", object.x
DEFINE_JSON4C4_FUNCTIONS( P, P_PROTO )
int main()
{
    StructuredData d;
    Array<P>       a;
    P              p;
    p.x = 1;
    a.AppendArrayElement( p );
    EXPECT( d.SerializeFrom( a ) == Status::kOk );
    a[ 0 ].x = 2;
    EXPECT( Serialize( d.GetRootJsonValue(), a ) == Status::kOk );
    Array<P> b;
    EXPECT( d.DeserializeTo( b ) == Status::kOk );
    EXPECT( b.GetArrayElementCount() == 1 && b[ 0 ].x == 2 );
    return bad;
}
''', "an array of structures serialised into an array value that already holds as many objects", "the objects keep the old values of their members")

seed("c20-update-existing", "C20", [(H, '''            if ( objectValue )
            {

                Value* associateValue = nullptr;

                Status status''', '''            if ( objectValue )
            {

                Value* associateValue = nullptr;

                if ( Value* existing = objectValue->FindMapElement( String<>( name ) ) )
                {
                    // update the member in place when it has the right kind
                    if ( Serialize( existing, data ) == Status::kOk )
                    {
                        return Status::kOk;
                    }
                }

                Status status'''), (H, '''                        associateValue       = Detail::CreateValueFor( data );
                        associateValue->name = name;
''', '''                        associateValue = Detail::CreateValueFor( data );
                        associateValue->name = name;
''')], r'''
int main()
{
    StructuredData d;
    EXPECT( parse( d, "{\"a\":1}" ).status == Status::kOk );
    const double x = 2;
    EXPECT( Serialize( d.GetRootJsonValue(), "a", x ) == Status::kOk );
    EXPECT( *d.GetRootJsonValue()->AsJsonObjectValue()->FindNumber( "a" ) == 1 );
    return bad;
}
''', "a named value serialised into an object that already has a member of that name and kind", "the member changes its value although the first one is to stay")

seed("c20-string-appends", "C20", [(J, "*valueData = data.c_str();", "*valueData += data.c_str();")], r'''
int main()
{
    StructuredData d;
    EXPECT( parse( d, "[\"old\"]" ).status == Status::kOk );
    std::string s = "new";
    Value* v = ( *d.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>() )[ 0 ];
    EXPECT( Serialize( v, s ) == Status::kOk );
    EXPECT( *v->GetDataAsPointerTo<String<>>() == "new" );
    return bad;
}
''', "a std::string serialised into a string value that already has content", "the new text is appended to the old one")

seed("c20-order-shortcut", "C20", [(J, '''            insertionOrder.AppendArrayElement( element->name );

            if ( !this->InsertMapElement( element ) )
            {
                insertionOrder.RemoveLastArrayElement();
                return false;
            }
''', '''            // a name that is known already needs no entry
            const String<>* last = insertionOrder.end();
            if ( last == insertionOrder.begin() || !( last[ -1 ] == element->name ) )
            {
                insertionOrder.AppendArrayElement( element->name );
            }

            if ( !this->InsertMapElement( element ) )
            {
                insertionOrder.RemoveLastArrayElement();
                return false;
            }
''')], r'''
int main()
{
    StructuredData d, e;
    EXPECT( parse( d, "{\"a\":1,\"b\":2}" ).status == Status::kOk );
    const double x = 3;
    EXPECT( Serialize( d.GetRootJsonValue(), "b", x ) == Status::kOk );
    EXPECT( d.Write( "a.json" ) == Status::kOk );
    EXPECT( e.Parse( "a.json" ).status == Status::kOk );
    EXPECT( e.GetRootJsonValue()->AsJsonObjectValue()->FindNumber( "b" ) != nullptr );
    return bad;
}
''', "a name added twice in a row to an object, which is then written", "the member is missing from the written file")

# C21
MATH = "Terathon/TSMath.cpp"
SIMD = "Terathon/TSSimd.h"
BASIC = "Terathon/TSBasic.h"
MDEMO = '#include "C4Json.h"\n#include "TSMath.h"\n#include "TSBasic.h"\n#include <cmath>\n#include <cstdio>\nusing namespace Terathon;\nstatic int bad = 0;\n#define EXPECT( x ) do { if ( !( x ) ) { printf( "line %d: %s\\n", __LINE__, #x ); bad = 1; } } while ( 0 )\n'

seed("c21-arctan-entry", "C21", [(MATH, "0x3F222833,\n", "0x3F222933,\n")], MDEMO + r'''
int main()
{
    const float x = 47.2F / 64.0F;
    EXPECT( std::fabs( Arctan( x ) - std::atan( x ) ) < 2e-6 );
    return bad;
}
''', "an arctangent whose argument or its reciprocal lies in [47/64, 48/64)", "the result is off by 1.5e-5")

seed("c21-exp-entry", "C21", [(MATH, "0x1E46EAF1", "0x1E46EFA1")], MDEMO + r'''
int main()
{
    EXPECT( std::fabs( double( Exp( -45.5F ) ) / std::exp( -45.5 ) - 1 ) < 1e-6 );
    EXPECT( std::fabs( double( Exp( -44.5F ) ) / std::exp( -44.5 ) - 1 ) < 1e-6 );
    EXPECT( std::fabs( double( Exp( -46.5F ) ) / std::exp( -46.5 ) - 1 ) < 1e-6 );
    for ( float x = -87; x < 88; x += 0.25F ) EXPECT( std::fabs( double( Exp( x ) ) / std::exp( double( x ) ) - 1 ) < 1e-6 );
    return bad;
}
''', "an exponential of one unit interval", "the result is off by 1e-4 relative")

seed("c21-ceil-large", "C21", [(SIMD, '''				vec_float result = _mm_sub_ss(_mm_add_ss(_mm_add_ss(_mm_sub_ss(v, two23), two23), two23), two23);
				result = _mm_add_ss(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));

				vec_float mask = _mm_cmplt_ps(two23, _mm_andnot_ps(VecFloatGetMinusZero(), v));
''', '''				vec_float result = _mm_sub_ss(_mm_add_ss(_mm_add_ss(_mm_sub_ss(v, two23), two23), two23), two23);
				result = _mm_add_ss(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));

				vec_float mask = _mm_cmplt_ps(two23, v);
''')], MDEMO + r'''
int main()
{
    for ( float x = -16777300.0F; x < -8388600.0F; x += 977.0F ) EXPECT( Ceil( x ) == x );
    return bad;
}
''', "the ceiling of a negative number beyond 2^23 with SSE2", "the ceiling is a neighbouring number")

seed("c21-arctan2-left", "C21", [(MATH, '''				if (y >= 0.0F)
				{
					r += Math::tau_over_2;
				}
				else
				{
					r -= Math::tau_over_2;
				}
''', '''				r += Math::tau_over_2;
''')], MDEMO + r'''
int main()
{
    EXPECT( std::fabs( Arctan( -1.0F, -2.0F ) - std::atan2( -1.0, -2.0 ) ) < 1e-5 );
    return bad;
}
''', "both arguments of the two-argument arctangent negative", "the angle is off by a full turn")

seed("c21-merge-unsigned", "C21", [(SIMD, '''	inline vec_uint16 VecUInt8UnpackB(const vec_uint8& v)
	{
		#if defined(TERATHON_SSE)

			return (_mm_unpackhi_epi8(v, _mm_setzero_si128()));
''', '''	inline vec_uint16 VecUInt8UnpackB(const vec_uint8& v)
	{
		#if defined(TERATHON_SSE)

			return (_mm_unpackhi_epi8(v, _mm_cmplt_epi8(v, _mm_setzero_si128())));
''')], MDEMO + r'''
int main()
{
    alignas( 16 ) uint8 a[ 16 ] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 200 };
    alignas( 16 ) uint16 o[ 8 ];
    auto r = VecUInt8UnpackB( VecUInt8Load( a ) );
    __builtin_memcpy( o, &r, 16 );
    EXPECT( o[ 7 ] == 200 && o[ 0 ] == 8 );
    return bad;
}
''', "unsigned bytes of 128 and more in the upper half", "they are sign extended")

seed("c21-avx-madd", "C21", [(SIMD, "			return (_mm256_permute2f128_ps(v, v, 0x11));", "			return (_mm256_permute2f128_ps(v, v, 0x21));")], MDEMO + r'''
int main()
{
    if ( !__builtin_cpu_supports( "avx" ) ) return 0;
    alignas( 32 ) float a[ 8 ] = { 1, 2, 3, 4, 5, 6, 7, 8 }, o[ 8 ];
    ExvStore( ExvSmearVecHi( ExvLoad( a ) ), o );
    for ( int i = 0; i < 8; i++ ) EXPECT( o[ i ] == float( 5 + ( i & 3 ) ) );
    return bad;
}
''', "an AVX build", "the upper half of the result is the lower half of the operand", flags="-mavx")

seed("c21-nosimd-sqrt", "C21", [(MATH, '''			return (0.0F);
		}

		uint32 i = 0x5F375A86 - (asuint(x) >> 1);
''', '''			return (0.0F);
		}

		uint32 i = 0x5F325A86 - (asuint(x) >> 1);
''')], MDEMO + r'''
int main()
{
    for ( float x = 1; x < 4; x += 1.0F / 256 ) EXPECT( std::fabs( double( Sqrt( x ) ) / std::sqrt( double( x ) ) - 1 ) < 1.4e-5 );
    return bad;
}
''', "a build without SIMD", "square roots are less precise", flags="-DTERATHON_NO_SIMD")
