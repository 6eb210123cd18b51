J, H = "Json4C4/C4Json.cpp", "Json4C4/C4Json.h"
TX, ST, SH, MP, AR = "Terathon/TSText.cpp", "Terathon/TSString.cpp", "Terathon/TSString.h", "Terathon/TSMap.cpp", "Terathon/TSArray.h"

seed("c05-short-index", "C05", [(J, "            for ( int32 a = 0; a != data.GetArrayElementCount(); a++ )", "            for ( int16 a = 0; a != int16( data.GetArrayElementCount() ); a++ )")], r'''
int main()
{
    std::string t = "[0";
    for ( int i = 1; i < 66000; i++ ) t += ",1";
    t += "]";
    StructuredData d, e;
    EXPECT( parse( d, t ).status == Status::kOk );
    EXPECT( d.Write( "o.json", 0 ) == Status::kOk );
    EXPECT( parse( e, slurp( "o.json" ) ).status == Status::kOk );
    EXPECT( e.GetRootJsonValue() && e.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>()->GetArrayElementCount() == 66000 );
    return bad;
}
''', "writing an array of 65537 or more elements", "only the first elements are written")

seed("c08-array-temp", "C08", [(H, '''                    Status status;

                    for ( Value* valueElement : *valueData )
                    {
                        T temp;
                        if constexpr ( Detail::HasDeserializeMember<T>::Value )
                        {
                            status = temp.Deserialize( valueElement );''', '''                    T      temp;
                    Status status;

                    for ( Value* valueElement : *valueData )
                    {
                        if constexpr ( Detail::HasDeserializeMember<T>::Value )
                        {
                            status = temp.Deserialize( valueElement );''')], r'''
struct P { double x = 0, y = 7; };
#define P_PROTO "x", object.x, optional, "y", object.y
DEFINE_JSON4C4_FUNCTIONS( P, P_PROTO )
int main()
{
    Array<P> a;
    StructuredData d;
    EXPECT( parse( d, "[{\"x\":1,\"y\":5},{\"x\":2}]" ).status == Status::kOk );
    EXPECT( d.DeserializeTo( a ) == Status::kOk );
    EXPECT( a.GetArrayElementCount() == 2 && a[ 0 ].y == 5 && a[ 1 ].y == 7 );
    return bad;
}
''', "an array of structures with an optional member that only an earlier element has", "the value of an earlier element appears in a later one")

seed("c16-terminator", "C16", [(ST, "	if (size > kStringLocalSize)\n	{\n		if ((size > physicalSize) || (size < physicalSize / 2))", "	if (size > kStringLocalSize)\n	{\n		if ((size - 1 > physicalSize) || (size < physicalSize / 2))")], r'''
int main()
{
    for ( int n = 0; n < 300; n++ )
    {
        String<> s( "a text beyond the local storage" );
        std::string t( n, 'x' );
        s = t.c_str();
        EXPECT( t == static_cast<const char*>( s ) );
    }
    return bad;
}
''', "assigning a text of exactly as many characters as the string has memory", "the terminator is written behind the memory")

seed("c19-static-digits", "C19", [(TX, '''int32 Text::IntegerToString(int32 num, char *text, int32 max)
{
	char	c[16];
''', '''int32 Text::IntegerToString(int32 num, char *text, int32 max)
{
	static char		c[16];
''')], r'''
#include <thread>
static void work( int k )
{
    for ( int i = 0; i < 3000; i++ )
    {
        String<> s;
        s = int32( 100000000 + k * 11111111 );
        if ( std::to_string( 100000000 + k * 11111111 ) != static_cast<const char*>( s ) ) bad = 1;
    }
}
int main()
{
    std::thread a( work, 1 ), b( work, 5 );
    a.join();
    b.join();
    return bad;
}
''', "two threads that turn integers into text at the same time", "data race; digits of the other thread's number", driver=TSAN)
