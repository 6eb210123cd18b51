J, H = "Json4C4/C4Json.cpp", "Json4C4/C4Json.h"
TX, ST, SH, MP, AR = "Terathon/TSText.cpp", "Terathon/TSString.cpp", "Terathon/TSString.h", "Terathon/TSMap.cpp", "Terathon/TSArray.h"
TSAN = r'''#!/bin/bash
# exit 0: the behaviour is right. Runs with cwd at the top of the repository.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -O1 -w -fsanitize=thread @FLAGS@ -ICode -ICode/Json4C4 -ICode/Terathon "$here/demo.cpp" Code/Json4C4/*.cpp Code/Terathon/*.cpp -o "$t/demo" -lpthread || exit 2
cd "$t" && timeout 200 ./demo
'''

seed("c05-sixteen-digits", "C05",
     [(J, '"%.17g"', '"%.16g"')],
     r'''
int main()
{
    StructuredData d, e;
    EXPECT( parse( d, "[0.1, 0.30000000000000004]" ).status == Status::kOk );
    EXPECT( d.Write( "o.json" ) == Status::kOk );
    EXPECT( e.Parse( "o.json" ).status == Status::kOk );
    EXPECT( *( *e.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>() )[ 1 ]->GetDataAsPointerTo<double>() == 0.30000000000000004 );
    return bad;
}
''', "a number that needs 17 significant digits", "numbers change when a document is written and parsed")

seed("c05-wide-number-buffer", "C05",
     [(J, "constexpr int maxDoubleDigits = 32;", "constexpr int maxDoubleDigits = 24;")],
     r'''
int main()
{
    StructuredData d, e;
    EXPECT( parse( d, "[1.5, -1.7976931348623157e+308, -1.2345678901234567e-300]" ).status == Status::kOk );
    EXPECT( d.Write( "o.json" ) == Status::kOk );
    EXPECT( e.Parse( "o.json" ).status == Status::kOk );
    const auto& a = *e.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>();
    EXPECT( *a[ 1 ]->GetDataAsPointerTo<double>() == -1.7976931348623157e+308 );
    EXPECT( *a[ 2 ]->GetDataAsPointerTo<double>() == -1.2345678901234567e-300 );
    return bad;
}
''', "a negative number with 17 digits and a three-digit exponent", "the written number loses the last digit of its exponent")

seed("c06-long-vector", "C06",
     [(H, "valueData->ReserveArrayElementCount( int32( data.size() ) );", "valueData->ReserveArrayElementCount( int32( data.size() ) & 0xFFF );\n                    if ( data.size() > 0xFFF ) return Status::kException;")],
     r'''
int main()
{
    std::vector<bool> v( 5000, true ), w;
    StructuredData d;
    EXPECT( d.SerializeFrom( v ) == Status::kOk );
    EXPECT( d.DeserializeTo( w ) == Status::kOk );
    EXPECT( v == w );
    return bad;
}
''', "a vector of more than 4095 elements", "long vectors cannot be serialised")

seed("c07-map-validate-break", "C07",
     [(H, """                            status = Validate( objectValueMapElement, temp );
                        }

                        if ( status != Status::kOk )
                        {
                            return status;
                        }
                    }

                    return Status::kOk;""", """                            status = Validate( objectValueMapElement, temp );
                        }

                        if ( status != Status::kOk )
                        {
                            break;
                        }
                    }

                    return Status::kOk;""")],
     r'''
int main()
{
    std::map<std::string, double> m;
    StructuredData d;
    EXPECT( parse( d, "{\"a\":1,\"b\":true}" ).status == Status::kOk );
    EXPECT( Validate( d, m ) == Status::kInvalidValueType );
    EXPECT( d.DeserializeTo( m ) == Status::kInvalidValueType );
    return bad;
}
''', "a std::map whose document has a member of the wrong kind", "validation accepts what deserialisation rejects")

seed("c07-array-first-only", "C07",
     [(H, """                    const T temp {};

                    Status status;

                    for ( Value* valueElement : *valueData )""", """                    const T temp {};

                    Status      status;
                    const void* previous = nullptr;

                    for ( Value* valueElement : *valueData )"""),
      (H, """                        if constexpr ( Detail::HasValidateMember<T>::Value )
                        {

                            status = temp.Validate( valueElement );""", """                        // Elements of the same class have the same kind
                        const void* current = *reinterpret_cast<void* const*>( valueElement );
                        if ( current == previous )
                        {
                            continue;
                        }
                        previous = current;

                        if constexpr ( Detail::HasValidateMember<T>::Value )
                        {

                            status = temp.Validate( valueElement );""")],
     r'''
struct P { double x = 0; };
#define P_PROTO "x", object.x
DEFINE_JSON4C4_FUNCTIONS( P, P_PROTO )
int main()
{
    Array<P> a;
    StructuredData d;
    EXPECT( parse( d, "[{\"x\":1},{\"x\":2}]" ).status == Status::kOk );
    EXPECT( Validate( d, a ) == Status::kOk );
    EXPECT( parse( d, "[{\"x\":1},{\"y\":2}]" ).status == Status::kOk );
    EXPECT( Validate( d, a ) == Status::kNameNotPresent );
    return bad;
}
''', "an array of structures of which only a later one does not conform", "validation looks only at the first of several equal kinds")

seed("c08-vector-temp", "C08",
     [(H, """                    Status status;

                    for ( Value* value : *valueData )
                    {
                        T temp;

                        if constexpr ( Detail::HasDeserializeMember<T>::Value )
                        {
                            status = temp.Deserialize( value );""", """                    T      temp;
                    Status status;

                    for ( Value* value : *valueData )
                    {
                        if constexpr ( Detail::HasDeserializeMember<T>::Value )
                        {
                            status = temp.Deserialize( value );""")],
     r'''
struct P { double x = 0, y = 7; };
#define P_PROTO "x", object.x, optional, "y", object.y
DEFINE_JSON4C4_FUNCTIONS( P, P_PROTO )
int main()
{
    std::vector<P> a;
    StructuredData d;
    EXPECT( parse( d, "[{\"x\":1,\"y\":5},{\"x\":2}]" ).status == Status::kOk );
    EXPECT( d.DeserializeTo( a ) == Status::kOk );
    EXPECT( a.size() == 2 && a[ 0 ].y == 5 && a[ 1 ].y == 7 );
    return bad;
}
''', "a vector of structures with an optional member that only an earlier element has", "the value of an earlier element appears in a later one")

seed("c11-short-write", "C11",
     [(J, """                p += numberOfBytesWritten;
            }

#    endif

            return kFileOkay;
        }

        File& operator""", """                // A file takes the whole buffer or fails
                p = end;
            }

#    endif

            return kFileOkay;
        }

        File& operator""")],
     r'''
#include <dlfcn.h>
#include <unistd.h>
static size_t limit = 1 << 30;
extern "C" ssize_t write( int fd, const void* p, size_t n )
{
    static auto real = (ssize_t ( * )( int, const void*, size_t ))dlsym( RTLD_NEXT, "write" );
    return real( fd, p, n < limit ? n : limit );
}
int main()
{
    StructuredData d;
    EXPECT( parse( d, "[\"some text\", 0.12345678]" ).status == Status::kOk );
    EXPECT( d.Write( "a.json" ) == Status::kOk );
    limit = 3;
    EXPECT( d.Write( "b.json" ) == Status::kOk );
    limit = 1 << 30;
    EXPECT( slurp( "a.json" ) == slurp( "b.json" ) && slurp( "a.json" ).size() > 10 );
    return bad;
}
''', "a write that the system shortens", "success is reported for a file that lacks bytes", flags="-D_GNU_SOURCE")

seed("c11-string-status", "C11",
     [(J, """                Status status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
                if ( status != Status::kOk )
                {
                    return status;
                }

                file << ( a < data""", """                Status status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
                if ( status == Status::kFloatInvalid )
                {
                    file << "0";
                }
                else if ( status != Status::kOk )
                {
                    return status;
                }

                file << ( a < data""")],
     r'''
int main()
{
    StructuredData d;
    EXPECT( parse( d, "[1,2]" ).status == Status::kOk );
    *( *d.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>() )[ 1 ]->GetDataAsPointerTo<double>() = NAN;
    EXPECT( d.Write( "a.json" ) != Status::kOk );
    return bad;
}
''', "a NaN inside an array", "success is reported for a file that holds another value than the document")

seed("c12-static-indentation", "C12",
     [(J, "            Array<char> indentCharArray;\n\n            Status status = MayThrow( [ & ]() { return rootJsonValue->Write(",
          "            static thread_local Array<char> indentCharArray;\n\n            Status status = MayThrow( [ & ]() { return rootJsonValue->Write(")],
     r'''
int main()
{
    StructuredData d;
    std::vector<double> v { 1, NAN };
    EXPECT( parse( d, "[1]" ).status == Status::kOk );
    EXPECT( d.Write( "a.json" ) == Status::kOk );
    EXPECT( d.SerializeFrom( v ) == Status::kOk );
    EXPECT( d.Write( "b.json" ) != Status::kOk );
    EXPECT( parse( d, "[1]" ).status == Status::kOk );
    EXPECT( d.Write( "b.json" ) == Status::kOk );
    EXPECT( slurp( "a.json" ) == slurp( "b.json" ) );
    return bad;
}
''', "a successful write after one that failed inside an array", "the indentation of the failed write is left over")

seed("c14-remove-double-rotation", "C14",
     [(MP, """					int32 lb = node->leftSubnode->balance;
					if (lb <= 0)""", """					int32 lb = node->leftSubnode->balance;
					if (lb < 0)""")],
     r'''
#include "TSMap.h"
struct E : MapElement<E> { using KeyType = int; int k; E( int n ) : k( n ) {} const int& GetKey() const { return k; } };
int main()
{
    Map<E> m;
    for ( int k : { 4, 2, 5, 1, 3 } ) m.InsertMapElement( new E( k ) );
    delete m.FindMapElement( 5 );
    int want[] = { 1, 2, 3, 4 }, i = 0;
    for ( E* e : m ) { EXPECT( i < 4 && e->k == want[ i ] ); i++; }
    EXPECT( i == 4 );
    for ( int k = 5; k < 60; k++ ) m.InsertMapElement( new E( k ) );
    for ( int k = 59; k > 1; k-- ) { delete m.FindMapElement( k ); int c = 0; for ( E* e : m ) { (void) e; c++; } EXPECT( c == k - 1 ); }
    return bad;
}
''', "removals after which a left subtree with two equally deep branches is too deep", "an impossible double rotation corrupts the balances")

seed("c15-shrink-order", "C15",
     [(AR, """	Array<type, baseCount>::Array(Array&& array)
	{
		elementCount = array.elementCount;

		if (elementCount > baseCount)""", """	Array<type, baseCount>::Array(Array&& array)
	{
		elementCount = array.elementCount;

		if (array.reservedCount > baseCount)"""),
      (AR, """				new(&arrayPointer[a]) type(static_cast<type&&>(pointer[a]));
				pointer[a].~type();
			}

			char *ptr = reinterpret_cast<char *>(pointer);
			if (ptr != array.arrayStorage)
			{
				delete[] ptr;
			}
		}

		array.elementCount = 0;
		array.reservedCount = baseCount;""", """				new(&arrayPointer[a]) type(static_cast<type&&>(pointer[a]));
				pointer[a].~type();
			}
		}

		array.elementCount = 0;""")],
     r'''
int main()
{
    Array<int, 4> a;
    for ( int i = 0; i < 9; i++ ) a.AppendArrayElement( i );
    Array<int, 4> b( static_cast<Array<int, 4>&&>( a ) );
    EXPECT( b.GetArrayElementCount() == 9 && a.GetArrayElementCount() == 0 );
    for ( int i = 0; i < 9; i++ ) a.AppendArrayElement( i * 2 );
    EXPECT( a.GetArrayElementCount() == 9 && a[ 8 ] == 16 && b[ 8 ] == 8 );
    return bad;
}
''', "using an array again after its heap storage was moved away", "elements are written behind the inline storage")

seed("c16-float-alloc", "C16",
     [(ST, """String<0>& String<0>::operator +=(uint64 n)
{
	int32 size = logicalSize + kStringAllocSize;""", """String<0>& String<0>::operator +=(uint64 n)
{
	int32 size = logicalSize + kStringLocalSize;""")],
     r'''
int main()
{
    for ( int n = 0; n < 200; n++ )
    {
        std::string x( n, 'x' );
        String<> s( x.c_str() );
        s += uint64( 18446744073709551615ULL );
        EXPECT( x + "18446744073709551615" == static_cast<const char*>( s ) );
    }
    return bad;
}
''', "appending a 20-digit number to a text that almost fills its memory", "a string writes beyond its memory or loses digits")

seed("c17-last-surrogate", "C17",
     [(TX, """		count += 1 + (code >= 0x010000U);""", """		count += 1 + (code > 0x010000U);""")],
     r'''
int main()
{
    EXPECT( Text::GetWideTextCharCount( "a\xF0\x90\x80\x81" ) == 3 );
    EXPECT( Text::GetWideTextCharCount( "a\xF0\x90\x80\x80" ) == 3 );
    return bad;
}
''', "the code point U+10000", "the wide text of one character is counted too short")

seed("c17-caseless-limit", "C17",
     [(TX, """		if (y - 65 < 26U)""", """		if (y - 65 <= 26U)""")],
     r'''
int main()
{
    EXPECT( Text::CompareTextCaseless( "aB[", "Ab[", 3 ) );
    EXPECT( !Text::CompareTextCaseless( "a{", "a[", 2 ) );
    return bad;
}
''', "a caseless comparison with a limit of a text that holds an opening bracket", "the bracket is taken for a letter")

seed("c17-four-byte-range", "C17",
     [(TX, """						uint32 x = ((byte1 << 18) & 0x1C0000) | ((byte2 << 12) & 0x03F000) | ((byte3 << 6) & 0x000FC0) | (byte4 & 0x00003F);
						if (x - 0x00010000U < 0x00100000U)
						{
							*code = x;""", """						uint32 x = ((byte1 << 18) & 0x1C0000) | ((byte2 << 12) & 0x03F000) | ((byte3 << 6) & 0x000FC0) | (byte4 & 0x00003F);
						if (x - 0x00010000U < 0x00110000U)
						{
							*code = x;""")],
     r'''
int main()
{
    uint32 c;
    EXPECT( Text::ReadUnicodeChar( "\xF4\x8F\xBF\xBF", &c ) == 4 && c == 0x10FFFF );
    EXPECT( Text::ReadUnicodeChar( "\xF4\x90\x80\x80", &c ) == 1 && c == 0xFFFD );
    return bad;
}
''', "bytes that would encode a code point above U+10FFFF", "decoding gives a code point that does not exist")

seed("c19-static-number", "C19",
     [(J, "                char          output[ maxDoubleDigits ];", "                static char   output[ maxDoubleDigits ];")],
     r'''
#include <thread>
int main()
{
    StructuredData d, e;
    EXPECT( parse( d, "[1.25]" ).status == Status::kOk );
    EXPECT( parse( e, "[-7e100]" ).status == Status::kOk );
    auto run = []( StructuredData& x, const char* f ) { for ( int i = 0; i < 200; i++ ) x.Write( f ); };
    std::thread t( run, std::ref( d ), "a.json" ), u( run, std::ref( e ), "b.json" );
    t.join();
    u.join();
    EXPECT( slurp( "a.json" ) == "[\n  1.25\n]" );
    return bad;
}
''', "two threads that write numbers at the same time", "the text of one document's number appears in another", driver=TSAN)

seed("c19-find-cache", "C19",
     [(J, """            if ( Value* jsonValue = FindMapElement( name ) )
            {
                if ( const double* data""", """            static const ObjectValue* lastObject = nullptr;
            static String<>           lastName;
            static Value*             lastValue = nullptr;

            if ( lastObject != this || lastName != name || lastValue != FindMapElement( name ) )
            {
                lastObject = this;
                lastName   = name;
                lastValue  = FindMapElement( name );
            }

            if ( Value* jsonValue = lastValue )
            {
                if ( const double* data""")],
     r'''
#include <thread>
int main()
{
    StructuredData d;
    EXPECT( parse( d, "{\"a\":1,\"b\":2}" ).status == Status::kOk );
    const ObjectValue* o = d.GetRootJsonValue()->AsJsonObjectValue();
    auto run = [ & ]( const char* n, double v ) { for ( int i = 0; i < 2000; i++ ) { const double* p = o->FindNumber( n ); if ( !p || *p != v ) bad = 1; } };
    std::thread t( run, "a", 1.0 ), u( run, "b", 2.0 );
    t.join();
    u.join();
    return bad;
}
''', "two threads that look up numbers in one document", "lookups share unprotected state", driver=TSAN)

seed("c06-short-length", "C06",
     [(J, "                    *valueData = data.c_str();\n", "                    const int16 length = int16( data.length() );\n                    valueData->Set( data.c_str(), length );\n")],
     r"""
int main()
{
    std::vector<std::string> v { "a", std::string( 40000, 'x' ) }, w;
    StructuredData d;
    EXPECT( d.SerializeFrom( v ) == Status::kOk );
    EXPECT( d.DeserializeTo( w ) == Status::kOk );
    EXPECT( v == w );
    return bad;
}
""", "a std::string of more than 32767 bytes", "a long text is serialised as an empty one")

seed("c10-single-read", "C10",
     [(J, """                p += numberOfBytesRead;
            }

#    endif

            return kFileOkay;
        }

        FileStatus WriteFile(""", """                // A small piece is the last one
                p = ( numberOfBytesRead < 4096 ) ? buffer + size : p + numberOfBytesRead;
            }

#    endif

            return kFileOkay;
        }

        FileStatus WriteFile(""")],
     r"""
#include <dlfcn.h>
#include <unistd.h>
static int limit = 1 << 30;
extern "C" ssize_t read( int fd, void* p, size_t n )
{
    static auto real = (ssize_t ( * )( int, void*, size_t ))dlsym( RTLD_NEXT, "read" );
    return real( fd, p, n < size_t( limit ) ? n : limit );
}
int main()
{
    spit( "i.json", "[1, 2, 3, 4, 5, 6, 7, 8]" );
    StructuredData d;
    EXPECT( d.Parse( "i.json" ).status == Status::kOk );
    limit = 5;
    EXPECT( d.Parse( "i.json" ).status == Status::kOk );
    return bad;
}
""", "a read that delivers a file in small pieces", "the rest of the file is taken for NUL characters", flags="-D_GNU_SOURCE")

seed("c14-replace-balance", "C14",
     [(MP, "	replacement->balance = element->balance;\n", "	replacement->balance = (element->leftSubnode ? (element->rightSubnode ? 0 : -1) : int32(element->rightSubnode != nullptr));\n")],
     r"""
#include "TSMap.h"
struct E : MapElement<E>
{
    using KeyType = int;
    int k;
    E( int n ) : k( n ) {}
    const int& GetKey() const { return k; }
    static int depth( const E* e ) { return e ? 1 + std::max( depth( static_cast<const E*>( e->GetLeftSubnode() ) ), depth( static_cast<const E*>( e->GetRightSubnode() ) ) ) : 0; }
};
int main()
{
    for ( int n = 4; n <= 40; n++ )
    {
        Map<E> m;
        for ( int a = 0; a < n; a++ ) m.InsertMapElement( new E( a ) );
        for ( int a = 0; a < n; a++ ) delete m.InsertReplaceMapElement( new E( a ) );
        for ( int a = n; a < 3 * n; a++ )
        {
            m.InsertMapElement( new E( a ) );
            delete m.InsertReplaceMapElement( new E( a - n / 2 ) );
            EXPECT( E::depth( m.GetRootMapElement() ) <= 1.4405 * std::log2( a + 3 ) - 0.3 );
        }
    }
    return bad;
}
""", "replacing elements whose subtrees have different heights, then inserting others", "the tree becomes deeper than a balanced one")

seed("c15-prefix-equal", "C15",
     [(AR, "		if (count != array.elementCount)", "		if (count > array.elementCount)")],
     r"""
int main()
{
    Array<int> a, b;
    a.AppendArrayElement( 1 );
    EXPECT( !( a == b ) && !( b == a ) );
    b.AppendArrayElement( 1 );
    EXPECT( a == b );
    b.AppendArrayElement( 2 );
    EXPECT( !( b == a ) && !( a == b ) );
    return bad;
}
""", "comparing an array with one that continues it", "different arrays compare equal")

seed("c16-int64-text", "C16",
     [(ST, """String<0>& String<0>::operator =(int64 n)
{
	Resize(kStringAllocSize);
	logicalSize = Text::Integer64ToString(""", """String<0>& String<0>::operator =(int64 n)
{
	Resize(kStringAllocSize);
	logicalSize = Text::UnsignedInteger64ToString(""")],
     r"""
int main()
{
    String<> s;
    s = int64( 17 );
    EXPECT( !strcmp( s, "17" ) );
    s = int64( -17 );
    EXPECT( !strcmp( s, "-17" ) );
    return bad;
}
""", "assigning a negative 64-bit number", "a negative number is rendered as a large positive one")

seed("c16-append-edge", "C16",
     [(ST, """String<0>& String<0>::operator +=(char k)
{
	int32 size = logicalSize + 1;
	if (size > physicalSize)""", """String<0>& String<0>::operator +=(char k)
{
	int32 size = logicalSize + 1;
	if (logicalSize > physicalSize)""")],
     r"""
int main()
{
    for ( int n = 1; n < 200; n++ )
    {
        String<> s( std::string( n, 'x' ).c_str() );
        s += 'y';
        s += 'z';
        EXPECT( std::string( n, 'x' ) + "yz" == static_cast<const char*>( s ) );
    }
    return bad;
}
""", "appending a character to a text that exactly fills its memory", "the terminator is written behind the memory")

seed("c16-less-letters", "C16",
     [(TX, """bool Text::CompareTextLessThan(const char *s1, const char *s2)
{
	for (machine a = 0;; a++)
	{
		uint32 x = *reinterpret_cast<const uint8 *>(s1 + a);
		uint32 y = *reinterpret_cast<const uint8 *>(s2 + a);
""", """bool Text::CompareTextLessThan(const char *s1, const char *s2)
{
	for (machine a = 0;; a++)
	{
		uint32 x = *reinterpret_cast<const int8 *>(s1 + a) & 0x7FU;
		uint32 y = *reinterpret_cast<const int8 *>(s2 + a) & 0x7FU;
		if (x == y)
		{
			x = *reinterpret_cast<const uint8 *>(s1 + a);
			y = *reinterpret_cast<const uint8 *>(s2 + a);
		}
""")],
     r"""
int main()
{
    String<> a( "A" ), b( "\xC3\xA1" ), c( "\xC3\xA9" );
    EXPECT( a < static_cast<const char*>( b ) );
    EXPECT( b < static_cast<const char*>( c ) );
    String<> d( "z" );
    EXPECT( d < static_cast<const char*>( b ) );
    return bad;
}
""", "comparing an ASCII letter with a byte above 127", "texts are no longer ordered by bytes")
