J, H = "Json4C4/C4Json.cpp", "Json4C4/C4Json.h"
TX, MP, AR = "Terathon/TSText.cpp", "Terathon/TSMap.cpp", "Terathon/TSArray.h"
seed("c09-signed-order", "C09",
     [(TX, """bool Text::CompareTextLessThan(const char *s1, const char *s2)
{
	for (machine a = 0;; a++)
	{
		uint32 x = *reinterpret_cast<const uint8 *>(s1 + a);
		uint32 y = *reinterpret_cast<const uint8 *>(s2 + a);
""", """bool Text::CompareTextLessThan(const char *s1, const char *s2)
{
	for (machine a = 0;; a++)
	{
		int32 x = s1[a];
		int32 y = s2[a];
""")],
     r'''
int main()
{
    StructuredData d;
    EXPECT( parse( d, "{\"\xC3\xA9\":1,\"z\":2,\"a\":3}" ).status == Status::kOk );
    std::string order;
    for ( const auto* e : *d.GetRootJsonValue()->AsJsonObjectValue() ) order += std::string( static_cast<const char*>( e->GetKey() ) ) + ",";
    EXPECT( order == "a,z,\xC3\xA9," );
    return bad;
}
''', "member names with characters beyond ASCII next to ASCII names", "iteration is not in ascending byte order")

seed("c09-finder-nul", "C09",
     [(TX, """		if ((x != y) || (x == 0))
		{
			return (x < y);
		}
	}
}

bool Text::CompareTextLessThan(const char *s1, const char *s2, int32 max)""",
       """		if ((x != y) || (x == 0) || (a == 255))
		{
			return (x < y);
		}
	}
}

bool Text::CompareTextLessThan(const char *s1, const char *s2, int32 max)""")],
     r'''
int main()
{
    StructuredData d;
    std::string a( 300, 'k' ), b = a + "2", c = a;
    c[ 299 ] = 'j';
    EXPECT( parse( d, "{\"" + a + "\":1,\"" + b + "\":2,\"" + c + "\":3}" ).status == Status::kOk );
    const ObjectValue* o = d.GetRootJsonValue()->AsJsonObjectValue();
    EXPECT( o->FindNumber( a.c_str() ) && *o->FindNumber( a.c_str() ) == 1 );
    EXPECT( o->FindNumber( b.c_str() ) && *o->FindNumber( b.c_str() ) == 2 );
    EXPECT( o->FindNumber( c.c_str() ) && *o->FindNumber( c.c_str() ) == 3 );
    return bad;
}
''', "member names that agree in their first 256 bytes", "distinct long names are taken for equal, members are lost")

seed("c10-size-limit", "C10",
     [(J, "            if ( fileSize > MAX_FILE_SIZE )\n            {\n                return ParseResult { Status::KFileTooLarge, 0, 0 };",
          "            if ( fileSize + 1 > MAX_FILE_SIZE )\n            {\n                return ParseResult { Status::KFileTooLarge, 0, 0 };")],
     r'''
int main()
{
    for ( int n = 65530; n <= 65536; n++ )
    {
        spit( "f", "1" + std::string( n - 1, ' ' ) );
        StructuredData d;
        EXPECT( ( d.Parse( "f" ).status == Status::kOk ) == ( n <= 65534 ) );
    }
    return bad;
}
''', "a file of exactly 65534 bytes", "the largest allowed file is refused")

seed("c12-vector-keeps", "C12",
     [(H, "                    data.clear();\n                    data.reserve( valueData->GetArrayElementCount() );",
          "                    data.reserve( valueData->GetArrayElementCount() );")],
     r'''
int main()
{
    StructuredData d;
    std::vector<double> v;
    EXPECT( parse( d, "[1,2]" ).status == Status::kOk );
    EXPECT( d.DeserializeTo( v ) == Status::kOk && v.size() == 2 );
    EXPECT( d.DeserializeTo( v ) == Status::kOk && v.size() == 2 );
    return bad;
}
''', "deserialising twice into the same vector", "the second deserialisation depends on what the object held")

seed("c13-name-oom", "C13",
     [(J, """                    status = MayThrow(
                        [ & ]()
                        {
                            jsonStringValue->data.SetStringLength( stringLength );
                            return Status::kOk;
                        } );

                    if ( status != Status::kOk )
                    {
                        return status;
                    }
""", """                    jsonStringValue->data.SetStringLength( stringLength );
""")],
     r'''
#include <new>
static long countdown = -1;
void* operator new( size_t n ) { if ( countdown >= 0 && countdown-- == 0 ) throw std::bad_alloc(); return malloc( n ); }
void* operator new[]( size_t n ) { if ( countdown >= 0 && countdown-- == 0 ) throw std::bad_alloc(); return malloc( n ); }
void operator delete( void* p ) noexcept { free( p ); }
void operator delete[]( void* p ) noexcept { free( p ); }
void operator delete( void* p, size_t ) noexcept { free( p ); }
void operator delete[]( void* p, size_t ) noexcept { free( p ); }
int main()
{
    std::string s = "{\"" + std::string( 200, 'n' ) + "\":\"" + std::string( 200, 's' ) + "\"}";
    Array<char> a = buf( s );
    for ( long n = 0; n < 100; n++ )
    {
        StructuredData d;
        countdown = n;
        Status st = d.Parse( a ).status;
        bool hit = countdown < 0;
        countdown = -1;
        EXPECT( ( st == Status::kOk ) == !hit );
        if ( !hit ) break;
    }
    return bad;
}
''', "the allocation of a string longer than the inline storage fails", "the process is terminated instead of an error being returned")

seed("c14-zigzag-balance", "C14",
     [(MP, "	node->balance = -MinZero(b);\n	left->balance = -MaxZero(b);\n	top->balance = 0;",
           "	node->balance = -MinZero(b);\n	left->balance = 0;\n	top->balance = 0;")],
     r'''
#include <algorithm>
#include "TSMap.h"
struct E : MapElement<E> { using KeyType = int; int k; E( int v ) : k( v ) {} const int& GetKey() const { return k; } };
static int depth( E* e ) { return e ? 1 + std::max( depth( e->GetLeftSubnode() ), depth( e->GetRightSubnode() ) ) : 0; }
int main()
{
    // least number of elements of an AVL tree of each depth
    int least[ 40 ] = { 0, 1 };
    for ( int h = 2; h < 40; h++ ) least[ h ] = h < 30 ? least[ h - 1 ] + least[ h - 2 ] + 1 : 1 << 30;
    unsigned r = 7;
    for ( int round = 0; round < 20000 && !bad; round++ )
    {
        Map<E> m;
        std::map<int, bool> ref;
        for ( int i = 0; i < 40; i++ )
        {
            r = r * 1664525u + 1013904223u;
            int k = int( r >> 16 ) % 40;
            if ( ( r >> 13 ) & 3 ) { E* e = new E( k ); if ( m.InsertMapElement( e ) ) ref[ k ] = true; else delete e; }
            else if ( E* e = m.FindMapElement( k ) ) { delete e; ref.erase( k ); }
            int best = 0;
            for ( E* e : m ) best = std::max( best, depth( e ) );
            if ( size_t( m.GetMapElementCount() ) != ref.size() || least[ best ] > int( ref.size() ) ) { printf( "%d elements, depth %d\n", int( ref.size() ), best ); bad = 1; break; }
        }
    }
    return bad;
}
''', "a double rotation whose middle node leans to the right", "balances go wrong, the tree degenerates")

seed("c15-inline-move", "C15",
     [(AR, """		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
		reservedCount = newCount;

		type *pointer = arrayPointer;
		for (machine a = 0; a < elementCount; a++)
		{
			new(&newPointer[a]) type(static_cast<type&&>(*pointer));
			pointer->~type();
			pointer++;
		}
""", """		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);

		type *pointer = arrayPointer;
		for (machine a = 0; a < elementCount; a++)
		{
			new(&newPointer[a]) type(static_cast<type&&>(*pointer));
			if (reservedCount > baseCount)
			{
				pointer->~type();
			}
			pointer++;
		}

		reservedCount = newCount;
""")],
     r'''
static int live = 0;
struct L { int v; L( int x ) : v( x ) { live++; } L( const L& o ) : v( o.v ) { live++; } L( L&& o ) : v( o.v ) { live++; } ~L() { live--; } };
int main()
{
    {
        Array<L, 3> a;
        for ( int i = 0; i < 20; i++ ) a.AppendArrayElement( L( i ) );
        for ( int i = 0; i < 20; i++ ) EXPECT( a[ i ].v == i );
    }
    EXPECT( live == 0 );
    return bad;
}
''', "an array with inline storage that outgrows it", "the elements moved out of the inline storage are never destroyed")
