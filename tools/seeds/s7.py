J, H = "Json4C4/C4Json.cpp", "Json4C4/C4Json.h"

seed('c12-buffer-cache', 'C12', [ ( J, r'''            if ( *( nullTerminatedTextBuffer.end() - 1 ) != 0 )
            {
                return ParseResult { Status::kUnterminatedTextBuffer, 0, 0 };
            }
''', r'''            if ( *( nullTerminatedTextBuffer.end() - 1 ) != 0 )
            {
                return ParseResult { Status::kUnterminatedTextBuffer, 0, 0 };
            }

            static thread_local const char* lastText  = nullptr;
            static thread_local int32       lastSize  = 0;
            static thread_local Value*      lastValue = nullptr;
            if ( rootJsonValue && rootJsonValue == lastValue && lastText == nullTerminatedTextBuffer.begin() && lastSize == nullTerminatedTextBuffer.GetArrayElementCount() )
            {
                return ParseResult { Status::kOk, 0, 0 };
            }
''' ),
    ( J, r'''&parseResult.errorLine, &parseResult.errorColumn );

            return parseResult;''', r'''&parseResult.errorLine, &parseResult.errorColumn );
            lastText  = nullTerminatedTextBuffer.begin();
            lastSize  = nullTerminatedTextBuffer.GetArrayElementCount();

            return lastValue = rootJsonValue, parseResult;''' ) ], r'''
int main()
{
    Array<char> b( 8 );
    b.SetArrayElementCount( 4, 0 );
    StructuredData d;
    memcpy( b.begin(), "[1]", 4 );
    EXPECT( d.Parse( b ).status == Status::kOk );
    memcpy( b.begin(), "[2]", 4 );
    EXPECT( d.Parse( b ).status == Status::kOk );
    Array<double> a;
    EXPECT( d.DeserializeTo( a ) == Status::kOk && a.GetArrayElementCount() == 1 && a[ 0 ] == 2 );
    memcpy( b.begin(), "[3}", 4 );
    EXPECT( d.Parse( b ).status != Status::kOk );
    return bad;
}
''', 'the same buffer refilled with another text of the same length and parsed again into the same document', 'the document of the first text stays')

seed('c09-name-cache', 'C09', [ ( J, r'''            if ( Value* jsonValue = FindMapElement( name ) )
            {
                if ( const double* data''', r'''            static thread_local const char*        lastName   = nullptr;
            static thread_local const ObjectValue* lastObject = nullptr;
            static thread_local Value*             lastValue  = nullptr;
            if ( lastName != name || lastObject != this )
            {
                lastValue  = FindMapElement( name );
                lastName   = name;
                lastObject = this;
            }
            if ( Value* jsonValue = lastValue )
            {
                if ( const double* data''' ) ], r'''
int main()
{
    StructuredData d;
    EXPECT( parse( d, "{\"a\":1,\"b\":2}" ).status == Status::kOk );
    const ObjectValue* o = d.GetRootJsonValue()->AsJsonObjectValue();
    char name[ 2 ] = "a";
    const double* x = o->FindNumber( name );
    name[ 0 ] = 'b';
    const double* y = o->FindNumber( name );
    EXPECT( x && y && *x == 1 && *y == 2 );
    return bad;
}
''', 'two names asked for from the same buffer, one after the other', 'the second lookup finds the first member')
