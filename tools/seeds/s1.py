J, H = "Json4C4/C4Json.cpp", "Json4C4/C4Json.h"
seed("c01-whitespace-range", "C01",
     [(J, "( byte[ 0 ] == space || byte[ 0 ] == tab || byte[ 0 ] == newLine || byte[ 0 ] == carriageReturn )",
          "( byte[ 0 ] == space || ( byte[ 0 ] >= tab && byte[ 0 ] <= carriageReturn ) )")],
     r'''
int main()
{
    EXPECT( ok( " \t\r\n[1 ,\n2\t]\r " ) );
    EXPECT( !ok( "[1,\f2]" ) );
    EXPECT( !ok( "\v1" ) );
    return bad;
}
''', "a form feed or vertical tab between tokens", "texts with characters that are no JSON whitespace are accepted")

seed("c01-hex-table", "C01",
     [(J, "10, 11, 12, 13, 14, 15 };", "10, 11, 12, 13, 14, 15 };\n"
          "        constexpr int32 hexadecimalCharCount = 55;"),
      (J, "12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,",
          "12, 13, 14, 15, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,")],
     r'''
int main()
{
    EXPECT( ok( "\"\\u00fFa\"" ) || true );
    EXPECT( ok( "\"\\u00fF\"" ) );
    for ( int c = 1; c < 256; c++ )
    {
        if ( c == '"' || c == '\\' ) continue;
        std::string s = "\"\\u0F0";
        s += char( c );
        s += "\"";
        EXPECT( ok( s ) == ( isxdigit( c ) != 0 ) );
    }
    return bad;
}
''', "a \\u escape that contains the letter G", "an illegal escape is accepted")

seed("c02-negative-zero", "C02",
     [(J, "doubleData = -doubleData;", "doubleData = 0.0 - doubleData;")],
     r'''
int main()
{
    StructuredData d;
    EXPECT( parse( d, "[-0, -0.0e5, -1]" ).status == Status::kOk );
    const auto& a = *d.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>();
    EXPECT( std::signbit( *a[ 0 ]->GetDataAsPointerTo<double>() ) );
    EXPECT( std::signbit( *a[ 1 ]->GetDataAsPointerTo<double>() ) );
    EXPECT( *a[ 2 ]->GetDataAsPointerTo<double>() == -1.0 );
    return bad;
}
''', "a number whose text is a negative zero", "the sign of negative zero is lost")

seed("c02-two-byte-limit", "C02",
     [("Terathon/TSText.cpp", "\tif (code <= 0x0007FF)\n\t{\n\t\ttext[0] = char(((code >> 6) & 0x1F) | 0xC0);",
       "\tif (code <= 0x000800)\n\t{\n\t\ttext[0] = char(((code >> 6) & 0x1F) | 0xC0);")],
     r'''
int main()
{
    StructuredData d;
    EXPECT( parse( d, "\"a\\u0800b\"" ).status == Status::kOk );
    EXPECT( !strcmp( *d.GetRootJsonValue()->GetDataAsPointerTo<String<>>(), "a\xE0\xA0\x80" "b" ) );
    return bad;
}
''', "the escape \\u0800", "one code point is decoded to a malformed string")

seed("c03-dangling-root", "C03",
     [(J, "                delete rootJsonValue;\n                rootJsonValue = nullptr;\n            }\n\n            ParseResult parseResult;",
          "                delete rootJsonValue;\n            }\n\n            ParseResult parseResult;")],
     r'''
int main()
{
    StructuredData d;
    EXPECT( parse( d, "[1]" ).status == Status::kOk );
    EXPECT( parse( d, "[1" ).status != Status::kOk );
    EXPECT( d.GetRootJsonValue() == nullptr );
    return bad;
}
''', "a rejected text after an accepted one on the same object", "the object keeps a pointer to a deleted document")

seed("c03-utf8-overread", "C03",
     [("Terathon/TSText.cpp", """		uint32 byte2 = reinterpret_cast<const uint8 *>(text)[1];
		if ((byte2 & 0xC0U) == 0x80U)
		{
			if (byte1 < 0xE0U)
			{
				return (2);
			}

			uint32 byte3 = reinterpret_cast<const uint8 *>(text)[2];
			if ((byte3 & 0xC0U) == 0x80U)
			{
				if (byte1 < 0xF0U)
				{
					uint32 x = ((byte1 << 12) & 0x00F000) | ((byte2 << 6) & 0x000FC0) | (byte3 & 0x00003F);
					if (x - 0x0800U < 0xF800U)
					{
						return (3);
""", """		uint32 byte2 = reinterpret_cast<const uint8 *>(text)[1];
		if (byte1 < 0xE0U)
		{
			return (((byte2 & 0xC0U) == 0x80U) ? 2 : 0);
		}

		uint32 byte3 = reinterpret_cast<const uint8 *>(text)[2];
		if ((((byte2 << 8) | byte3) & 0xC0C0U) == 0x8080U)
		{
			{
				if (byte1 < 0xF0U)
				{
					uint32 x = ((byte1 << 12) & 0x00F000) | ((byte2 << 6) & 0x000FC0) | (byte3 & 0x00003F);
					if (x - 0x0800U < 0xF800U)
					{
						return (3);
""")],
     r'''
int main()
{
    EXPECT( ok( "\"\xE2\x82\xAC\"" ) );
    for ( int n = 0; n < 40; n++ )
    {
        std::string s = "\"" + std::string( n, 'x' ) + "\xE2";
        Array<char> a;
        a.ReserveArrayElementCount( int32( s.size() + 1 ) );
        for ( char c : s ) a.AppendArrayElement( c );
        a.AppendArrayElement( 0 );
        StructuredData d;
        EXPECT( d.Parse( a ).status != Status::kOk );
    }
    return bad;
}
''', "a text that ends in the first byte of a three- or four-byte character", "a byte after the end of the buffer is read")

seed("c04-colon-position", "C04",
     [(J, "                text += ComputeWhitespaceLength( text );\n\n                if ( text[ 0 ] != ':' )\n                {\n                    return Status::kExpectedColon;\n                }\n\n                text++;\n",
          "                int32 whitespaceLength = ComputeWhitespaceLength( text );\n\n                if ( text[ whitespaceLength ] != ':' )\n                {\n                    return Status::kExpectedColon;\n                }\n\n                text += whitespaceLength + 1;\n")],
     r'''
int main()
{
    StructuredData d;
    ParseResult r = parse( d, "{\"a\"\n   5}" );
    EXPECT( r.status == Status::kExpectedColon );
    EXPECT( r.errorLine == 2 && r.errorColumn == 4 );
    r = parse( d, "{\"a\" 5}" );
    EXPECT( r.errorLine == 1 && r.errorColumn == 6 );
    return bad;
}
''', "whitespace between a member name and the missing colon", "the error position is before the whitespace, possibly on another line")

seed("c05-integral-numbers", "C05",
     [(J, 'snprintf( output, maxDoubleDigits, "%.17g", data );',
          'if ( data > -1e15 && data < 1e15 && data == double( int64( data ) ) )\n                {\n'
          '                    snprintf( output, maxDoubleDigits, "%lld", (long long)( data ) );\n                }\n                else\n                {\n'
          '                    snprintf( output, maxDoubleDigits, "%.17g", data );\n                }')],
     r'''
int main()
{
    StructuredData d, e;
    EXPECT( parse( d, "[-0.0, 5, 1e300]" ).status == Status::kOk );
    EXPECT( d.Write( "f" ) == Status::kOk );
    EXPECT( e.Parse( "f" ).status == Status::kOk );
    const auto& a = *e.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>();
    EXPECT( a.GetArrayElementCount() == 3 && std::signbit( *a[ 0 ]->GetDataAsPointerTo<double>() ) );
    return bad;
}
''', "a document with a negative zero", "negative zero is written as 0")

