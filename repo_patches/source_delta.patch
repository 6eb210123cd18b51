From 2957582f47024b345baf2ca83c1102222f7ef99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 01/60] fix: escape quotes, backslashes and control characters
 when writing strings

---
 Code/Json4C4/C4Json.cpp | 57 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4181333..a526f6d 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1085,6 +1085,58 @@ namespace C4
             return Status::kExpectedJsonValue;
         }
 
+        void WriteStringLiteral( File& file, const char* text )
+        {
+            file << '\"';
+
+            const char* start = text;
+
+            for ( ; text[ 0 ] != 0; text++ )
+            {
+                const uint8 c = uint8( text[ 0 ] );
+
+                if ( c >= 32U && c != '\"' && c != '\\' )
+                {
+                    continue;
+                }
+
+                file.WriteFile( start, uint64( text - start ) );
+                start = text + 1;
+
+                if ( c >= 32U )
+                {
+                    file << '\\' << char( c );
+                }
+                else if ( c == '\b' )
+                {
+                    file << "\\b";
+                }
+                else if ( c == '\f' )
+                {
+                    file << "\\f";
+                }
+                else if ( c == '\n' )
+                {
+                    file << "\\n";
+                }
+                else if ( c == '\r' )
+                {
+                    file << "\\r";
+                }
+                else if ( c == '\t' )
+                {
+                    file << "\\t";
+                }
+                else
+                {
+                    file << "\\u00" << ( c < 16U ? '0' : '1' ) << "0123456789ABCDEF"[ c & 15U ];
+                }
+            }
+
+            file.WriteFile( start, uint64( text - start ) );
+            file << '\"';
+        }
+
         class StringValue final : public Value
         {
         public:
@@ -1153,7 +1205,7 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
-                file << '\"' << data << '\"';
+                WriteStringLiteral( file, data );
 
                 return Status::kOk;
             }
@@ -1671,7 +1723,8 @@ namespace C4
 
                 file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );
 
-                file << '"' << value->name << "\" : ";
+                WriteStringLiteral( file, value->name );
+                file << " : ";
 
                 Status status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
                 if ( status != Status::kOk )
-- 
2.43.0


From c66f530cca201ebb4b4e7631191541c468d5f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:16 +0000
Subject: [PATCH 02/60] fix: truncate an existing file when writing a document
 over it

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index a526f6d..691dd3f 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -269,7 +269,7 @@ namespace C4
                 return kFileOkay;
             }
 
-            int fd = open( fileName, O_WRONLY | O_CREAT, 0644 );
+            int fd = open( fileName, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
 
             if ( fd == -1 )
             {
-- 
2.43.0


From b6f3a69f9743134bb5e8a015d3c5111c585c584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:20 +0000
Subject: [PATCH 03/60] fix: do not create or empty the file when there is no
 document to write

---
 Code/Json4C4/C4Json.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 691dd3f..102d8c4 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1862,6 +1862,10 @@ namespace C4
 
         TERATHON_API Status StructuredData::Write( const char* fileName, const uint32 indentationLength, const char indentationChar ) noexcept
         {
+            if ( !rootJsonValue )
+            {
+                return Status::kInvalidStructuredData;
+            }
 
             File file;
             if ( file.OpenFile( fileName, kFileCreate ) != kFileOkay )
@@ -1871,16 +1875,11 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            if ( rootJsonValue )
-            {
-                Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
-
-                file.CloseFile();
+            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
 
-                return status;
-            }
+            file.CloseFile();
 
-            return Status::kInvalidStructuredData;
+            return status;
         }
 
         const Value* StructuredData::GetRootJsonValue() const noexcept
-- 
2.43.0


From 735942e0dc4b70be6d0efb6f6be802b8e64deca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 04/60] fix: accept exactly the numbers of the RFC 8259 grammar

---
 Code/Json4C4/C4Json.cpp | 147 ++++++++++++++++------------------------
 1 file changed, 58 insertions(+), 89 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 102d8c4..ba2a50e 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -620,17 +620,60 @@ namespace C4
             return int32( reinterpret_cast<const char*>( byte ) - text );
         }
 
+        int32 ComputeDigitsLength( const char* text ) noexcept
+        {
+            const char* c = text;
+
+            while ( c[ 0 ] >= '0' && c[ 0 ] <= '9' )
+            {
+                c++;
+            }
+
+            return int32( c - text );
+        }
+
+        // Returns the length of an unsigned number as defined by the grammar in RFC 8259, or 0 if there isn't one.
         int32 ComputeFloatLiteralLength( const char* text ) noexcept
         {
-            const uint8* byte = reinterpret_cast<const uint8*>( text );
+            int32 length = ComputeDigitsLength( text );
 
-            while ( byte[ 0 ] != 0 && ( ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' ) || ( byte[ 0 ] == '.' ) || ( byte[ 0 ] == 'e' ) || ( byte[ 0 ] == 'E' ) ||
-                                        ( byte[ 0 ] == '+' ) || ( byte[ 0 ] == '-' ) ) )
+            if ( length == 0 )
             {
-                byte++;
+                return 0;
             }
 
-            return int32( reinterpret_cast<const char*>( byte ) - text );
+            if ( text[ length ] == '.' )
+            {
+                int32 digits = ComputeDigitsLength( text + length + 1 );
+
+                if ( digits == 0 )
+                {
+                    return 0;
+                }
+
+                length += digits + 1;
+            }
+
+            if ( text[ length ] == 'e' || text[ length ] == 'E' )
+            {
+                length++;
+
+                if ( text[ length ] == '+' || text[ length ] == '-' )
+                {
+                    length++;
+                }
+
+                int32 digits = ComputeDigitsLength( text + length );
+
+                if ( digits == 0 )
+                {
+                    return 0;
+                }
+
+                length += digits;
+            }
+
+            return length;
         }
 
         int32 ReadEscapeChar( const char* text, uint32* value ) noexcept
@@ -804,7 +847,11 @@ namespace C4
 
         Status ReadDoubleLiteral( const char* text, int32* textLength, double* value )
         {
-#ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
+            if ( text[ 0 ] == '0' && ComputeDigitsLength( text ) > 1 )
+            {
+                return ( Status::kNumbersCannotHaveLeadingZeros );
+            }
+
             *textLength = ComputeFloatLiteralLength( text );
 
             if ( *textLength == 0 )
@@ -812,13 +859,7 @@ namespace C4
                 return ( Status::kFloatInvalid );
             }
 
-            if ( text[ 0 ] == '0' )
-            {
-                if ( *textLength > 1 && text[ 1 ] != '.' )
-                {
-                    return ( Status::kNumbersCannotHaveLeadingZeros );
-                }
-            }
+#ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
             char* str = new char[ ( *textLength ) + 1 ];
 
@@ -843,33 +884,14 @@ namespace C4
 #else
             const uint8* byte = reinterpret_cast<const uint8*>( text );
 
-            double v               = 0.0F;
-            bool   digitFlag       = false;
-            bool   wholeFlag       = false;
-            bool   leadingZeroFlag = ( byte[ 0 ] == '0' );
+            double v = 0.0F;
 
             for ( ;; byte++ )
             {
                 uint32 x = byte[ 0 ] - '0';
                 if ( x < 10U )
                 {
-                    if ( digitFlag && leadingZeroFlag )
-                    {
-                        return ( Status::kNumbersCannotHaveLeadingZeros );
-                    }
-
-                    v         = v * 10.0F + double( x );
-                    digitFlag = true;
-                    wholeFlag = true;
-                }
-                else if ( x == 47 )
-                {
-                    if ( !digitFlag )
-                    {
-                        return ( Status::kFloatInvalid );
-                    }
-
-                    digitFlag = false;
+                    v = v * 10.0F + double( x );
                 }
                 else
                 {
@@ -877,17 +899,9 @@ namespace C4
                 }
             }
 
-            if ( wholeFlag && !digitFlag )
-            {
-                return ( Status::kFloatInvalid );
-            }
-
-            bool fractionFlag = false;
-
             uint32 c = byte[ 0 ];
             if ( c == '.' )
             {
-                digitFlag      = false;
                 double decimal = 10.0F;
                 for ( ++byte;; byte++ )
                 {
@@ -895,38 +909,17 @@ namespace C4
                     if ( x < 10U )
                     {
                         v += double( x ) / decimal;
-                        digitFlag    = true;
-                        fractionFlag = true;
                         decimal *= 10.0F;
                     }
-                    else if ( x == 47 )
-                    {
-                        if ( !digitFlag )
-                        {
-                            return ( Status::kFloatInvalid );
-                        }
-
-                        digitFlag = false;
-                    }
                     else
                     {
                         break;
                     }
                 }
 
-                if ( fractionFlag && !digitFlag )
-                {
-                    return ( Status::kFloatInvalid );
-                }
-
                 c = byte[ 0 ];
             }
 
-            if ( !( wholeFlag || fractionFlag ) )
-            {
-                return ( Status::kFloatInvalid );
-            }
-
             if ( ( c == 'e' ) || ( c == 'E' ) )
             {
                 bool negative = false;
@@ -943,23 +936,12 @@ namespace C4
                 }
 
                 int32 exponent = 0;
-                digitFlag      = false;
                 for ( ;; byte++ )
                 {
                     uint32 x = byte[ 0 ] - '0';
                     if ( x < 10U )
                     {
-                        exponent  = Min( exponent * 10 + x, 65535 );
-                        digitFlag = true;
-                    }
-                    else if ( x == 47 )
-                    {
-                        if ( !digitFlag )
-                        {
-                            return ( Status::kFloatInvalid );
-                        }
-
-                        digitFlag = false;
+                        exponent = Min( exponent * 10 + x, 65535 );
                     }
                     else
                     {
@@ -967,11 +949,6 @@ namespace C4
                     }
                 }
 
-                if ( !digitFlag )
-                {
-                    return ( Status::kFloatInvalid );
-                }
-
                 if ( negative )
                 {
                     v *= minusPower10[ MaxZero( 309 - exponent ) ];
@@ -982,8 +959,7 @@ namespace C4
                 }
             }
 
-            *value      = v;
-            *textLength = int32( reinterpret_cast<const char*>( byte ) - text );
+            *value = v;
 
             return ( Status::kOk );
 #endif
@@ -996,16 +972,9 @@ namespace C4
             if ( c == '-' )
             {
                 text++;
-                text += ComputeWhitespaceLength( text );
                 return ( true );
             }
 
-            if ( c == '+' )
-            {
-                text++;
-                text += ComputeWhitespaceLength( text );
-            }
-
             return ( false );
         }
 
-- 
2.43.0


From eb3b3a9e4a7c957e4d0268a4f55ba76cb3e641e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:28 +0000
Subject: [PATCH 05/60] fix: accept the DEL character in strings, which RFC
 8259 allows unescaped

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index ba2a50e..2af1314 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -793,7 +793,7 @@ namespace C4
                     break;
                 }
 
-                if ( ( c < 32U ) || ( c == 127U ) )
+                if ( c < 32U )
                 {
                     return ( Status::kStringIllegalChar );
                 }
-- 
2.43.0


From e0b62d6b5cb1b3333f1fd2f0d4383ab70dfbc192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:32 +0000
Subject: [PATCH 06/60] fix: decode escaped surrogate pairs as one character

---
 Code/Json4C4/C4Json.cpp | 59 ++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 2af1314..cdb13f3 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -715,6 +715,30 @@ namespace C4
             return ( 0 );
         }
 
+        bool ReadHexadecimalCode( const uint8* byte, uint32* code ) noexcept
+        {
+            *code = 0;
+
+            for ( machine a = 0; a < 4; a++ )
+            {
+                uint32 c = byte[ a ] - '0';
+                if ( c >= 55U )
+                {
+                    return ( false );
+                }
+
+                int32 x = hexadecimalCharValue[ c ];
+                if ( x < 0 )
+                {
+                    return ( false );
+                }
+
+                *code = ( *code << 4 ) | x;
+            }
+
+            return ( true );
+        }
+
         int32 ReadStringEscapeChar( const char* text, int32* stringLength, char* restrict string ) noexcept
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
@@ -722,27 +746,32 @@ namespace C4
 
             if ( c == 'u' )
             {
-                uint32 code = 0;
+                uint32 code;
 
-                for ( machine a = 1; a <= 4; a++ )
+                if ( !ReadHexadecimalCode( byte + 1, &code ) )
                 {
-                    c = byte[ a ] - '0';
-                    if ( c >= 55U )
-                    {
-                        return ( 0 );
-                    }
-
-                    int32 x = hexadecimalCharValue[ c ];
-                    if ( x < 0 )
-                    {
-                        return ( 0 );
-                    }
-
-                    code = ( code << 4 ) | x;
+                    return ( 0 );
                 }
 
                 if ( code != 0 )
                 {
+                    uint32 lowCode;
+
+                    // A high surrogate followed by an escaped low surrogate forms a single character
+                    if ( code - 0xD800U < 0x0400U && byte[ 5 ] == '\\' && byte[ 6 ] == 'u' && ReadHexadecimalCode( byte + 7, &lowCode ) &&
+                         lowCode - 0xDC00U < 0x0400U )
+                    {
+                        code          = 0x010000U + ( ( code - 0xD800U ) << 10 ) + ( lowCode - 0xDC00U );
+                        *stringLength = 4;
+
+                        if ( string )
+                        {
+                            Text::WriteUnicodeChar( string, code );
+                        }
+
+                        return ( 11 );
+                    }
+
                     if ( string )
                     {
                         *stringLength = Text::WriteUnicodeChar( string, code );
-- 
2.43.0


From 2b10d40913d9ab5a0bf5bebb331ff7b254889431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:36 +0000
Subject: [PATCH 07/60] fix: reject text hidden behind an embedded null
 character, keep the error position on failure

---
 Code/Json4C4/C4Json.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index cdb13f3..6be6aae 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1760,10 +1760,21 @@ namespace C4
 
             Status status = ParseAnyValue( jsonRoot, text );
 
-            text += ComputeWhitespaceLength( text );
-            if ( status == Status::kOk && text[ 0 ] != 0 )
+            if ( status == Status::kOk )
             {
-                status = Status::kExpectedEndOfFile;
+                text += ComputeWhitespaceLength( text );
+
+                // Only null terminators are allowed after the value
+                const char* rest = text;
+                while ( rest != nullTerminatedCharArray.end() && rest[ 0 ] == 0 )
+                {
+                    rest++;
+                }
+
+                if ( rest != nullTerminatedCharArray.end() )
+                {
+                    status = Status::kExpectedEndOfFile;
+                }
             }
 
             if ( status != Status::kOk )
-- 
2.43.0


From fdb6b988cdd2b597e3c10cd18ceab6bea75c7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 08/60] fix: leave no document behind when a value is followed
 by other text

---
 Code/Json4C4/C4Json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6be6aae..52dbfb2 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1774,6 +1774,9 @@ namespace C4
                 if ( rest != nullTerminatedCharArray.end() )
                 {
                     status = Status::kExpectedEndOfFile;
+
+                    delete jsonRoot;
+                    jsonRoot = nullptr;
                 }
             }
 
-- 
2.43.0


From bb3cf46b9a34e10988ec8f56aaebcce826c30219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:45 +0000
Subject: [PATCH 09/60] fix: accept documents of a single character

---
 Code/Json4C4/C4Json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 52dbfb2..7a467fb 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1743,7 +1743,7 @@ namespace C4
 
         Status ParseJsonRoot( Value*& jsonRoot, const Array<char>& nullTerminatedCharArray, int32* errorLine, int32* errorColumn ) noexcept
         {
-            if ( nullTerminatedCharArray.GetArrayElementCount() < 3 )
+            if ( nullTerminatedCharArray.GetArrayElementCount() < 2 )
             {
                 return Status::kTextBufferContentsInvalid;
             }
@@ -1850,7 +1850,7 @@ namespace C4
 
         ParseResult StructuredData::Parse( const Array<char>& nullTerminatedTextBuffer ) noexcept
         {
-            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 3 )
+            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 2 )
             {
                 return ParseResult { Status::kTextBufferContentsInvalid, 0, 0 };
             }
-- 
2.43.0


From f2fce3c7e2221696903c03793a478c5c894c0529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 10/60] fix: count error lines and columns from the beginning
 of the text

---
 Code/Json4C4/C4Json.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 7a467fb..a5e3988 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1753,11 +1753,11 @@ namespace C4
                 return Status::kUnterminatedTextBuffer;
             }
 
-            const char* text = &nullTerminatedCharArray[ 0 ];
-            text += ComputeWhitespaceLength( text );
-
+            const char* text  = &nullTerminatedCharArray[ 0 ];
             const char* start = text;
 
+            text += ComputeWhitespaceLength( text );
+
             Status status = ParseAnyValue( jsonRoot, text );
 
             if ( status == Status::kOk )
-- 
2.43.0


From b43955a0644e07fa5beaba53c66a61af17ee4410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:53 +0000
Subject: [PATCH 11/60] fix: add the missing text of KFileTooLarge, which
 shifted all later status texts

---
 Code/Json4C4/C4Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index a5e3988..ef959e1 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -502,6 +502,7 @@ namespace C4
         static const char* const StatusString[] = { "Ok",
                                                     "Could not open file",
                                                     "Could not read file",
+                                                    "File is too large",
                                                     "Invalid JSON text",
                                                     "Unterminated text buffer",
                                                     "Expected opening curly braces",
-- 
2.43.0


From 31e96b4e0b8ee8096e7265e457f38eaa028f0a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:55 +0000
Subject: [PATCH 12/60] fix: keep one member per name and free the value of a
 repeated name

---
 Code/Json4C4/C4Json.cpp | 15 +++++++++++++--
 Code/Json4C4/C4Json.h   |  5 ++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index ef959e1..2fa998a 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1524,7 +1524,13 @@ namespace C4
         {
             insertionOrder.AppendArrayElement( element->name );
 
-            return this->InsertMapElement( element );
+            if ( !this->InsertMapElement( element ) )
+            {
+                insertionOrder.RemoveLastArrayElement();
+                return false;
+            }
+
+            return true;
         }
 
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
@@ -1582,7 +1588,12 @@ namespace C4
                     [ & ]()
                     {
                         jsonValue->name = name.data;
-                        jsonObject->InsertAccountedMapElement( jsonValue );
+
+                        // When a name is repeated, the first value is kept
+                        if ( !jsonObject->InsertAccountedMapElement( jsonValue ) )
+                        {
+                            delete jsonValue;
+                        }
 
                         return Status::kOk;
                     } );
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6d6f4c6..ad29fad 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -697,7 +697,10 @@ namespace C4
                         associateValue->name = name;
                         Serialize( associateValue, data );
 
-                        objectValue->InsertAccountedMapElement( associateValue );
+                        if ( !objectValue->InsertAccountedMapElement( associateValue ) )
+                        {
+                            delete associateValue;
+                        }
 
                         return Status::kOk;
                     } );
-- 
2.43.0


From a97fe50659294370d47647aa05b243e9250e6db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 13/60] fix: keep the bytes of earlier short reads, report a
 file that ends early as a read error

---
 Code/Json4C4/C4Json.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 2fa998a..39ed4e2 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -374,7 +374,7 @@ namespace C4
 
                 BOOL ok = ::ReadFile( fileHandle, p, end - p, &numberOfBytesRead, nullptr );
 
-                if ( !ok )
+                if ( !ok || numberOfBytesRead == 0 )
                 {
                     return kFileReadError;
                 }
@@ -400,9 +400,9 @@ namespace C4
 
             while ( p != end )
             {
-                int numberOfBytesRead = read( this->fileDescriptor, buffer, end - p );
+                int numberOfBytesRead = read( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesRead == -1 )
+                if ( numberOfBytesRead <= 0 )
                 {
                     return kFileReadError;
                 }
-- 
2.43.0


From da53ae4a19d948c40c2edfed4610ec9dd5ca312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:18 +0000
Subject: [PATCH 14/60] fix: forget the deleted document when serialization
 cannot allocate the new one

---
 Code/Json4C4/C4Json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index ad29fad..b95d177 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -592,6 +592,7 @@ namespace C4
                 if ( rootJsonValue != nullptr )
                 {
                     delete rootJsonValue;
+                    rootJsonValue = nullptr;
                 }
 
                 Status status = MayThrow(
-- 
2.43.0


From f3c43a23ffa13968f2a8fa4956a57c6538bbefc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 15/60] fix: report a name missing inside an optional member
 instead of taking the member for absent

---
 Code/Json4C4/C4Json.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index b95d177..1765705 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -641,6 +641,16 @@ namespace C4
 
         TERATHON_API String<256> ParseResultToString( const ParseResult& parseResult ) noexcept;
 
+        namespace Detail
+        {
+            inline bool IsNameAbsent( const Value* value, const char* name ) noexcept
+            {
+                const ObjectValue* objectValue = value->AsJsonObjectValue();
+
+                return ( objectValue && !objectValue->FindMapElement( name ) );
+            }
+        } // namespace Detail
+
         template <class T>
         Status Validate( const Value* value, const char* name, const T& data ) noexcept
         {
@@ -1419,7 +1429,7 @@ namespace C4
         {
             Status status = Validate( value, name, data );
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            if ( status != Status::kOk && !( status == Status::kNameNotPresent && Detail::IsNameAbsent( value, name ) ) )
             {
                 return status;
             }
@@ -1463,7 +1473,7 @@ namespace C4
         {
             Status status = Deserialize( value, name, data );
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            if ( status != Status::kOk && !( status == Status::kNameNotPresent && Detail::IsNameAbsent( value, name ) ) )
             {
                 return status;
             }
-- 
2.43.0


From d9f6e79ef64f33eb291eb54607bb7f1272c92288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 16/60] fix: report an error when validating or deserializing
 without a document

---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 1765705..8943317 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -572,6 +572,11 @@ namespace C4
             template <class T>
             Status DeserializeTo( T& data ) noexcept
             {
+                if ( rootJsonValue == nullptr )
+                {
+                    return Status::kInvalidStructuredData;
+                }
+
                 return MayThrow(
                     [ & ]()
                     {
@@ -625,6 +630,11 @@ namespace C4
         template <class T>
         Status Validate( const StructuredData& sd, const T& data ) noexcept
         {
+            if ( sd.GetRootJsonValue() == nullptr )
+            {
+                return Status::kInvalidStructuredData;
+            }
+
             return MayThrow(
                 [ & ]()
                 {
-- 
2.43.0


From 4604f1fa884c6fff619656224e3fa9ecb7c24abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:08 +0000
Subject: [PATCH 17/60] fix: report the failure to serialize a named member

---
 Code/Json4C4/C4Json.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 8943317..82f9554 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -716,7 +716,12 @@ namespace C4
                     {
                         associateValue       = Detail::CreateValueFor( data );
                         associateValue->name = name;
-                        Serialize( associateValue, data );
+
+                        Status serializeStatus = Serialize( associateValue, data );
+                        if ( serializeStatus != Status::kOk )
+                        {
+                            return serializeStatus;
+                        }
 
                         if ( !objectValue->InsertAccountedMapElement( associateValue ) )
                         {
-- 
2.43.0


From 85d7f964661592186e3a2a58ac8b646731b33a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:12 +0000
Subject: [PATCH 18/60] fix: write the members of serialized maps, free the
 members they replace

---
 Code/Json4C4/C4Json.cpp | 6 ++++++
 Code/Json4C4/C4Json.h   | 9 +++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 39ed4e2..e55074c 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1533,6 +1533,12 @@ namespace C4
             return true;
         }
 
+        void ObjectValue::PurgeObject()
+        {
+            this->PurgeMap();
+            insertionOrder.PurgeArray();
+        }
+
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
         {
             if ( text[ 0 ] != '{' )
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 82f9554..42e46d5 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -514,6 +514,7 @@ namespace C4
             TERATHON_API const ObjectValue*   FindJsonObjectValue( const char* name ) const noexcept;
 
             TERATHON_API bool InsertAccountedMapElement( Value* element );
+            TERATHON_API void PurgeObject();
 
             TERATHON_API Status Write( File& file, uint32 indentationLength, const char indentationChar, Array<char>& indentationCharArray ) const override;
         };
@@ -1098,7 +1099,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeObject();
 
                     T      temp;
                     Status status;
@@ -1123,7 +1124,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1374,7 +1375,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeObject();
 
                     T      temp;
                     Status status;
@@ -1399,7 +1400,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From ea761f11571dba5b3bac23b7c1321b8337ee8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 19/60] fix: serialize a std::vector to an array, deserialize
 vectors of types with member functions

---
 Code/Json4C4/C4Json.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 42e46d5..4bad0ec 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -534,6 +534,16 @@ namespace C4
                 return new ArrayValue;
             }
 
+#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
+
+            template <class T>
+            Value* CreateValueFor( const std::vector<T>& ) noexcept( false )
+            {
+                return new ArrayValue;
+            }
+
+#endif
+
             template <>
             TERATHON_API Value* CreateValueFor( const String<>& ) noexcept( false );
 
@@ -1213,7 +1223,7 @@ namespace C4
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
                         {
-                            status = temp->Deserialize( value );
+                            status = temp.Deserialize( value );
                         }
                         else
                         {
-- 
2.43.0


From 0bdc981b60c17a8abcb461a76c14e97ca4a02324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:16 +0000
Subject: [PATCH 20/60] fix: process nested members whose types have member
 functions

---
 Code/Json4C4/C4Json.h | 65 ++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 4bad0ec..94a24ff 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -783,62 +783,69 @@ namespace C4
         }
 
         template <class T>
-        Status Validate( const Value* value, const T& /*data*/ ) noexcept
+        Status Validate( const Value* value, [[maybe_unused]] const T& data ) noexcept
         {
-            const T* valueData = value->GetDataAsPointerTo<T>();
+            if constexpr ( Detail::HasValidateMember<const T>::Value )
+            {
+                return MayThrow( [ & ]() { return data.Validate( value ); } );
+            }
+            else
+            {
+                const T* valueData = value->GetDataAsPointerTo<T>();
 
-            return valueData ? Status::kOk : Status::kInvalidValueType;
+                return valueData ? Status::kOk : Status::kInvalidValueType;
+            }
         }
 
         template <class T>
         Status Deserialize( const Value* value, T& data ) noexcept
         {
-            const T* valueData = value->GetDataAsPointerTo<T>();
-
-            if ( !valueData )
+            if constexpr ( Detail::HasDeserializeMember<T>::Value )
             {
-                return Status::kInvalidValueType;
+                return MayThrow( [ & ]() { return data.Deserialize( value ); } );
             }
+            else
+            {
+                const T* valueData = value->GetDataAsPointerTo<T>();
 
-            return MayThrow(
-                [ & ]()
+                if ( !valueData )
                 {
-                    if constexpr ( Detail::HasDeserializeMember<T>::Value )
-                    {
-                        return data.Deserialize( value );
-                    }
-                    else
+                    return Status::kInvalidValueType;
+                }
+
+                return MayThrow(
+                    [ & ]()
                     {
                         data = *valueData;
                         return Status::kOk;
-                    }
-                } );
+                    } );
+            }
         }
 
         template <class T>
         Status Serialize( Value* value, const T& data ) noexcept
         {
-            T* valueData = value->GetDataAsPointerTo<T>();
-
-            if ( !valueData )
+            if constexpr ( Detail::HasSerializeMember<const T>::Value )
             {
-                return Status::kInvalidValueType;
+                return MayThrow( [ & ]() { return data.Serialize( value ); } );
             }
+            else
+            {
+                T* valueData = value->GetDataAsPointerTo<T>();
 
-            return MayThrow(
-                [ & ]()
+                if ( !valueData )
                 {
-                    if constexpr ( Detail::HasSerializeMember<T>::Value )
-                    {
-                        return data.Serialize( value );
-                    }
-                    else
+                    return Status::kInvalidValueType;
+                }
+
+                return MayThrow(
+                    [ & ]()
                     {
                         *valueData = data;
 
                         return Status::kOk;
-                    }
-                } );
+                    } );
+            }
         }
 
         template <class T>
-- 
2.43.0


From 8b2b7cef9047c0ce4f42c2d8835d25916503e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:08 +0000
Subject: [PATCH 21/60] fix: report failures to write or close the file

---
 Code/Json4C4/C4Json.cpp | 42 +++++++++++++++++++++++++++++++++--------
 Code/Json4C4/C4Json.h   |  3 ++-
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index e55074c..8551dd9 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -201,6 +201,9 @@ namespace C4
     private:
         bool IsReadOnly = false;
 
+        // The first failure to write, which stays until the file is closed
+        FileStatus writeStatus = kFileOkay;
+
 #    if defined( JSON4C4_WINDOWS )
 
         HANDLE fileHandle = nullptr;
@@ -284,13 +287,19 @@ namespace C4
 #    endif
         }
 
-        void CloseFile()
+        FileStatus CloseFile()
         {
+            FileStatus status = writeStatus;
+            writeStatus       = kFileOkay;
+
 #    if defined( JSON4C4_WINDOWS )
 
             if ( fileHandle != nullptr )
             {
-                CloseHandle( fileHandle );
+                if ( !CloseHandle( fileHandle ) && !IsReadOnly )
+                {
+                    status = kFileWriteError;
+                }
 
                 fileHandle = nullptr;
             }
@@ -299,12 +308,17 @@ namespace C4
 
             if ( this->fileDescriptor != -1 )
             {
-                close( this->fileDescriptor );
+                if ( close( this->fileDescriptor ) != 0 && !IsReadOnly )
+                {
+                    status = kFileWriteError;
+                }
 
                 fileDescriptor = -1;
             }
 
 #    endif
+
+            return status;
         }
 
         Terathon::uint64 GetFileSize()
@@ -439,9 +453,9 @@ namespace C4
 
                 BOOL ok = ::WriteFile( fileHandle, p, end - p, &numberOfBytesWritten, nullptr );
 
-                if ( !ok )
+                if ( !ok || numberOfBytesWritten == 0 )
                 {
-                    return kFileWriteError;
+                    return ( writeStatus = kFileWriteError );
                 }
 
                 p += numberOfBytesWritten;
@@ -462,9 +476,9 @@ namespace C4
             {
                 int numberOfBytesWritten = write( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesWritten == -1 )
+                if ( numberOfBytesWritten <= 0 )
                 {
-                    return kFileWriteError;
+                    return ( writeStatus = kFileWriteError );
                 }
 
                 p += numberOfBytesWritten;
@@ -525,7 +539,8 @@ namespace C4
                                                     "An expected object value pair was not found",
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
-                                                    "Could not find requested name of name/value pair" };
+                                                    "Could not find requested name of name/value pair",
+                                                    "Could not write file" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1907,8 +1922,19 @@ namespace C4
 
             Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
 
+#ifndef C4_ENGINE_MODULE
+
+            if ( file.CloseFile() != kFileOkay && status == Status::kOk )
+            {
+                status = Status::KFileWriteError;
+            }
+
+#else
+
             file.CloseFile();
 
+#endif
+
             return status;
         }
 
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 94a24ff..5362960 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -156,7 +156,8 @@ namespace C4
             kMissingObjectElement,
             kException,
             kInvalidValueType,
-            kNameNotPresent
+            kNameNotPresent,
+            KFileWriteError
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
-- 
2.43.0


From b553ced862b755d2559cecd5628d49e5ddd6fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:12 +0000
Subject: [PATCH 22/60] fix: write infinite numbers as valid JSON, refuse to
 write NaN

---
 Code/Json4C4/C4Json.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 8551dd9..824967f 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1276,6 +1276,19 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
+                if ( data != data )
+                {
+                    // There is no JSON text for NaN
+                    return Status::kFloatInvalid;
+                }
+
+                if ( data - data != 0.0 )
+                {
+                    // A number beyond the range of doubles reads back as infinity
+                    file << ( data > 0.0 ? "1e999" : "-1e999" );
+
+                    return Status::kOk;
+                }
 
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
-- 
2.43.0


From 6893840f6a8491a35b3ea066eb5c110dfa165a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:28 +0000
Subject: [PATCH 23/60] fix: read and write numbers independently of the
 locale's decimal point

---
 Code/Json4C4/C4Json.cpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 824967f..dcbc880 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -906,11 +906,26 @@ namespace C4
 
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
-            char* str = new char[ ( *textLength ) + 1 ];
+            // strtod() expects the decimal point of the current locale, which is found between the digits of this text
+            char  decimalPoint[ 16 ];
+            int32 decimalPointLength = int32( snprintf( decimalPoint, sizeof( decimalPoint ), "%.1f", 0.5 ) ) - 2;
 
-            Text::CopyText( text, str, *textLength );
+            char* str = new char[ ( *textLength ) + decimalPointLength + 1 ];
+            char* s   = str;
 
-            str[ *textLength ] = 0;
+            for ( int32 a = 0; a < *textLength; a++ )
+            {
+                if ( text[ a ] != '.' )
+                {
+                    *( s++ ) = text[ a ];
+                }
+                else
+                {
+                    s += Text::CopyText( decimalPoint + 1, s, decimalPointLength );
+                }
+            }
+
+            s[ 0 ] = 0;
 
             char*  end = nullptr;
             double v   = strtod( str, &end );
@@ -1297,6 +1312,21 @@ namespace C4
 
                 snprintf( output, maxDoubleDigits, "%.17g", data );
 
+                // Replace the decimal point of the current locale
+                char* s = output;
+                for ( const char* c = output; c[ 0 ] != 0; c++ )
+                {
+                    if ( ( c[ 0 ] >= '0' && c[ 0 ] <= '9' ) || c[ 0 ] == '-' || c[ 0 ] == '+' || c[ 0 ] == 'e' )
+                    {
+                        *( s++ ) = c[ 0 ];
+                    }
+                    else if ( s[ -1 ] != '.' )
+                    {
+                        *( s++ ) = '.';
+                    }
+                }
+                s[ 0 ] = 0;
+
                 file << output;
 
 #else
-- 
2.43.0


From 211d378aa298d4a68023b773b43c273c5c78627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:08 +0000
Subject: [PATCH 24/60] fix: limit the nesting depth so that deeply nested text
 cannot exhaust the stack

---
 Code/Json4C4/C4Json.cpp | 54 +++++++++++++++++++++++++++++------------
 Code/Json4C4/C4Json.h   |  7 +++---
 2 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index dcbc880..e4872dd 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -96,6 +96,8 @@
 
 #define MAX_FILE_SIZE 0xffff - 1
 
+#define MAX_NESTING_DEPTH 1024
+
 namespace C4
 {
 
@@ -540,7 +542,8 @@ namespace C4
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
                                                     "Could not find requested name of name/value pair",
-                                                    "Could not write file" };
+                                                    "Could not write file",
+                                                    "Arrays and objects are nested too deeply" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1039,7 +1042,7 @@ namespace C4
         }
 
         template <class T>
-        Status ParseValue( Value*& value, const char*& text ) noexcept
+        Status ParseValue( Value*& value, const char*& text, [[maybe_unused]] int32 depth ) noexcept
         {
             T* jsonValue = nullptr;
 
@@ -1055,7 +1058,18 @@ namespace C4
                 return status;
             }
 
-            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text ); } );
+            status = MayThrow(
+                [ & ]()
+                {
+                    if constexpr ( Detail::IsSame<T, ArrayValue>::Value || Detail::IsSame<T, ObjectValue>::Value )
+                    {
+                        return T::Parse( jsonValue, text, depth );
+                    }
+                    else
+                    {
+                        return T::Parse( jsonValue, text );
+                    }
+                } );
 
             if ( status == Status::kOk )
             {
@@ -1069,43 +1083,43 @@ namespace C4
             return status;
         };
 
-        Status ParseAnyValue( Value*& value, const char*& text ) noexcept
+        Status ParseAnyValue( Value*& value, const char*& text, int32 depth ) noexcept
         {
             const char* start = text;
 
-            Status status = ParseValue<StringValue>( value, text );
+            Status status = ParseValue<StringValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedBeginingDoubleQuotes )
             {
                 return status;
             }
             text = start;
 
-            status = ParseValue<NumberValue>( value, text );
+            status = ParseValue<NumberValue>( value, text, depth );
             if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros )
             {
                 return status;
             }
             text = start;
 
-            if ( ParseValue<BoolValue>( value, text ) == Status::kOk )
+            if ( ParseValue<BoolValue>( value, text, depth ) == Status::kOk )
             {
                 return Status::kOk;
             }
             text = start;
 
-            if ( ParseValue<NullValue>( value, text ) == Status::kOk )
+            if ( ParseValue<NullValue>( value, text, depth ) == Status::kOk )
             {
                 return Status::kOk;
             }
             text = start;
 
-            status = ParseValue<ArrayValue>( value, text );
+            status = ParseValue<ArrayValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedOpeningSquareBrackets )
             {
                 return status;
             }
 
-            status = ParseValue<ObjectValue>( value, text );
+            status = ParseValue<ObjectValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedOpeningCurlyBraces || status == Status::kNumbersCannotHaveLeadingZeros )
             {
                 return status;
@@ -1463,13 +1477,18 @@ namespace C4
 
         } // namespace Detail
 
-        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text ) noexcept
+        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '[' )
             {
                 return Status::kExpectedOpeningSquareBrackets;
             }
 
+            if ( depth >= MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyArray = true;
 
             for ( ;; )
@@ -1490,7 +1509,7 @@ namespace C4
                 }
 
                 Value* jsonValue = nullptr;
-                Status status    = ParseAnyValue( jsonValue, text );
+                Status status    = ParseAnyValue( jsonValue, text, depth + 1 );
                 if ( status != Status::kOk )
                 {
                     return status;
@@ -1597,13 +1616,18 @@ namespace C4
             insertionOrder.PurgeArray();
         }
 
-        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
+        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '{' )
             {
                 return Status::kExpectedOpeningCurlyBraces;
             }
 
+            if ( depth >= MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyObject = true;
 
             for ( ;; )
@@ -1642,7 +1666,7 @@ namespace C4
 
                 Value* jsonValue = nullptr;
 
-                status = ParseAnyValue( jsonValue, text );
+                status = ParseAnyValue( jsonValue, text, depth + 1 );
                 if ( status != Status::kOk )
                 {
                     return status;
@@ -1834,7 +1858,7 @@ namespace C4
 
             text += ComputeWhitespaceLength( text );
 
-            Status status = ParseAnyValue( jsonRoot, text );
+            Status status = ParseAnyValue( jsonRoot, text, 0 );
 
             if ( status == Status::kOk )
             {
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 5362960..ceccda5 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -157,7 +157,8 @@ namespace C4
             kException,
             kInvalidValueType,
             kNameNotPresent,
-            KFileWriteError
+            KFileWriteError,
+            kNestingTooDeep
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
@@ -472,7 +473,7 @@ namespace C4
         class ArrayValue final : public Value
         {
         public:
-            static Status Parse( ArrayValue* jsonArray, const char*& text ) noexcept;
+            static Status Parse( ArrayValue* jsonArray, const char*& text, int32 depth = 0 ) noexcept;
 
         public:
             using DataType = Array<Value*>;
@@ -499,7 +500,7 @@ namespace C4
             using Map<Value>::end;
 
         public:
-            static Status Parse( ObjectValue* jsonObjectValue, const char*& text ) noexcept;
+            static Status Parse( ObjectValue* jsonObjectValue, const char*& text, int32 depth = 0 ) noexcept;
 
         public:
             TERATHON_API ~ObjectValue() noexcept override;
-- 
2.43.0


From 60912a164a39bc3237d548962c2b7671e17517e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:33 +0000
Subject: [PATCH 25/60] fix: report an allocation failure during parsing as
 such, free the value that could not be stored

---
 Code/Json4C4/C4Json.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index e4872dd..aaf0944 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1095,21 +1095,23 @@ namespace C4
             text = start;
 
             status = ParseValue<NumberValue>( value, text, depth );
-            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros )
+            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros || status == Status::kException )
             {
                 return status;
             }
             text = start;
 
-            if ( ParseValue<BoolValue>( value, text, depth ) == Status::kOk )
+            status = ParseValue<BoolValue>( value, text, depth );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-            if ( ParseValue<NullValue>( value, text, depth ) == Status::kOk )
+            status = ParseValue<NullValue>( value, text, depth );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
@@ -1524,6 +1526,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
@@ -1688,6 +1691,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
-- 
2.43.0


From 6fa715f2da4ddfe83b8e524bfeb5a2d1b5243c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:37 +0000
Subject: [PATCH 26/60] fix: return an error when memory runs out while
 writing, instead of terminating

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index aaf0944..f513020 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1991,7 +1991,7 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
+            Status status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );
 
 #ifndef C4_ENGINE_MODULE
 
-- 
2.43.0


From 3a989e6cfdc31c1b386719371321ea942d069475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:41 +0000
Subject: [PATCH 27/60] fix: return an error when memory runs out while looking
 up a name, instead of terminating

---
 Code/Json4C4/C4Json.h | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index ceccda5..351730a 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -670,7 +670,8 @@ namespace C4
             {
                 const ObjectValue* objectValue = value->AsJsonObjectValue();
 
-                return ( objectValue && !objectValue->FindMapElement( name ) );
+                return ( objectValue && MayThrow( [ & ]() { return objectValue->FindMapElement( name ) ? Status::kOk : Status::kNameNotPresent; } ) ==
+                                            Status::kNameNotPresent );
             }
         } // namespace Detail
 
@@ -684,7 +685,19 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
-            const Value* associateValue = objectValue->FindMapElement( name );
+            const Value* associateValue = nullptr;
+
+            Status status = MayThrow(
+                [ & ]()
+                {
+                    associateValue = objectValue->FindMapElement( name );
+                    return Status::kOk;
+                } );
+
+            if ( status != Status::kOk )
+            {
+                return status;
+            }
 
             if ( !associateValue )
             {
@@ -704,7 +717,19 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
-            const Value* associateValue = objectValue->FindMapElement( name );
+            const Value* associateValue = nullptr;
+
+            Status status = MayThrow(
+                [ & ]()
+                {
+                    associateValue = objectValue->FindMapElement( name );
+                    return Status::kOk;
+                } );
+
+            if ( status != Status::kOk )
+            {
+                return status;
+            }
 
             if ( !associateValue )
             {
-- 
2.43.0


From 0e67dc6737a6959dc0c5e20a277cc6cccbe52138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:44 +0000
Subject: [PATCH 28/60] fix: free the element of a map when memory runs out
 while processing it

---
 Code/Json4C4/C4Json.h | 77 +++++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 351730a..3797f63 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1078,16 +1078,16 @@ namespace C4
                             status = MayThrow(
                                 [ & ]()
                                 {
-                                    dataMapElement = new DataMapElementType;
+                                    dataMapElement       = new DataMapElementType;
+                                    dataMapElement->name = key;
                                     return Status::kOk;
                                 } );
 
                             if ( status != Status::kOk )
                             {
+                                delete dataMapElement;
                                 return status;
                             }
-
-                            dataMapElement->name = key;
                         }
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
@@ -1151,24 +1151,36 @@ namespace C4
                     for ( const auto* dataMapElement : data )
                     {
                         Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElement->name;
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElement->data.Serialize( elem );
-                        }
-                        else
-                        {
-                            status = Serialize( elem, dataMapElement->data );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem->name = dataMapElement->name;
+
+                                Status elementStatus;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    elementStatus = dataMapElement->data.Serialize( elem );
+                                }
+                                else
+                                {
+                                    elementStatus = Serialize( elem, dataMapElement->data );
+                                }
+
+                                if ( elementStatus == Status::kOk )
+                                {
+                                    objectValue->InsertAccountedMapElement( elem );
+                                }
+
+                                return elementStatus;
+                            } );
 
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1426,25 +1438,40 @@ namespace C4
 
                     for ( auto const& [ dataMapElementKey, dataMapElementData ] : data )
                     {
+                        const auto& elementKey  = dataMapElementKey;
+                        const auto& elementData = dataMapElementData;
+
                         Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElementKey.c_str();
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElementData.Serialize( elem );
-                        }
-                        else
-                        {
-                            status = Serialize( elem, dataMapElementData );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem->name = elementKey.c_str();
+
+                                Status elementStatus;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    elementStatus = elementData.Serialize( elem );
+                                }
+                                else
+                                {
+                                    elementStatus = Serialize( elem, elementData );
+                                }
+
+                                if ( elementStatus == Status::kOk )
+                                {
+                                    objectValue->InsertAccountedMapElement( elem );
+                                }
+
+                                return elementStatus;
+                            } );
 
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From db4c930fb82d331bebb5cfb70099d6f99183337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:47 +0000
Subject: [PATCH 29/60] fix: leave no incomplete document when serialization
 fails

---
 Code/Json4C4/C4Json.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 3797f63..8bd313d 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -625,7 +625,7 @@ namespace C4
                     return status;
                 }
 
-                return MayThrow(
+                status = MayThrow(
                     [ & ]()
                     {
                         if constexpr ( Detail::HasSerializeMember<T>::Value )
@@ -637,6 +637,15 @@ namespace C4
                             return Serialize( this->GetRootJsonValue(), data );
                         }
                     } );
+
+                if ( status != Status::kOk )
+                {
+                    // Do not leave an incomplete document
+                    delete rootJsonValue;
+                    rootJsonValue = nullptr;
+                }
+
+                return status;
             }
         };
 
-- 
2.43.0


From 8cf66d6649f2199e34aa609eba669d7c8c8c0508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:36 +0000
Subject: [PATCH 30/60] fix: reset the capacity when shortening a string into
 its local storage

---
 Code/Terathon/TSString.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 6bf3912..7c0e1b2 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -633,6 +633,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 			{
 				Text::CopyText(stringPointer, localString, copyLength);
 				delete[] stringPointer;
+				physicalSize = kStringLocalSize;
 				stringPointer = localString;
 			}
 
-- 
2.43.0


From 00842f3bdc0ff0709f3b79ff6fcb2ba3a7b60ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:36 +0000
Subject: [PATCH 31/60] fix: keep the text when a string is assigned to itself
 or from a part of itself

---
 Code/Terathon/TSString.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 7c0e1b2..c5951af 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -331,6 +331,11 @@ String<0>& String<0>::Set(const char *s, int32 length)
 		}
 	}
 
+	if ((s >= stringPointer) && (s < stringPointer + physicalSize))
+	{
+		return (*this = String(s, length));
+	}
+
 	if (length > 0)
 	{
 		Resize(length + 1);
@@ -346,6 +351,11 @@ String<0>& String<0>::Set(const char *s, int32 length)
 
 String<0>& String<0>::operator =(String&& s) noexcept
 {
+	if (&s == this)
+	{
+		return (*this);
+	}
+
 	if (stringPointer != localString)
 	{
 		delete[] stringPointer;
@@ -377,6 +387,11 @@ String<0>& String<0>::operator =(String&& s) noexcept
 
 String<0>& String<0>::operator =(const String& s)
 {
+	if (&s == this)
+	{
+		return (*this);
+	}
+
 	int32 size = s.logicalSize;
 	if (size > 1)
 	{
@@ -393,6 +408,11 @@ String<0>& String<0>::operator =(const String& s)
 
 String<0>& String<0>::operator =(const char *s)
 {
+	if ((s >= stringPointer) && (s < stringPointer + physicalSize))
+	{
+		return (*this = String(s));
+	}
+
 	int32 length = Text::GetTextLength(s);
 	if (length > 0)
 	{
-- 
2.43.0


From f4f64d3018318979680fe9fcefcc610f33434f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 32/60] fix: append the text a string held when it is appended
 to itself

---
 Code/Terathon/TSString.cpp | 14 +++++++++++---
 Code/Terathon/TSString.h   |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index c5951af..3303947 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -475,7 +475,7 @@ String<0>& String<0>::operator +=(const String<>& s)
 			stringPointer = newPointer;
 		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
+		Text::CopyText(s, stringPointer + logicalSize - 1, length);
 		logicalSize = size;
 	}
 
@@ -493,6 +493,7 @@ String<0>& String<0>::operator +=(const char *s)
 			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
 			char *newPointer = new char[physicalSize];
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -501,8 +502,11 @@ String<0>& String<0>::operator +=(const char *s)
 
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
 		logicalSize = size;
 	}
 
@@ -683,6 +687,7 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
 			char *newPointer = new char[physicalSize];
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -691,8 +696,11 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1, length);
 		logicalSize = size;
 	}
 
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 9f01605..2038171 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -268,7 +268,7 @@ namespace Terathon
 			String& operator +=(const char *s)
 			{
 				int32 l = GetStringLength();
-				Text::CopyText(s, &c[l], len - l);
+				Text::CopyText(s, &c[l], Min(len - l, Text::GetTextLength(s)));
 				return (*this);
 			}
 
-- 
2.43.0


From 1ad253766c632b7c21ab837b8f934f1c2b198cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 33/60] fix: count the terminator in the size of an escaped
 string

---
 Code/Terathon/TSString.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 3303947..8e605b4 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -812,9 +812,10 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
-		logicalSize = encodedLength;
-		physicalSize = GetPhysicalSize(encodedLength);
-		char *encodedString = new char[physicalSize];
+		int32 encodedPhysicalSize = GetPhysicalSize(encodedLength + 1);
+		char *encodedString = new char[encodedPhysicalSize];
+		logicalSize = encodedLength + 1;
+		physicalSize = encodedPhysicalSize;
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
 		uint8 *encodedByte = reinterpret_cast<uint8 *>(encodedString);
-- 
2.43.0


From d14231b2ca218aecd68dda733e03fa1cbfaf4d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:41 +0000
Subject: [PATCH 34/60] fix: keep a string intact when memory runs out while
 resizing it

---
 Code/Terathon/TSString.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 8e605b4..ff2a200 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -294,18 +294,20 @@ void String<0>::PurgeString(void)
 
 void String<0>::Resize(int32 size)
 {
-	logicalSize = size;
 	if (size > kStringLocalSize)
 	{
 		if ((size > physicalSize) || (size < physicalSize / 2))
 		{
+			int32 newPhysicalSize = GetPhysicalSize(size);
+			char *newPointer = new char[newPhysicalSize];
+
 			if (stringPointer != localString)
 			{
 				delete[] stringPointer;
 			}
 
-			physicalSize = GetPhysicalSize(size);
-			stringPointer = new char[physicalSize];
+			physicalSize = newPhysicalSize;
+			stringPointer = newPointer;
 		}
 	}
 	else
@@ -318,6 +320,8 @@ void String<0>::Resize(int32 size)
 		physicalSize = kStringLocalSize;
 		stringPointer = localString;
 	}
+
+	logicalSize = size;
 }
 
 String<0>& String<0>::Set(const char *s, int32 length)
@@ -635,15 +639,15 @@ String<0>& String<0>::SetStringLength(int32 length)
 		if (size != logicalSize)
 		{
 			int32 copyLength = Min(length, logicalSize - 1);
-			logicalSize = size;
 
 			if (size > kStringLocalSize)
 			{
 				if ((size > physicalSize) || (size < physicalSize / 2))
 				{
-					physicalSize = GetPhysicalSize(size);
-					char *newPointer = new char[physicalSize];
+					int32 newPhysicalSize = GetPhysicalSize(size);
+					char *newPointer = new char[newPhysicalSize];
 					Text::CopyText(stringPointer, newPointer, copyLength);
+					physicalSize = newPhysicalSize;
 
 					if (stringPointer != localString)
 					{
@@ -662,6 +666,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 			}
 
 			stringPointer[length] = 0;
+			logicalSize = size;
 		}
 	}
 	else
-- 
2.43.0


From 17b7050af90ced8199e5850db1b72276400d6ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 35/60] fix: convert the smallest integers to text

---
 Code/Terathon/TSText.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index b66320b..bc28925 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1168,15 +1168,15 @@ int32 Text::IntegerToString(int32 num, char *text, int32 max)
 	char	c[16];
 
 	bool negative = (num < 0);
-	num = Abs(num) & 0x7FFFFFFF;
+	uint32 magnitude = (negative) ? 0U - uint32(num) : uint32(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		int32 p = magnitude % 10;
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		magnitude /= 10;
+	} while (magnitude != 0);
 
 	machine a = -1;
 	if (negative)
@@ -1214,15 +1214,15 @@ int32 Text::Integer64ToString(int64 num, char *text, int32 max)
 	char	c[32];
 
 	bool negative = (num < 0);
-	num = Abs64(num) & 0x7FFFFFFFFFFFFFFFULL;
+	uint64 magnitude = (negative) ? 0ULL - uint64(num) : uint64(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		int32 p = magnitude % 10;
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		magnitude /= 10;
+	} while (magnitude != 0);
 
 	machine a = -1;
 	if (negative)
-- 
2.43.0


From f38f524d96e89a27c1334c5f639c3b9768d5fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 36/60] fix: return the whole length of a float written with an
 exponent

---
 Code/Terathon/TSText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index bc28925..a8f119f 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1440,7 +1440,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if ((power != 0) && (len < max))
 	{
 		text[len++] = 'e';
-		return (IntegerToString(power, &text[len], max - len));
+		return (len + IntegerToString(power, &text[len], max - len));
 	}
 
 	end:
-- 
2.43.0


From 3ff036c6dcac6de819b8e31f85b75920e4375eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 37/60] fix: update the root of a map when it is replaced

---
 Code/Terathon/TSMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Terathon/TSMap.cpp b/Code/Terathon/TSMap.cpp
index 8c1fcba..b424f3a 100644
--- a/Code/Terathon/TSMap.cpp
+++ b/Code/Terathon/TSMap.cpp
@@ -571,6 +571,10 @@ void MapBase::ReplaceMapElement(MapElementBase *element, MapElementBase *replace
 			super->rightSubnode = replacement;
 		}
 	}
+	else
+	{
+		rootElement = replacement;
+	}
 
 	replacement->superNode = super;
 	replacement->balance = element->balance;
-- 
2.43.0


From c3717246bb559b4d019ce4722c9a8a818d0d5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:21 +0000
Subject: [PATCH 38/60] fix: free the storage of an array whose few elements
 are moved to inline storage

---
 Code/Terathon/TSArray.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index f9080c5..cac42c5 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -419,6 +419,12 @@ namespace Terathon
 				new(&arrayPointer[a]) type(static_cast<type&&>(pointer[a]));
 				pointer[a].~type();
 			}
+
+			char *ptr = reinterpret_cast<char *>(pointer);
+			if (ptr != array.arrayStorage)
+			{
+				delete[] ptr;
+			}
 		}
 
 		array.elementCount = 0;
-- 
2.43.0


From 927da002bcbc60c024c80fd3c375fc6014a1175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 39/60] fix: keep an array intact when memory runs out while it
 grows

---
 Code/Terathon/TSArray.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index cac42c5..51363db 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -483,8 +483,9 @@ namespace Terathon
 	template <typename type, int32 baseCount>
 	void Array<type, baseCount>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
+		reservedCount = newCount;
 
 		type *pointer = arrayPointer;
 		for (machine a = 0; a < elementCount; a++)
@@ -793,8 +794,9 @@ namespace Terathon
 	template <typename type>
 	void Array<type, 0>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
+		reservedCount = newCount;
 
 		type *pointer = arrayPointer;
 		if (pointer)
-- 
2.43.0


From e34779cef1f930c0ec1dbf42aef0a6b2b1b54ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:08 +0000
Subject: [PATCH 40/60] fix: free the storage of an array copy when one of its
 elements cannot be copied

---
 Code/Terathon/TSArray.h | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 51363db..335d718 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -377,24 +377,19 @@ namespace Terathon
 	}
 
 	template <typename type, int32 baseCount>
-	Array<type, baseCount>::Array(const Array& array)
+	Array<type, baseCount>::Array(const Array& array) : Array()
 	{
-		elementCount = array.elementCount;
-
-		if (elementCount > baseCount)
+		if (array.elementCount > baseCount)
 		{
+			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * array.reservedCount]);
 			reservedCount = array.reservedCount;
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-		}
-		else
-		{
-			reservedCount = baseCount;
-			arrayPointer = reinterpret_cast<type *>(arrayStorage);
 		}
 
-		for (machine a = 0; a < elementCount; a++)
+		// If an element cannot be copied, then the destructor cleans up what is counted.
+		for (machine a = 0; a < array.elementCount; a++)
 		{
 			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			elementCount++;
 		}
 	}
 
@@ -720,22 +715,13 @@ namespace Terathon
 	}
 
 	template <typename type>
-	Array<type, 0>::Array(const Array& array)
+	Array<type, 0>::Array(const Array& array) : Array(array.reservedCount)
 	{
-		elementCount = array.elementCount;
-		reservedCount = array.reservedCount;
-
-		if (reservedCount > 0)
+		// If an element cannot be copied, then the destructor cleans up what is counted.
+		for (machine a = 0; a < array.elementCount; a++)
 		{
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-			for (machine a = 0; a < elementCount; a++)
-			{
-				new(&arrayPointer[a]) type(array.arrayPointer[a]);
-			}
-		}
-		else
-		{
-			arrayPointer = nullptr;
+			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			elementCount++;
 		}
 	}
 
-- 
2.43.0


From adf05b17db1004e399699eadd5ce325ac2aee728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 41/60] fix: do not cut off the line and column in the text of
 a parse result

---
 Code/Json4C4/C4Json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index f513020..f33fa01 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -2025,7 +2025,10 @@ namespace C4
 
             if ( parseResult.errorLine != 0 && parseResult.status != Status::kException )
             {
-                string += String<24>( ". Line: " ) + String<24>( parseResult.errorLine ) + String<24>( ", column: " ) + String<24>( parseResult.errorColumn );
+                string += ". Line: ";
+                string += parseResult.errorLine;
+                string += ", column: ";
+                string += parseResult.errorColumn;
             }
 
             return string;
-- 
2.43.0


From dfc1213def35e7469ef5d6a95d0a63abc3ac336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 42/60] fix: free the element of an array or map whose user
 function throws

---
 Code/Json4C4/C4Json.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 8bd313d..1bb2b9f 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -999,6 +999,8 @@ namespace C4
                             return status;
                         }
 
+                        valueData->AppendArrayElement( value );
+
                         if constexpr ( Detail::HasSerializeMember<T>::Value )
                         {
                             status = element.Serialize( value );
@@ -1010,11 +1012,8 @@ namespace C4
 
                         if ( status != Status::kOk )
                         {
-                            delete value;
                             return status;
                         }
-
-                        valueData->AppendArrayElement( value );
                     }
 
                     return Status::kOk;
@@ -1099,14 +1098,18 @@ namespace C4
                             }
                         }
 
-                        if constexpr ( Detail::HasDeserializeMember<T>::Value )
-                        {
-                            status = dataMapElement->data.Deserialize( objectValueMapElement );
-                        }
-                        else
-                        {
-                            status = Deserialize( objectValueMapElement, dataMapElement->data );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                if constexpr ( Detail::HasDeserializeMember<T>::Value )
+                                {
+                                    return dataMapElement->data.Deserialize( objectValueMapElement );
+                                }
+                                else
+                                {
+                                    return Deserialize( objectValueMapElement, dataMapElement->data );
+                                }
+                            } );
 
                         if ( status != Status::kOk )
                         {
-- 
2.43.0


From 256f0e32436f2925ce0ddc2af405a201182a7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:56 +0000
Subject: [PATCH 43/60] fix: convert unsigned integers of the upper half of
 their range to text

---
 Code/Terathon/TSString.cpp | 10 +++++-----
 Code/Terathon/TSString.h   |  8 ++++----
 Code/Terathon/TSText.cpp   | 30 ++++++++++++++++++++++++++++++
 Code/Terathon/TSText.h     |  1 +
 4 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index ff2a200..064e2c7 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -197,7 +197,7 @@ String<0>::String(uint32 n)
 {
 	physicalSize = kStringLocalSize;
 	stringPointer = localString;
-	logicalSize = Text::IntegerToString(n, localString, kStringLocalSize - 1) + 1;
+	logicalSize = Text::Integer64ToString(n, localString, kStringLocalSize - 1) + 1;
 }
 
 String<0>::String(int64 n)
@@ -265,7 +265,7 @@ String<0>::String(uint32 n, const char *s1)
 	physicalSize = GetPhysicalSize(size);
 	stringPointer = new char[physicalSize];
 	Text::CopyText(s1, stringPointer);
-	logicalSize = len1 + Text::IntegerToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
+	logicalSize = len1 + Text::Integer64ToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
 }
 
 String<0>::String(int64 n, const char *s1)
@@ -441,7 +441,7 @@ String<0>& String<0>::operator =(int32 n)
 String<0>& String<0>::operator =(uint32 n)
 {
 	Resize(kStringAllocSize);
-	logicalSize = Text::IntegerToString(n, stringPointer, kStringAllocSize - 1) + 1;
+	logicalSize = Text::Integer64ToString(n, stringPointer, kStringAllocSize - 1) + 1;
 	return (*this);
 }
 
@@ -578,7 +578,7 @@ String<0>& String<0>::operator +=(uint32 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::IntegerToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
@@ -620,7 +620,7 @@ String<0>& String<0>::operator +=(uint64 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::UnsignedInteger64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 2038171..2553dcf 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -191,7 +191,7 @@ namespace Terathon
 
 			explicit String(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::Integer64ToString(n, c, len);
 			}
 
 			explicit String(int64 n)
@@ -249,7 +249,7 @@ namespace Terathon
 
 			String& operator =(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::Integer64ToString(n, c, len);
 				return (*this);
 			}
 
@@ -294,7 +294,7 @@ namespace Terathon
 			String& operator +=(uint32 n)
 			{
 				int32 l = GetStringLength();
-				Text::IntegerToString(n, &c[l], len - l);
+				Text::Integer64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
@@ -308,7 +308,7 @@ namespace Terathon
 			String& operator +=(uint64 n)
 			{
 				int32 l = GetStringLength();
-				Text::Integer64ToString(n, &c[l], len - l);
+				Text::UnsignedInteger64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index a8f119f..9a2f314 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1255,6 +1255,36 @@ int32 Text::Integer64ToString(int64 num, char *text, int32 max)
 	return (int32(a));
 }
 
+int32 Text::UnsignedInteger64ToString(uint64 num, char *text, int32 max)
+{
+	char	c[32];
+
+	machine length = 0;
+	do
+	{
+		int32 p = num % 10;
+		c[length++] = char(p + 48);
+		num /= 10;
+	} while (num != 0);
+
+	machine a = -1;
+	do
+	{
+		if (++a < max)
+		{
+			text[a] = c[--length];
+		}
+		else
+		{
+			text[a] = 0;
+			return (int32(a));
+		}
+	} while (length != 0);
+
+	text[++a] = 0;
+	return (int32(a));
+}
+
 int32 Text::FloatToString(float num, char *text, int32 max)
 {
 	if (max < 1)
diff --git a/Code/Terathon/TSText.h b/Code/Terathon/TSText.h
index d29392f..b749b2c 100644
--- a/Code/Terathon/TSText.h
+++ b/Code/Terathon/TSText.h
@@ -351,6 +351,7 @@ namespace Terathon
 
 		TERATHON_API int32 IntegerToString(int32 num, char *text, int32 max);
 		TERATHON_API int32 Integer64ToString(int64 num, char *text, int32 max);
+		TERATHON_API int32 UnsignedInteger64ToString(uint64 num, char *text, int32 max);
 		TERATHON_API int32 FloatToString(float num, char *text, int32 max);
 
 		TERATHON_API int32 GetResourceNameLength(const char *text);
-- 
2.43.0


From 6cabe11511f63850245557eafb20f767bd3059b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:42 +0000
Subject: [PATCH 44/60] fix: convert the smallest floats to text without
 overflowing

The power of ten that a float below about 1.0e-37 is divided by underflowed
to zero, and the fraction bits were shifted in a signed integer.
---
 Code/Terathon/TSText.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 9a2f314..a4c8e8f 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1351,7 +1351,8 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if ((absolute < 1.0e-4F) || (!(absolute < 1.0e5F)))
 	{
 		float f = Floor(Log(absolute) * Math::one_over_ln_10);
-		absolute /= Exp(f * Math::ln_10);
+		float scale = Exp(f * (Math::ln_10 * 0.5F));
+		absolute = absolute / scale / scale;
 		power = int32(f);
 
 		binary = *reinterpret_cast<int32 *>(&absolute);
@@ -1372,7 +1373,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if (exponent >= 0)
 	{
 		int32 whole = mantissa >> (23 - exponent);
-		mantissa = (mantissa << exponent) & 0x007FFFFF;
+		mantissa = int32((uint32(mantissa) << exponent) & 0x007FFFFF);
 
 		len += IntegerToString(whole, &text[len], max - len);
 		if (len < max)
-- 
2.43.0


From 84b06c88227115d51079f42ad0decc65faea62a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:42 +0000
Subject: [PATCH 45/60] fix: ignore the case of the first character in a
 caseless text search

---
 Code/Terathon/TSText.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index a4c8e8f..6ec5590 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1113,16 +1113,25 @@ int32 Text::FindText(const char *s1, const char *s2)
 int32 Text::FindTextCaseless(const char *s1, const char *s2)
 {
 	const char *start = s1;
-	int32 first = *reinterpret_cast<const uint8 *>(s2);
+	uint32 first = *reinterpret_cast<const uint8 *>(s2);
+	if (first - 'a' < 26U)
+	{
+		first -= 32;
+	}
 
 	for (;;)
 	{
-		int32 c = *reinterpret_cast<const uint8 *>(s1++);
+		uint32 c = *reinterpret_cast<const uint8 *>(s1++);
 		if (c == 0)
 		{
 			break;
 		}
 
+		if (c - 'a' < 26U)
+		{
+			c -= 32;
+		}
+
 		if (c == first)
 		{
 			const uint8 *s3 = reinterpret_cast<const uint8 *>(s1);
-- 
2.43.0


From e31f8a9723821a066dfe639cf212bee0edbb7c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:42 +0000
Subject: [PATCH 46/60] fix: read the negative exponent of a float

---
 Code/Terathon/TSText.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 6ec5590..d5a4e9c 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1597,9 +1597,12 @@ int32 Text::ReadFloat(const char *text, char *number, int32 max)
 		}
 		else
 		{
-			if ((c == '-') && (expneg))
+			if (c == '-')
 			{
-				break;
+				if (expneg)
+				{
+					break;
+				}
 			}
 			else if (c - '0' >= 10U)
 			{
-- 
2.43.0


From c51dd760d72113e0c69131d7160a1bd3d2b24ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:42 +0000
Subject: [PATCH 47/60] fix: order numbered texts with leading zeros
 consistently

Of two texts such as 01a and 1b, each compared as less than the other.
---
 Code/Terathon/TSText.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index d5a4e9c..d3bb163 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -982,9 +982,9 @@ bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
 			{
 				return (xnum < ynum);
 			}
-			else if (xcount < ycount)
+			else if (xcount != ycount)
 			{
-				return (true);
+				return (xcount < ycount);
 			}
 		}
 		else
@@ -1042,9 +1042,9 @@ bool Text::CompareNumberedTextLessThanCaseless(const char *s1, const char *s2)
 			{
 				return (xnum < ynum);
 			}
-			else if (xcount < ycount)
+			else if (xcount != ycount)
 			{
-				return (true);
+				return (xcount < ycount);
 			}
 		}
 		else
-- 
2.43.0


From 51ee35783a142cbd4441169b128fae800d4eba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:42 +0000
Subject: [PATCH 48/60] fix: do not write half of a surrogate pair beyond the
 limit of a wide text

---
 Code/Terathon/TSText.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index d3bb163..121b885 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -463,6 +463,11 @@ void Text::ConvertStringToWideText(const char *string, uint16 *wideText, int32 m
 		}
 		else
 		{
+			if (max < 2)
+			{
+				break;
+			}
+
 			code -= 0x010000U;
 			wideText[0] = uint16((code >> 10) + 0xD800U);
 			wideText[1] = uint16((code & 0x03FF) + 0xDC00U);
-- 
2.43.0


From a5219a6fc493ea172e8b3675b85a0ba73ce81534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:05 +0000
Subject: [PATCH 49/60] fix: stop counting Unicode characters at the end of the
 text

A multi-byte sequence cut off by the terminator was stepped over as a whole,
and counting went on behind the text.
---
 Code/Terathon/TSText.cpp | 45 ++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 121b885..61e33b7 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -192,22 +192,13 @@ int32 Text::GetUnicodeCharCount(const char *text)
 			break;
 		}
 
-		if ((c < 0xC0U) || (c >= 0xF8U))
+		// Do not step over the terminator inside an incomplete sequence.
+
+		int32 size = GetNextUnicodeCharByteCount(text, 4);
+		do
 		{
 			text++;
-		}
-		else if (c < 0xE0U)
-		{
-			text += 2;
-		}
-		else if (c < 0xF0U)
-		{
-			text += 3;
-		}
-		else
-		{
-			text += 4;
-		}
+		} while ((--size > 0) && (*text != 0));
 	}
 
 	return (count);
@@ -225,22 +216,13 @@ int32 Text::GetUnicodeCharCount(const char *text, int32 max)
 			break;
 		}
 
-		if ((c < 0xC0U) || (c >= 0xF8U))
+		// Do not step over the terminator inside an incomplete sequence.
+
+		int32 size = GetNextUnicodeCharByteCount(text, int32(end - text));
+		do
 		{
 			text++;
-		}
-		else if (c < 0xE0U)
-		{
-			text += 2;
-		}
-		else if (c < 0xF0U)
-		{
-			text += 3;
-		}
-		else
-		{
-			text += 4;
-		}
+		} while ((--size > 0) && (*text != 0));
 	}
 
 	return (count);
@@ -322,7 +304,12 @@ int32 Text::GetUnicodeCharStringByteCount(const char *text, int32 charCount)
 			}
 		}
 
-		count += size;
+		// Do not step over the terminator inside an incomplete sequence.
+
+		do
+		{
+			count++;
+		} while ((--size > 0) && (text[count] != 0));
 	}
 
 	return (count);
-- 
2.43.0


From 9935ef99e91c30fcf17c15500683380d6ce26f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:30 +0000
Subject: [PATCH 50/60] fix: never find a quote with FindUnquotedChar

The documentation says that the quotes themselves are ignored, but a closing
quote was found.
---
 Code/Terathon/TSText.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 61e33b7..f06ab37 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -566,8 +566,7 @@ int32 Text::FindUnquotedChar(const char *text, uint32 k)
 				quote = false;
 			}
 		}
-
-		if ((c == k) && (!quote))
+		else if ((c == k) && (!quote))
 		{
 			return (int32(text - start));
 		}
-- 
2.43.0


From 43acb45c2bece127670cd9f552b4ede198ebee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:08 +0000
Subject: [PATCH 51/60] fix: write numbers beyond the range of floats without
 system services

---
 Code/Json4C4/C4Json.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index f33fa01..a559f64 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1347,7 +1347,29 @@ namespace C4
 
 #else
 
-                file << Text::FloatToString( data );
+                double absolute = ( data < 0.0 ) ? -data : data;
+                int32  exponent = 0;
+
+                // FloatToString() covers the range of normalized floats only
+                if ( absolute > 1.0e38 || ( absolute < 1.0e-37 && absolute != 0.0 ) )
+                {
+                    for ( ; absolute >= 1.0e4; absolute *= 1.0e-4 )
+                    {
+                        exponent += 4;
+                    }
+
+                    for ( ; absolute < 1.0; absolute *= 1.0e4 )
+                    {
+                        exponent -= 4;
+                    }
+                }
+
+                file << Text::FloatToString( float( ( data < 0.0 ) ? -absolute : absolute ) );
+
+                if ( exponent != 0 )
+                {
+                    file << "e" << Text::IntegerToString( exponent );
+                }
 
 #endif
 
-- 
2.43.0


From efbf7a6077bf2a64de72378f1b68ad38b6f14d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 52/60] fix: give the sign of the most negative integer

---
 Code/Terathon/TSBasic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSBasic.h b/Code/Terathon/TSBasic.h
index 0dc8e42..bb5bfcb 100644
--- a/Code/Terathon/TSBasic.h
+++ b/Code/Terathon/TSBasic.h
@@ -42,12 +42,12 @@ namespace Terathon
 
 	inline int32 Sgn(int32 x)
 	{
-		return ((x >> 31) - (-x >> 31));
+		return ((x > 0) - (x < 0));
 	}
 
 	inline int64 Sgn64(int64 x)
 	{
-		return ((x >> 63) - (-x >> 63));
+		return ((x > 0) - (x < 0));
 	}
 
 
-- 
2.43.0


From 15abc20bee7c85b5fe0616bdf069ed95b8aad8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 53/60] fix: exchange a value with itself

---
 Code/Terathon/TSBasic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSBasic.h b/Code/Terathon/TSBasic.h
index bb5bfcb..5861cc0 100644
--- a/Code/Terathon/TSBasic.h
+++ b/Code/Terathon/TSBasic.h
@@ -115,9 +115,9 @@ namespace Terathon
 	template <typename type>
 	inline void Exchange(type& x, type& y)
 	{
-		x ^= y;
-		y ^= x;
-		x ^= y;
+		type t = x;
+		x = y;
+		y = t;
 	}
 
 	template <>
-- 
2.43.0


From c4d02c9e7a948859ac290fb6a274049126c6acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 54/60] fix: use the sine polynomial's coefficients in their
 order with SIMD

---
 Code/Terathon/TSMath.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index 5f6159a..7c0871b 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -234,7 +234,7 @@ float Terathon::Sin(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		vec_float sine = VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta));
@@ -275,7 +275,7 @@ float Terathon::Cos(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		VecStoreX(VecSubScalar(VecMulScalar(cosine_alpha, cosine_beta), VecMulScalar(sine_alpha, sine_beta)), &result);
@@ -313,7 +313,7 @@ float Terathon::Tan(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		VecStoreX(VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta)), &sine);
@@ -356,7 +356,7 @@ void Terathon::CosSin(float x, float *c, float *s)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		vec_float sine = VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta));
-- 
2.43.0


From b800f6e81225324dcfdefa79b191627f7ea8561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 55/60] fix: return a quarter turn as the arccosine of minus
 zero

---
 Code/Terathon/TSMath.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index 7c0871b..bd5e32d 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -391,6 +391,11 @@ float Terathon::Arcsin(float y)
 
 float Terathon::Arccos(float x)
 {
+	if (x == 0.0F)
+	{
+		return (Math::tau_over_4);
+	}
+
 	float r = Arctan(Sqrt(1.0F - x * x) / x);
 	return ((x < 0.0F) ? r + Math::tau_over_2 : r);
 }
-- 
2.43.0


From 0b0babd48b0198066eb506e56da6b7dfc63e6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 56/60] fix: return infinity as the exponential of large
 numbers

---
 Code/Terathon/TSMath.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index bd5e32d..b12634a 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -513,9 +513,14 @@ float Terathon::Exp(float x)
 	};
 
 	float f = Floor(x);
-	int32 i = int32(f) + 88;
-	if (i > 0)
+	if (f > 88.0F)
+	{
+		return (Math::infinity);
+	}
+
+	if (f > -88.0F)
 	{
+		int32 i = int32(f) + 88;
 		x -= f;
 
 		float r = 1.0F / 362880.0F;
@@ -527,7 +532,7 @@ float Terathon::Exp(float x)
 		r = r * x + 1.0F / 6.0F;
 		r = r * x + 0.5F;
 
-		return ((r * (x * x) + (x + 1.0F)) * reinterpret_cast<const float *>(table)[(i < 179) ? i : 179]);
+		return ((r * (x * x) + (x + 1.0F)) * reinterpret_cast<const float *>(table)[i]);
 	}
 
 	return (0.0F);
-- 
2.43.0


From a6e40d48ab7373addd997c56ca97ecdb46d9e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:13 +0000
Subject: [PATCH 57/60] fix: find the floor and ceiling of large numbers
 together

---
 Code/Terathon/TSSimd.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Code/Terathon/TSSimd.h b/Code/Terathon/TSSimd.h
index 059eaa7..eed1dd3 100644
--- a/Code/Terathon/TSSimd.h
+++ b/Code/Terathon/TSSimd.h
@@ -1529,6 +1529,9 @@ namespace Terathon
 				const vec_float two23 = VecLoadVectorConstant<0x4B000000>();
 
 				vec_float result = _mm_sub_ps(_mm_add_ps(_mm_add_ps(_mm_sub_ps(v, two23), two23), two23), two23);
+
+				vec_float mask = _mm_cmplt_ps(two23, _mm_andnot_ps(VecFloatGetMinusZero(), v));
+				result = _mm_or_ps(_mm_andnot_ps(mask, result), _mm_and_ps(mask, v));
 				*f = _mm_sub_ps(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
 				*c = _mm_add_ps(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
 
@@ -1540,6 +1543,9 @@ namespace Terathon
 			const vec_float two23 = vdupq_n_f32(8388608.0F);
 
 			vec_float result = vsubq_f32(vaddq_f32(vaddq_f32(vsubq_f32(v, two23), two23), two23), two23);
+
+			vec_uint32 mask = vcltq_f32(two23, vabsq_f32(v));
+			result = vbslq_f32(mask, v, result);
 			*f = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
 			*c = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
 
@@ -1561,6 +1567,9 @@ namespace Terathon
 				const vec_float two23 = VecLoadVectorConstant<0x4B000000>();
 
 				vec_float result = _mm_sub_ss(_mm_add_ss(_mm_add_ss(_mm_sub_ss(v, two23), two23), two23), two23);
+
+				vec_float mask = _mm_cmplt_ps(two23, _mm_andnot_ps(VecFloatGetMinusZero(), v));
+				result = _mm_or_ps(_mm_andnot_ps(mask, result), _mm_and_ps(mask, v));
 				*f = _mm_sub_ss(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
 				*c = _mm_add_ss(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
 
@@ -1572,6 +1581,9 @@ namespace Terathon
 			const vec_float two23 = vdupq_n_f32(8388608.0F);
 
 			vec_float result = vsubq_f32(vaddq_f32(vaddq_f32(vsubq_f32(v, two23), two23), two23), two23);
+
+			vec_uint32 mask = vcltq_f32(two23, vabsq_f32(v));
+			result = vbslq_f32(mask, v, result);
 			*f = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
 			*c = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
 
-- 
2.43.0


From b07ffa55fcf8d74dc1537501d63924a5fdecf3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:26 +0000
Subject: [PATCH 58/60] fix: a string keeps its capacity when memory runs out
 while appending

---
 Code/Terathon/TSString.cpp | 40 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 064e2c7..d8f492f 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -467,8 +467,9 @@ String<0>& String<0>::operator +=(const String<>& s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newPhysicalSize];
+			physicalSize = newPhysicalSize;
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -494,8 +495,9 @@ String<0>& String<0>::operator +=(const char *s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newPhysicalSize];
+			physicalSize = newPhysicalSize;
 			Text::CopyText(stringPointer, newPointer);
 			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
@@ -522,8 +524,9 @@ String<0>& String<0>::operator +=(char k)
 	int32 size = logicalSize + 1;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newPhysicalSize];
+		physicalSize = newPhysicalSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -545,8 +548,9 @@ String<0>& String<0>::operator +=(int32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newPhysicalSize];
+		physicalSize = newPhysicalSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -566,8 +570,9 @@ String<0>& String<0>::operator +=(uint32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newPhysicalSize];
+		physicalSize = newPhysicalSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -587,8 +592,9 @@ String<0>& String<0>::operator +=(int64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newPhysicalSize];
+		physicalSize = newPhysicalSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -608,8 +614,9 @@ String<0>& String<0>::operator +=(uint64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newPhysicalSize];
+		physicalSize = newPhysicalSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -689,8 +696,9 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newPhysicalSize];
+			physicalSize = newPhysicalSize;
 			Text::CopyText(stringPointer, newPointer);
 			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
-- 
2.43.0


From 41dbb0a97c938182d8ec810da9b500c69a8e588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 59/60] fix: array elements are safe when inserting the array's
 own element or when a constructor throws

---
 Code/Terathon/TSArray.h | 54 ++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 335d718..06401ec 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -522,6 +522,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -541,7 +542,11 @@ namespace Terathon
 	{
 		if (count > reservedCount)
 		{
+			// The initial value may be an element of this array.
+			const type temp(init);
 			SetReservedCount(count);
+			SetArrayElementCount(count, temp);
+			return;
 		}
 
 		if (count > elementCount)
@@ -550,6 +555,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type(init);
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -585,20 +591,26 @@ namespace Terathon
 	{
 		if (elementCount >= reservedCount)
 		{
+			// The new element may refer to an element of this array.
+			type temp(static_cast<T&&>(element));
 			SetReservedCount(elementCount + 1);
+			new(arrayPointer + elementCount) type(static_cast<type&&>(temp));
+		}
+		else
+		{
+			new(arrayPointer + elementCount) type(static_cast<T&&>(element));
 		}
 
-		type *pointer = arrayPointer + elementCount;
-		new(pointer) type(static_cast<T&&>(element));
-
-		elementCount++;
-		return (pointer);
+		return (&arrayPointer[elementCount++]);
 	}
 
 	template <typename type, int32 baseCount>
 	template <typename T>
 	void Array<type, baseCount>::InsertArrayElement(int32 index, T&& element)
 	{
+		// The new element may refer to an element of this array.
+		type temp(static_cast<T&&>(element));
+
 		if (index >= elementCount)
 		{
 			int32 count = index + 1;
@@ -611,9 +623,10 @@ namespace Terathon
 			for (machine a = elementCount; a < index; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (++pointer) type(static_cast<type&&>(temp));
 			elementCount = count;
 		}
 		else
@@ -631,7 +644,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(temp));
 			elementCount = count;
 		}
 	}
@@ -823,6 +836,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -842,7 +856,11 @@ namespace Terathon
 	{
 		if (count > reservedCount)
 		{
+			// The initial value may be an element of this array.
+			const type temp(init);
 			SetReservedCount(count);
+			SetArrayElementCount(count, temp);
+			return;
 		}
 
 		if (count > elementCount)
@@ -851,6 +869,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type(init);
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -886,20 +905,26 @@ namespace Terathon
 	{
 		if (elementCount >= reservedCount)
 		{
+			// The new element may refer to an element of this array.
+			type temp(static_cast<T&&>(element));
 			SetReservedCount(elementCount + 1);
+			new(arrayPointer + elementCount) type(static_cast<type&&>(temp));
+		}
+		else
+		{
+			new(arrayPointer + elementCount) type(static_cast<T&&>(element));
 		}
 
-		type *pointer = arrayPointer + elementCount;
-		new(pointer) type(static_cast<T&&>(element));
-
-		elementCount++;
-		return (pointer);
+		return (&arrayPointer[elementCount++]);
 	}
 
 	template <typename type>
 	template <typename T>
 	void Array<type, 0>::InsertArrayElement(int32 index, T&& element)
 	{
+		// The new element may refer to an element of this array.
+		type temp(static_cast<T&&>(element));
+
 		if (index >= elementCount)
 		{
 			int32 count = index + 1;
@@ -912,9 +937,10 @@ namespace Terathon
 			for (machine a = elementCount; a < index; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (++pointer) type(static_cast<type&&>(temp));
 			elementCount = count;
 		}
 		else
@@ -932,7 +958,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(temp));
 			elementCount = count;
 		}
 	}
-- 
2.43.0


From 1d1119d64b303addc80a138e941ca3dfd2bd71a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 60/60] fix: a document can be serialised from a part of itself

---
 Code/Json4C4/C4Json.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 1bb2b9f..15d503f 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -607,11 +607,9 @@ namespace C4
             template <class T>
             Status SerializeFrom( const T& data ) noexcept
             {
-                if ( rootJsonValue != nullptr )
-                {
-                    delete rootJsonValue;
-                    rootJsonValue = nullptr;
-                }
+                // The data may be a part of the current document
+                Value* previousJsonValue = rootJsonValue;
+                rootJsonValue            = nullptr;
 
                 Status status = MayThrow(
                     [ & ]()
@@ -622,6 +620,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete previousJsonValue;
                     return status;
                 }
 
@@ -645,6 +644,8 @@ namespace C4
                     rootJsonValue = nullptr;
                 }
 
+                delete previousJsonValue;
+
                 return status;
             }
         };
-- 
2.43.0

