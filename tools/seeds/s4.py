# C18
J = "Json4C4/C4Json.cpp"
H = "Json4C4/C4Json.h"

LOCDRIVER = r'''#!/bin/bash
# exit 0: the behaviour is right. Runs with cwd at the top of the repository.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
localedef --no-archive -c -i fr_FR -f UTF-8 "$t/fr_FR.UTF-8" >/dev/null 2>&1
[ -d "$t/fr_FR.UTF-8" ] || exit 0
g++ -std=c++17 -g -O1 -w -fsanitize=address -ICode -ICode/Json4C4 -ICode/Terathon "$here/demo.cpp" Code/Json4C4/*.cpp Code/Terathon/*.cpp -o "$t/demo" || exit 2
cd "$t" && LOCPATH="$t" timeout 120 ./demo
'''
OWNDRIVER = r'''#!/bin/bash
# exit 0: the behaviour is right. Runs with cwd at the top of the repository.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
I="-std=c++17 -g -O1 -w -ICode -ICode/Json4C4 -ICode/Terathon"
N="-DTERATHON_NO_SYSTEM -D__cdecl= -include cstddef"
for s in Code/Json4C4/*.cpp Code/Terathon/*.cpp "$here/demo.cpp"; do
  n=$N; case $s in *TSText.cpp|*TSMath.cpp) n=;; esac
  g++ $I $n -c "$s" -o "$t/$(basename "$s").o" || exit 2
done
g++ "$t"/*.o -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''

seed("c18-digit-groups", "C18", [(J, 'snprintf( output, maxDoubleDigits, "%.17g", data );', '''const char* format = "%'.17g";\n                snprintf( output, maxDoubleDigits, format, data );''')],
     r'''
#include <clocale>
int main()
{
    StructuredData d, e;
    if ( !setlocale( LC_ALL, "fr_FR.UTF-8" ) ) return 0;
    EXPECT( parse( d, "[1234567,2.5]" ).status == Status::kOk );
    EXPECT( d.Write( "a.json" ) == Status::kOk );
    EXPECT( e.Parse( "a.json" ).status == Status::kOk );
    const Array<Value*>* a = e.GetRootJsonValue() ? e.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>() : nullptr;
    EXPECT( a && a->GetArrayElementCount() == 2 );
    EXPECT( a && *( *a )[ 0 ]->GetDataAsPointerTo<double>() == 1234567 );
    return bad;
}
''', "a locale with grouped digits and a number of at least 1000", "numbers are written with group separators in some locales", driver=LOCDRIVER)

OWNDEMO = r'''
#include "C4Json.h"
#include <cstdio>
using namespace Terathon;
using namespace C4::Json;
static double num( const char* t )
{
    Array<char> a;
    for ( ; *t; t++ ) a.AppendArrayElement( *t );
    a.AppendArrayElement( 0 );
    StructuredData d;
    if ( d.Parse( a ).status != Status::kOk ) return -1;
    const double* p = d.GetRootJsonValue()->GetDataAsPointerTo<double>();
    return p ? *p : -1;
}
static bool near( double a, double b ) { double d = a / b - 1; return d < 1e-13 && d > -1e-13; }
int main()
{
    bool bad = false;
    for ( int k = 1; k < 250; k++ )
    {
        char t[ 32 ];
        snprintf( t, sizeof t, "2.5e%d", k );
        double want;
        sscanf( t, "%lf", &want );
        if ( !near( num( t ), want ) ) { printf( "%s\n", t ); bad = true; }
        snprintf( t, sizeof t, "2.5e-%d", k );
        sscanf( t, "%lf", &want );
        if ( !near( num( t ), want ) ) { printf( "%s\n", t ); bad = true; }
    }
    const char* x[] = { "0.123456789012345", "3.14159265358979", "12345.6789012345" };
    double      y[] = { 0.123456789012345, 3.14159265358979, 12345.6789012345 };
    for ( int k = 0; k < 3; k++ ) if ( !near( num( x[ k ] ), y[ k ] ) ) { printf( "%s\n", x[ k ] ); bad = true; }
    return bad;
}
'''
seed("c18-own-table", "C18", [(J, "1e-159, 1e-158, 1e-157, 1e-156,", "1e-159, 1e-158, 1e-175, 1e-156,")], OWNDEMO,
     "the build without system services and a number with the exponent -157", "one power of ten of the own number conversion is wrong", driver=OWNDRIVER)
seed("c18-no-exceptions", "C18", [(H, """            // When TERATHON_NO_SYSTEM is defined, operator new doesn't throw, so there is no much point in including try/catch
#if ( ( ( defined( __GNUC__ ) || defined( __GNUG__ ) || defined( __clang__ ) ) && defined( __cpp_exceptions ) ) || defined( _MSC_VER ) ) &&                    \\
    !defined( TERATHON_NO_SYSTEM )""", """            // When TERATHON_NO_SYSTEM is defined, operator new doesn't throw, so there is no much point in including try/catch
#if ( defined( __GNUC__ ) || defined( __GNUG__ ) || defined( __clang__ ) || defined( _MSC_VER ) ) && !defined( TERATHON_NO_SYSTEM )""")],
     r'''
int main()
{
    Array<double> a { 2 };
    a.AppendArrayElement( 1 );
    StructuredData d;
    EXPECT( d.SerializeFrom( a ) == Status::kOk );
    return bad;
}
''', "the configuration without exceptions", "the library cannot be compiled in that configuration", flags="-fno-exceptions", driver=r'''#!/bin/bash
# exit 0: the behaviour is right. Runs with cwd at the top of the repository.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -O1 -w -fsanitize=address @FLAGS@ -ICode -ICode/Json4C4 -ICode/Terathon "$here/demo.cpp" Code/Json4C4/*.cpp Code/Terathon/*.cpp -o "$t/demo" || exit 1
cd "$t" && timeout 120 ./demo
''')
