#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py (edits as old/new text, so that they
survive unrelated commits in /repo).  mkseeds.py [ID...]"""
import glob, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, flags="", driver=None):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, driver=driver))


PRELUDE = r'''
#include "C4Json.h"
#include "TSText.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <string>
#include <vector>
#include <map>
using namespace Terathon;
using namespace C4::Json;
static int bad = 0;
#define EXPECT( x ) do { if ( !( x ) ) { printf( "line %d: %s\n", __LINE__, #x ); bad = 1; } } while ( 0 )
[[maybe_unused]] static Array<char> buf( const std::string& s ) { Array<char> a; for ( char c : s ) a.AppendArrayElement( c ); a.AppendArrayElement( 0 ); return a; }
[[maybe_unused]] static ParseResult parse( StructuredData& d, const std::string& s ) { Array<char> a = buf( s ); return d.Parse( a ); }
[[maybe_unused]] static bool ok( const std::string& s ) { StructuredData d; return parse( d, s ).status == Status::kOk; }
[[maybe_unused]] static std::string slurp( const char* f ) { std::string r; if ( FILE* p = fopen( f, "rb" ) ) { int c; while ( ( c = fgetc( p ) ) != EOF ) r += char( c ); fclose( p ); } return r; }
[[maybe_unused]] static void spit( const char* f, const std::string& s ) { FILE* p = fopen( f, "wb" ); fwrite( s.data(), 1, s.size(), p ); fclose( p ); }
'''
DRIVER = r'''#!/bin/bash
# exit 0: the behaviour is right. Runs with cwd at the top of the repository.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -O1 -w -fsanitize=address @FLAGS@ -ICode -ICode/Json4C4 -ICode/Terathon "$here/demo.cpp" Code/Json4C4/*.cpp Code/Terathon/*.cpp -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''


def main():
    only = sys.argv[1:]
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        exec(compile(open(f).read(), f, "exec"), globals())
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call("git clone -q --no-hardlinks %s %s/r" % (R, w), shell=True)
        for s in SEEDS:
            if only and s["id"] not in only:
                continue
            subprocess.check_call("git -C %s/r checkout -q -- ." % w, shell=True)
            for fn, old, new in s["edits"]:
                p = "%s/r/Code/%s" % (w, fn)
                t = open(p, newline="").read()
                crlf = "\r\n" in t
                if crlf:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                n = t.count(old)
                if n != 1:
                    print("%s: %s: %d matches of %r" % (s["id"], fn, n, old[:80]))
                    break
                open(p, "w", newline="").write(t.replace(old, new))
            else:
                d = "%s/seeded/%s" % (V, s["id"])
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                diff = subprocess.check_output("git -C %s/r diff" % w, shell=True)
                open(d + "/patch.diff", "wb").write(diff)
                open(d + "/demo.cpp", "w").write((PRELUDE if "C4Json.h" not in s["demo"] else "") + s["demo"].lstrip("\n"))
                open(d + "/demo.sh", "w").write((s["driver"] or DRIVER).replace("@FLAGS@", s["flags"]))
                json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
                print("wrote", s["id"])
    finally:
        shutil.rmtree(w)


main()
