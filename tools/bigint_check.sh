#!/bin/bash
# Compares the Java overrides of BigInt and Dyadic with their TLA+ definitions.
set -e
here=$(cd "$(dirname "$0")/.." && pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
jar=/opt/veriftools/tla/tla2tools.jar
javac -cp $jar -d "$tmp/cls" "$here/java/BigIntOverrides.java"
run() { (cd "$tmp" && java -Xss256m -XX:+UseSerialGC -DTLA-Library="$here/spec" $2 -cp $jar:/opt/veriftools/tla/CommunityModules-deps.jar:"$tmp/cls" tlc2.TLC -workers 1 \
    -metadir "$tmp/m$1" -noGenerateSpecTE -config "$here/spec/BigIntCheck.cfg" "$here/spec/BigIntCheck.tla" > "$1.log" 2>&1; grep -A99 ROW "$1.log" | grep -v '^Progress\|^Finished\|^Model\|^[0-9]* states\|^The \|^ *calc\|^ *Est\|^ *val' > "$1.txt"); }
run java "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigIntOverrides"
run pure ""
cmp "$tmp/java.txt" "$tmp/pure.txt" && echo "$(grep -c ROW "$tmp/java.txt") rows agree"
