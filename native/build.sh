#!/bin/bash
# usage: build.sh driver.cpp out [flags]   native driver against /repo's current sources
set -e
V=$(dirname "$(readlink -f "$0")"); R=${VERIF_REPO:-/repo}
src=$1; out=$2; shift 2
mkdir -p $out.o
for f in $R/lib/chacha8.c $R/lib/FSE/lib/{entropy_common,fse_compress,fse_decompress,hist,debug}.c; do
  [ -f $f ] && gcc -O2 -w -I$R/include -I$R/lib/FSE/lib -c $f -o $out.o/$(basename $f).o &
done
g++ -std=c++17 -O1 -w -fno-access-control "$@" -I$V -I$R/include -I$R/lib -I$R/lib/FSE/lib -c $src -o $out.o/main.o &
g++ -std=c++17 -O2 -w -I$R/include -c $R/src/settings.cpp -o $out.o/settings.o &
for j in $(jobs -p); do wait $j; done
g++ $out.o/*.o -lpthread -ldl -o $out
rm -rf "$out.o"
