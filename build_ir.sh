#!/bin/bash
# usage: build_ir.sh in.cpp out.ll [flags...] [+extra.c ...]
# Extracts the verified text from the current sources: clang -> LLVM IR (no optimisation), then sroa/simplifycfg.
# "+file.c" arguments are C sources of /repo linked into the same module.
set -e
in=$1; out=$2; shift 2
V=$(dirname "$(readlink -f "$0")"); R=${VERIF_REPO:-/repo}; L=/usr/lib/llvm-18/bin
fl=(); cs=()
for a in "$@"; do case $a in +*) cs+=("${a#+}");; *) fl+=("$a");; esac; done
C="-O0 -Xclang -disable-O0-optnone -fno-discard-value-names -w -S -emit-llvm"
$L/clang++ -std=c++17 $C -fno-access-control -I$V/harness -I$V/specstl "${fl[@]}" -I$R/include -I$R/lib -I$R/lib/FSE/lib -o $out.0 $in
if [ ${#cs[@]} -gt 0 ]; then
  n=0; m=($out.0)
  for c in "${cs[@]}"; do n=$((n+1)); $L/clang -std=gnu99 $C -I$R/include -I$R/lib -I$R/lib/FSE/lib -o $out.c$n $c; m+=($out.c$n); done
  $L/llvm-link -S -o $out.1 "${m[@]}"; rm -f "${m[@]}"; mv $out.1 $out.0
fi
$L/opt -S -passes='sroa,simplifycfg' $out.0 -o $out
rm -f $out.0
