#!/bin/bash
# development helper: compile and run a scratch program against /repo
# usage: scratch.sh prog.cpp [args]
cd "$(dirname "$0")/.."
OB=$(ls -t build/obj/*.o | grep -v '/c[0-9][0-9]\.cpp\|/rnd' | awk -F/ '{split($NF,a,"."); k=a[1]"."a[2]; if(!(k in s)){s[k]=1; print}}')
out=/tmp/x/$(basename "$1" .cpp); mkdir -p /tmp/x
g++ -std=c++20 -O3 -fopenmp -DUSE_RANDEN -w -march=x86-64-v3 -maes -mpclmul -I/repo/include -I/repo/thirdparties/spqlios -I/repo/thirdparties/randen -Iharness "$1" $OB -o $out && shift && $out "$@"
