#!/bin/bash
set -eu
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export here FLAGS=""
if [ -f "$here/mpi.h" ]; then FLAGS=-DNF_WITH_MPI_SUPPORT=1; fi
n=0
for f in "$here/demo.cpp" $(sed 's|^|/repo/|' "$here/sources"); do n=$((n+1)); echo "$f $tmp/$n.o"; done |
  xargs -P 8 -L 1 sh -c 'g++ -std=c++20 -O1 -w -pthread -I"$here" -I/repo/include -DNF_WITH_GINKGO=0 -DNF_WITH_PETSC=0 -DNEOFOAM_DP_SCALAR=1 $FLAGS -c "$0" -o "$1"'
g++ -pthread "$tmp"/*.o -o "$tmp/demo"
cd "$tmp"; ulimit -c 0
timeout 120 ./demo
