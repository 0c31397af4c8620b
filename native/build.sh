#!/bin/bash
# build.sh OUTDIR [flags]: compiles /repo's current library sources and the harnesses named in $HARNESSES
set -e
OUT=$1; shift
H=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
mkdir -p "$OUT/o"
export OMPI_CC=gcc OMPI_CXX=g++
INC="-I$R/_build -I$R/src -I$R/levels/c_utils -I$R/levels/libfftpack -I$R/levels/cxxsupport -I$R/levels/Healpix_cxx -I$H"
CFG=; [ -f $R/_build/config.h ] && CFG=-DHAVE_CONFIG_H
FL="$CFG -DUSE_MPI -fopenmp -w $*"
{
for d in levels/c_utils levels/libfftpack levels/cxxsupport levels/Healpix_cxx src; do
 # the library's own source lists
 l=$(python3 -c "
import re,sys
t=open('$R/$d/Makefile.am').read().replace('\\\\\n',' ')
print(' '.join(x for m in re.findall(r'^lib\w+_SOURCES\s*\+?=(.*)$',t,re.M) for x in m.split() if re.search(r'\.(c|cc|cpp)$',x)))")
 for b in $l; do f=$R/$d/$b
  case $f in *.c) cc="mpicc";; *) cc="mpicxx -std=gnu++17";; esac
  echo "$cc $FL $INC -c $f -o $OUT/o/$b.o"
 done
done
for h in $HARNESSES; do echo "mpicxx -std=gnu++17 $FL $INC -c $H/$h.cpp -o $OUT/$h.o"; done
} | xargs -P 8 -I{} bash -c "{}"
for h in $HARNESSES; do mpicxx -fopenmp $* $OUT/$h.o $OUT/o/*.o -o $OUT/$h -lcfitsio -lm & done
wait
for h in $HARNESSES; do [ -x $OUT/$h ]; done
