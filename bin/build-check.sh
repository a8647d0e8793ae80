#!/bin/bash
# build-check.sh SOURCE VARIANT OUT : links an explorer with the given msolve build
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
if [ "$2" = none ]; then objs=""; dyn="-rdynamic -ldl"; else objs="$($here/bin/build-msolve.sh $2)/*.o"; dyn=""; fi
san=""; [ "$2" = asan ] && san="-fsanitize=address,undefined"
o=$here/build/obj; mkdir -p $o
comp() { # src obj
  if [ ! -f $2 ] || [ -n "$(find $here/src $1 -newer $2 -name '*.[hc]pp' 2>/dev/null | head -1)" ]; then g++ -O2 -std=c++17 -w -I$here/src -c $1 -o $2.$$ && mv $2.$$ $2; fi
}
comp $here/src/interpose.cpp $o/interpose.o & p=$!
fill=""
if [ "$2" = native ]; then comp $here/src/fill.cpp $o/fill.o; fill="$o/fill.o -Wl,--wrap=malloc,--wrap=realloc"; fi
omp="-fopenmp"
if [ "$2" = tsan ]; then comp $here/src/sched.cpp $o/sched.o; fill="$o/sched.o"; omp=""; fi
comp $1 $o/$(basename $1 .cpp).o
wait $p
g++ -O2 $san $omp $o/$(basename $1 .cpp).o $o/interpose.o $fill $objs $dyn -o $3 -lflint -lmpfr -lgmpxx -lgmp -lm
