#!/bin/bash
# build-msolve.sh VARIANT -> builds msolve's translation units from /repo's
# working tree into /verif/build/<variant>-<hash>/ and prints that directory.
set -e
variant=$1
repo=${VERIF_REPO:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
cpu=$(grep -m1 '^flags' /proc/cpuinfo || true)
has() { case " $cpu " in *" $1 "*) return 0;; esac; return 1; }
base="-DVERSION=\"0.7.5\" -fopenmp"
scalar="-O2"
avx2="-O2 -DHAVE_AVX2 -mmmx -msse -msse2 -msse3 -mssse3 -msse4.1 -msse4.2 -mavx -mfma -mavx2"
avx512="$avx2 -DHAVE_AVX512_F -mavx512f -mavx512cd -mavx512vl -mavx512bw -mavx512dq"
ext=""
has rdrand && ext="$ext -mrdrnd"; has bmi1 && ext="$ext -mbmi"; has bmi2 && ext="$ext -mbmi2"; has adx && ext="$ext -madx"; has abm && ext="$ext -mabm"
if has avx512f && has avx512bw && has avx512dq && has avx512vl; then native="$avx512 $ext"
elif has avx2; then native="$avx2 $ext"
else native="$scalar"; fi
cc=gcc
so=0
case $variant in *.so) so=1; variant=${variant%.so}; base="$base -fPIC" ;; esac
case $variant in
  native) fl="$native" ;;
  scalar) fl="$scalar" ;;
  avx2) fl="$avx2" ;;
  avx512) fl="$avx512" ;;
  asan) fl="$native -O1 -g -fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute -fno-sanitize-recover=undefined -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer" ;;
  tsan) fl="$native -O1 -g -fsanitize=thread" ;; # instrumentation only: the hooks are those of src/sched.cpp
  *) echo "unknown variant $variant" >&2; exit 2 ;;
esac
h=$( (cd $repo && find src -name '*.[ch]' | LC_ALL=C sort | xargs sha256sum; echo "$fl $base" ) | sha256sum | cut -c1-16)
out=$here/build/$variant-$h
[ $so = 1 ] && out=$out.so
if [ ! -f $out/ok ]; then
  mkdir -p $out
  pids=()
  cc1() { $cc $base $fl $2 -I$repo/src/neogb -I$repo/src/msolve -c $repo/src/$1 -o $out/$3 -w > $out/$3.log 2>&1; }
  cc1 neogb/gb.c "" gb.o & pids+=($!)
  cc1 fglm/fglm_core.c "" fglm.o & pids+=($!)
  cc1 usolve/usolve.c "" usolve.o & pids+=($!)
  cc1 msolve/main.c "-Dmain=msolve_main" main.o & pids+=($!)
  for p in "${pids[@]}"; do wait $p || { cat $out/*.log >&2; exit 2; }; done
  [ $so = 1 ] && $cc -shared -fopenmp -Wl,-Bsymbolic-functions -Wl,--exclude-libs,ALL $out/*.o -o $out/msolve.so -lflint -lmpfr -lgmp -lm
  touch $out/ok
fi
echo $out
