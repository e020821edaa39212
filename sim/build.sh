#!/bin/bash
# build.sh OUTDIR [core|sut...]: builds the simulator and the instrumented systems under test from $REPO (default /repo)
set -e
OUT=$1; shift
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
CORE="-std=c++20 -O2 -g1 -Wall -fno-threadsafe-statics -fno-omit-frame-pointer"
SUTF="-std=c++2a -w -fPIC -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector -D_GLIBCXX_ASSERTIONS -DDEFAULT_CACHELINE_SIZE=64 -I$REPO -I$REPO/include -I$REPO/containers -I$REPO/tests -I$REPO/hashing -I$HERE -include $HERE/seam.h"
WRAP=""
for s in printf fprintf puts putchar fwrite fputs fputc perror malloc calloc realloc free; do WRAP="$WRAP -Wl,--wrap=$s"; done
pobj() { # pobj OBJECT BYTES: the stand-in for libpmemobj
  g++ -std=c++20 -O2 -g1 -w -fPIC -fno-threadsafe-statics -fno-omit-frame-pointer -U_FORTIFY_SOURCE -I$REPO/include -DPOBJ_SIZE=$2 -c "$HERE/pobj.cpp" -o "$1"
}
for t in "$@"; do
  case $t in
    core)
      for f in core fs lin box gen prog driver; do g++ $CORE -c "$HERE/$f.cpp" -o "$OUT/$f.o" & done
      for j in $(jobs -p); do wait $j; done
      g++ -rdynamic -o "$OUT/psim" "$OUT"/{core,fs,lin,box,gen,prog,driver}.o -ldl -lpthread -Wl,-z,now ;;
    e2e-*)
      IFS=- read -r _ c w rel <<<"$t"
      D="-DE2E_$c -D${w}TestDef -DE2E_NAME=\"$t\""
      [ -z "$rel" ] || D="$D -DNDEBUG"
      X= O=
      case $c in pm) X="(1280*1024) -DPOBJ_LANES=40" ;; clevel) X="(16*1024*1024) -DPOBJ_RELAXED -DPOBJ_LANES=40" O=-O0 ;; esac
      [ -z "$X" ] || { pobj "$OUT/pobj_$t.o" "$X"; X="$OUT/pobj_$t.o"; }
      g++ $SUTF $O $D -c "$HERE/sut_e2e.cpp" -o "$OUT/sut_$t.o"
      g++ -shared -o "$OUT/sut_$t.so.tmp" "$OUT/sut_$t.o" $X -Wl,-z,now,-z,norelro $WRAP
      mv "$OUT/sut_$t.so.tmp" "$OUT/sut_$t.so" ;;
    *)
      X=""
      case $t in pm) X="(768*1024)" ;; chm) X="(1536*1024) -DPOBJ_LANES=16 -DPOBJ_LOG=640" ;; lock|keep) X="(512*1024)" ;; box) X="(3*1024*1024) -DPOBJ_LANES=8 -DPOBJ_LOG=2048" ;; clevel) X="(1024*1024) -DPOBJ_RELAXED" ;; clevel14) X="(16*1024*1024) -DPOBJ_RELAXED" ;; esac
      [ -z "$X" ] || { pobj "$OUT/pobj_$t.o" "$X"; X="$OUT/pobj_$t.o"; }
      # Without optimisation a shared word that the source reads twice is read twice.
      case $t in clevel*) O=-O0 ;; *) O= ;; esac
      g++ $SUTF $O $SUTEXTRA -c "$HERE/sut_$t.cpp" -o "$OUT/sut_$t.o"
      g++ -shared -o "$OUT/sut_$t.so.tmp" "$OUT/sut_$t.o" $X -Wl,-z,now,-z,norelro $WRAP
      mv "$OUT/sut_$t.so.tmp" "$OUT/sut_$t.so" ;;
  esac
done
