#!/bin/bash
# build.sh [sut|all] [variants...]: (re)builds the SUT shared objects from /repo's working tree and the harness.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${SCACHE_REPO:-/repo}"
B="${VERIF_BUILD:-$V/build}"
mkdir -p "$B/obj" "$B/replays"
cd "$B"
# --- list of renamed symbols = every sim_X defined by the shim, minus nothing
"$V/engine/symlist.sh" > redef.txt.new
cmp -s redef.txt.new redef.txt || mv redef.txt.new redef.txt
rm -f redef.txt.new
COMMON="-std=c++11 -include $V/engine/sutpre.h -O1 -g -fPIC -w -fno-builtin-malloc -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector -DNDEBUG -DRELEASE -I$REPO/src/core"
SRCS=$(ls "$REPO"/src/core/*.cpp "$REPO"/src/server/*.cpp)
# fingerprint of everything a SUT build depends on
FP=$( (cat $(find "$REPO/src" -name '*.cpp' -o -name '*.h' -o -name '*.c' | sort) "$V/engine/build.sh" "$V/engine/probe.cpp" "$V/engine/sutpre.h" redef.txt; find "$REPO/src" -name '*.cpp' -o -name '*.h' | sort) | sha256sum | cut -c1-32)
one() { # variant flags...
  local v=$1; shift
  if [ -f "sut_$v.so" ] && [ "$(cat "sut_$v.fp" 2>/dev/null)" = "$FP" ]; then return 0; fi
  local d="obj/$v"; rm -rf "$B/$d"; mkdir -p "$d"; local san="-fsanitize=address --param asan-use-after-return=0"; [[ $v == tsan* ]] && san=""
  local pids=() f o
  for f in $SRCS; do
    o="$d/$(basename "$f" .cpp).o"; local s="$san"
    if [[ $v == tsan* ]]; then case $(basename "$f") in connection.cpp) s="-fsanitize=thread";; esac; fi
    g++ $COMMON $s "$@" -c "$f" -o "$o" & pids+=($!)
  done
  local p; for p in "${pids[@]}"; do wait "$p" || { echo "build: scache does not compile (variant $v)" >&2; return 1; }; done
  local extra=""
  if [[ $v == b256 || $v == std ]]; then g++ $COMMON $san "$@" -c "$V/engine/probe.cpp" -o "$d/probe.o" 2>"$d/probe.err" && extra="$d/probe.o" || echo "build: buffer probe not built (interface changed)" >&2; fi
  for o in "$d"/*.o; do objcopy --redefine-syms=redef.txt "$o"; done
  local lf="-fsanitize=address"; [[ $v == tsan* ]] && lf=""
  g++ -shared $lf -Wl,-Bsymbolic -Wl,-z,now -Wl,--build-id=none -o "sut_$v.so.tmp" $(ls "$d"/*.o)
  mv "sut_$v.so.tmp" "sut_$v.so"; echo "$FP" > "sut_$v.fp"
}
variant() { case $1 in
  std) one std;;
  b256) one b256 -DBUFFER_SIZE=256;;
  lru1) one lru1 -DDB_LRU_EVERY=1;;
  lru3) one lru3 -DDB_LRU_EVERY=3;;
  tsan) one tsan;;
esac; }
harness() {
  local f o deps="$V/engine/conc.h $V/engine/sim.h $V/engine/mc.h $V/engine/client.h" pids=() p
  for f in "$V"/engine/{sim,shim,mc}.cpp "$V"/engine/d_*.cpp; do
    [ -f "$f" ] || continue
    o="obj/$(basename "$f" .cpp).h.o"
    local fp; fp=$(cat "$f" $deps 2>/dev/null | sha256sum | cut -c1-32)
    if [ -f "$o" ] && [ "$(cat "$o.fp" 2>/dev/null)" = "$fp" ]; then continue; fi
    (g++ -std=c++17 -O2 -g -fno-stack-protector -U_FORTIFY_SOURCE -Wall -Wno-unused-function -Wno-misleading-indentation -c "$f" -o "$o" && echo "$fp" > "$o.fp") & pids+=($!)
  done
  for p in "${pids[@]}"; do wait "$p"; done
  local nf; nf=$(cat obj/*.h.o.fp | sha256sum)
  if [ ! -f mc ] || [ "$(cat mc.fp 2>/dev/null)" != "$nf" ]; then g++ -fsanitize=address -rdynamic -o mc.tmp obj/*.h.o -ldl -lpthread && mv mc.tmp mc && echo "$nf" > mc.fp; fi
}
what=${1:-all}; [ $# -gt 0 ] && shift
exec 9>"$B/.lock"; flock 9
if [ "$what" = all ] || [ "$what" = harness ]; then harness; fi
if [ "$what" = all ] || [ "$what" = sut ]; then
  for v in ${@:-std b256 lru1 lru3 tsan}; do variant $v; done
fi
