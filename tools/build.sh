#!/bin/bash
# build.sh [harness|all]: builds the simulator against the current /repo tree; prints the path of the binary.
# Everything goes into /verif/build (ignored by git), keyed by content, so parallel and repeated checks share it.
set -e
export LC_ALL=C
V=$(cd "$(dirname "$0")/.." && pwd); R=${WAYUU_REPO:-/repo}; B=$V/build
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
HF="-std=c++17 -g -O1 -fno-builtin -fno-omit-frame-pointer -w"
hh=$({ clang --version; cat "$V"/sim/*.cpp "$V"/sim/*.h "$V"/sim/*.inc "$V"/sim/app.c "$0"; } | sha256sum | cut -c1-16)
H=$B/h-$hh
if [ ! -e "$H/ok" ]; then
  rm -rf "$B"/h-* "$B"/r-*; mkdir -p "$H"
  pids=()
  for f in "$V"/sim/*.cpp; do clang++ $HF -c "$f" -o "$H/$(basename "${f%.cpp}").o" & pids+=($!); done
  for p in "${pids[@]}"; do wait "$p"; done
  { nm --defined-only "$H"/*.o | awk '$3 ~ /^sim_/ {print substr($3,5), $3}' | sort -u; echo "main wayuu_main"; } > "$H/redef"
  touch "$H/ok"
fi
[ "$1" = harness ] && exit 0
rh=$({ echo "$hh"; cd "$R"; for f in *.c *.h; do echo "== $f"; cat "$f"; done; } | sha256sum | cut -c1-16)
D=$B/r-$rh
if [ ! -e "$D/ok" ]; then
  # keep only a few older builds
  ls -dt "$B"/r-* 2>/dev/null | tail -n +4 | while read -r x; do rm -rf "$x"; done
  rm -rf "$D"; mkdir -p "$D"
  CF="-g -O1 -std=gnu99 -DWAYUU_DIST -D_GNU_SOURCE -w -fno-builtin -fno-omit-frame-pointer -fPIC -I$R -I$V/sim -fsanitize=address -fsanitize-address-use-after-return=never -ftrivial-auto-var-init=pattern -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"
  pids=()
  for f in "$R"/*.c; do ( o="$D/$(basename "${f%.c}").o"; clang $CF -c "$f" -o "$o" && objcopy --redefine-syms="$H/redef" "$o" ) & pids+=($!); done
  # the application is part of the test bed: same seams, no scheduling points of its own
  ( clang $CF -c "$V/sim/app.c" -o "$D/zz_app.o" && objcopy --redefine-syms="$H/redef" "$D/zz_app.o" ) & pids+=($!)
  for p in "${pids[@]}"; do wait "$p"; done
  clang++ -fsanitize=address -rdynamic -o "$D/wsim" "$H"/*.o "$D"/*.o -lssl -lcrypto -lpthread 1>&2
  nm -n "$D/wsim" | awk '$2 ~ /[tTwW]/ {print $1, $2, $3}' > "$D/wsim.syms"
  rm -f "$D"/*.o
  touch "$D/ok"
fi
touch "$D"
echo "$D/wsim"
