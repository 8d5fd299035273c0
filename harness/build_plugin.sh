#!/bin/bash
# build_plugin.sh OUTDIR : drivers of the signing plugins, built from /repo's current working tree:
#   svp   threaded plugin, address sanitizer      svpt  threaded plugin, thread sanitizer
#   svpu  unthreaded plugin, address sanitizer
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1
REPO=${REPO:-/repo}
L=$REPO/lib
mkdir -p "$OUT"
G=$(pkg-config --cflags glib-2.0)
CF="-std=gnu11 -g -O1 -w -fno-omit-frame-pointer -I$L/src -I$L/src/includes -I$HERE $G"
pids=()
gcc $CF -fsanitize=address,bounds -fno-sanitize-recover=bounds -c $L/plugins/threaded-signing/plugin.c -o $OUT/pt_a.o & pids+=($!)
gcc $CF -fsanitize=thread -c $L/plugins/threaded-signing/plugin.c -o $OUT/pt_t.o & pids+=($!)
gcc $CF -fsanitize=address,bounds -fno-sanitize-recover=bounds -c $L/plugins/unthreaded-signing/plugin.c -o $OUT/pu_a.o & pids+=($!)
gcc $CF -c $HERE/svp.c -o $OUT/svp.o & pids+=($!)
OBJ=$OUT/pobj; rm -rf "$OBJ"; mkdir -p "$OBJ/t" "$OBJ/a"
for f in $L/src/*.c $L/src/legacy/*.c; do
  b=$(echo "${f#$L/}" | tr / _).o
  gcc $CF -c "$f" -o "$OBJ/a/$b" & pids+=($!)
done
gcc $CF -fsanitize=thread -c $L/src/signed_video_openssl.c -o $OBJ/t/ossl.o & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
REST=$(ls $OBJ/a/*.o | grep -v signed_video_openssl)
W="-Wl,--wrap=openssl_sign_hash"
LIB="-lcrypto -lpthread $(pkg-config --libs glib-2.0)"
gcc -fsanitize=address,bounds $W -o $OUT/svp $OUT/svp.o $OUT/pt_a.o $OBJ/a/*.o $LIB & a=$!
gcc -fsanitize=thread $W -o $OUT/svpt $OUT/svp.o $OUT/pt_t.o $REST $OBJ/t/ossl.o $LIB & b=$!
gcc -fsanitize=address,bounds $W -o $OUT/svpu $OUT/svp.o $OUT/pu_a.o $OBJ/a/*.o $LIB & c=$!
wait $a; wait $b; wait $c
exit 0
