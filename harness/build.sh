#!/bin/bash
# build.sh OUTDIR [asan] : builds the drivers from /repo's current working tree into OUTDIR.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1
REPO=${REPO:-/repo}
L=$REPO/lib
mkdir -p "$OUT"
CF="-std=gnu11 -g -O1 -w -fno-omit-frame-pointer -DSV_VENDOR_AXIS_COMMUNICATIONS -I$L/src -I$L/src/includes -I$L/vendors -I$L/vendors/axis-communications -I$HERE"
[ "$2" = asan ] && CF="$CF -fsanitize=address ${SAN:-}"
CORE="$(ls $L/src/*.c $L/src/legacy/*.c $L/vendors/axis-communications/*.c)"
OBJ=$OUT/obj; rm -rf "$OBJ"; mkdir -p "$OBJ"
pids=()
for f in $CORE; do
  o=$OBJ/$(echo "${f#$L/}" | tr / _).o
  gcc $CF -c "$f" -o "$o" & pids+=($!)
done
gcc $CF -c $L/plugins/unthreaded-signing/plugin.c -o $OUT/plugin_unthreaded.o & pids+=($!)
gcc $CF -c $HERE/svh.c -o $OUT/svh.o & pids+=($!)
gcc $CF -c $HERE/mem.c -o $OUT/mem.o & pids+=($!)
if [ -f $HERE/mock_plugin.c ]; then
  gcc $CF -DMOCK_PLUGIN -c $HERE/svh.c -o $OUT/svhm.o & pids+=($!)
  gcc $CF -c $HERE/mock_plugin.c -o $OUT/plugin_mock.o & pids+=($!)
fi
for p in "${pids[@]}"; do wait $p; done
W="-Wl,--wrap=PEM_read_bio_X509,--wrap=PEM_read_bio_X509_AUX,--wrap=d2i_X509"
for f in malloc calloc realloc free strdup strndup; do W="$W,--wrap=$f"; done
gcc $CF $W -o $OUT/svh $OUT/svh.o $OUT/mem.o $OBJ/*.o $OUT/plugin_unthreaded.o -lcrypto
[ -f $HERE/mock_plugin.c ] && gcc $CF $W -o $OUT/svhm $OUT/svhm.o $OUT/mem.o $OBJ/*.o $OUT/plugin_mock.o -lcrypto
exit 0
