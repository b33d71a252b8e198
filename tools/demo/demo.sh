#!/bin/bash
# Builds the demonstration against /repo's libraries and runs it. Exit 0: behaviour is right.
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'cd /; rm -rf "$T"' EXIT
F="-std=c++20 -O1 -w -include /opt/vp/missing/mbedtls3.h -I$R -I$R/mbedtls/include -I$D"
SRC="$D/demo.cpp $D/demo_stubs.cpp"
[ -f "$D/shim.cpp" ] && F="$F -DHAVE_SHIM -DSHIM_DEMO" && SRC="$SRC $D/shim.cpp $D/demo_rt.cpp"
P=; for s in $SRC; do clang++-18 $F -c "$s" -o "$T/$(basename $s .cpp).o" & P="$P $!"; done
for p in $P; do wait $p || { echo "demo does not compile"; exit 3; }; done
clang++-18 -o "$T/demo" "$T"/*.o -Wl,--start-group "$R/libbedrock.a" "$R/libstuff.a" -Wl,--end-group -lsqlite3 -lpcre2-8 -lmbedtls -lmbedx509 -lmbedcrypto -lz -lzstd -ldl -lpthread -lm || { echo "demo does not link"; exit 3; }
cd "$T" && timeout 120 "$T/demo"
