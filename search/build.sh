#!/bin/bash
# build.sh HARNESS OUT [extra flags]: compile the harness with the library sources of $REPO
set -e
here=$(dirname "$(readlink -f "$0")"); REPO=${REPO:-/repo}; h=$1; out=$2; shift 2
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
SAN="-fsanitize=address,undefined -fno-sanitize=function,vla-bound -fno-sanitize-recover=all"
for c in "$REPO"/*.c; do clang-18 -std=c11 -O1 -g -DNDEBUG -DWITH_PTHREAD -w -Dmalloc=vf_malloc -Dcalloc=vf_calloc -Drealloc=vf_realloc -Dfree=vf_free -Dstrdup=vf_strdup -fsanitize=fuzzer-no-link $SAN $CEXTRA -c "$c" -o "$tmp/$(basename "$c").o" & done; wait
clang-18 -std=c11 -g -w -DWITH_PTHREAD -fsanitize=address -I"$REPO" -c "$here/glue.c" -o "$tmp/glue.o"
clang++-18 -std=c++17 -O1 -g -w -DWITH_PTHREAD -fsanitize=fuzzer,address -I"$REPO" -I"$here" "$@" "$here/$h.cpp" "$tmp"/*.o -lpthread -o "$out"
