#!/bin/sh
# builds a demonstration of the recorded defects against the tree given (default /repo) in a scratch directory
d=$(mktemp -d); r=${1:-/repo}; n=${2:-vector}
gcc -g -w -DNDEBUG -DZYCORE_STATIC_BUILD -D_GNU_SOURCE -I$r/include "$(dirname "$0")/$n.c" $r/src/*.c $r/src/API/*.c -lpthread -o $d/a && $d/a
rm -r "$d"
