#!/bin/sh
# build the tree $1 together with the repository's own tests in that tree; exit 3: does not build, 1: a test fails
cd "$1" || exit 3
W="-g -O0 -w -DZYCORE_STATIC_BUILD -D_GNU_SOURCE -Iinclude"
for s in src/*.c src/API/*.c; do gcc $W -std=gnu99 -c $s -o $(echo $s | tr / _).o || exit 3 & done; wait
for t in String Vector ArgParse; do
  [ -f /tmp/mutobj/$t.o ] || { mkdir -p /tmp/mutobj; g++ $W -std=c++17 -c /repo/tests/$t.cpp -o /tmp/mutobj/$t.o; }
  g++ /tmp/mutobj/$t.o *.c.o -lgtest -lgmock -lpthread -o t_$t 2>/dev/null || exit 3
  timeout 20 ./t_$t >/tmp/mutobj/log.$$ 2>&1 || exit 1
done
exit 0
