#!/bin/bash
# Developer tool (no registered check uses it): builds the whole upstream unit
# test suite - which /opt/vp/build.sh cannot, because craftpp is not in the
# sandbox - against the stand-in in /verif/shim, with ASan+UBSan, and runs it.
set -eu
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
B=${B:-$V/build/upstream}
mkdir -p "$B"; cd "$B"
CXX="g++ -w -std=gnu++20 -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -I$V/shim -I$REPO/src -I$REPO -I/usr/src/googletest/googletest -I/usr/src/googletest/googletest/include -DCRAFTPP_SHIM -pthread"
{
  echo "rule cc"; echo "  command = $CXX -MMD -MF \$out.d -c \$in -o \$out"; echo "  depfile = \$out.d"; echo "  deps = gcc"
  echo "rule ld"; echo "  command = $CXX \$in -lcrypto -lpthread -o \$out"
  objs=""
  for f in $(cd "$REPO" && find src tests -name '*.cpp' | sort) /usr/src/googletest/googletest/src/gtest-all.cc /usr/src/googletest/googletest/src/gtest_main.cc; do
    case "$f" in *util_error.cpp|*util_error_code.cpp|*util_binary_view.cpp|*stun_server_stateful_tests.cpp) continue;; esac
    o=$(echo "$f" | tr '/' '_').o
    case "$f" in /*) s=$f;; *) s=$REPO/$f;; esac
    echo "build $o: cc $s"; objs="$objs $o"
  done
  echo "build ut: ld $objs"
} > build.ninja
ninja -j8 ut >ninja.log 2>&1 || { tail -40 ninja.log; exit 2; }
ASAN_OPTIONS=detect_leaks=1 ./ut "$@"
