#!/bin/bash
# Compiles demo.cpp against the built tree in the current directory and runs it.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -g -include cstdint -pthread -I"$R/src" -I"$R/_build" \
    -I"$R/third_party/common" -I"$R/third_party/crawler" -I"$R/third_party/crawler/googleurl/src" \
    -I/usr/include/libxml2 -I/usr/include/json-c -I"$H" "$H/demo.cpp" -o "$T/demo" \
    -Wl,--start-group $(find "$R/_build" -name '*.a') -Wl,--end-group \
    -lmicrohttpd -lxml2 -ljson-c -lleveldb -lsnappy -lcurl -lhtmlcxx -licuuc -lpthread -ldl || exit 99
cd "$T" && timeout 120 ./demo
