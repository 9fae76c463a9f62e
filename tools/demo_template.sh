#!/bin/bash
# compiles demo.cc against the built libraries of the repository (cwd) and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD
B=$R/_build
LIBS=$(find "$B/lib" "$B/projects" -name 'lib*.a')
g++ -std=gnu++20 -w -O0 -DBOOST_ENABLE_ASSERT_DEBUG_HANDLER -DFMT_SHARED -DLF_REDIRECT_ASSERTS -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB \
  -I"$R/lib" -I"$R/projects" -isystem /usr/include/eigen3 "$D/demo.cc" -o "$T/demo" \
  -Wl,--start-group $LIBS -Wl,--end-group -lspdlog -lfmt -lbacktrace -ldl -lpthread || { echo "demo does not compile"; exit 3; }
cd "$T" && timeout 250 ./demo
