#!/bin/bash
# Builds demo.cpp against /repo's build, and runs it in a scratch directory. Exit 0: as it should be.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
libs=$(find /repo/_build/vrs -name 'libvrs*.a' ! -name '*test*')
g++ -std=c++17 -w -O0 -g -DFMT_SHARED -DOSS_BUILD_MODE -I/repo -I/repo/vrs/oss -I"$here" "$here/demo.cpp" -o "$t/demo" \
  -Wl,--start-group $libs -Wl,--end-group -lfmt -lxxhash -llz4 -lzstd -lturbojpeg -ljpeg -lpng -lopus -lpthread -lrt -ldl || exit 2
cd "$t" && timeout 250 ./demo
