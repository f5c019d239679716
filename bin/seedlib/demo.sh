#!/bin/bash
# builds demo.cpp against the sources in the current directory and runs it: exit 0 = behaves, 1 = misbehaves
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/inc/umpire" "$W/o"
sed -E -e 's/#cmakedefine (UMPIRE_ENABLE_FILE_RESOURCE|UMPIRE_ENABLE_IPC_SHARED_MEMORY)\b/#define \1/' -e 's/#cmakedefine +(\w+)/\/* #undef \1 *\//' \
  -e 's/@Umpire_VERSION_(MAJOR|MINOR|PATCH)@/1/g' -e 's/@[A-Za-z_]+@//g' "$R/src/umpire/config.hpp.in" > "$W/inc/umpire/config.hpp"
FLAGS="-std=c++14 -O0 -g -w -DNDEBUG -fno-access-control -I$D/shim -I$W/inc -I$R/src -I$R/src/tpl $(cat "$D/flags" 2>/dev/null)"
ONLY=$(cat "$D/only" 2>/dev/null || echo src/umpire)
SRC=$(find "$R/$ONLY" -name '*.cpp' | grep -vE 'Cuda|Hip|Sycl|OpenMPTarget|DeviceAllocator|device_allocator|sqlite|HostMpi3|numa|Numa|/interface/')
for s in $SRC; do echo "$s"; done | xargs -P 8 -I{} sh -c "clang++ $FLAGS -c {} -o $W/o/\$(echo {} | md5sum | cut -c1-12).o 2>$W/err.\$\$ || true"
clang -O0 -g -w $(grep -o -- '-fsanitize=[a-z,]*' "$D/flags" 2>/dev/null) -I"$R/src/tpl" -c "$R/src/tpl/umpire/judy/judy.c" -o "$W/o/judy.o"
clang++ $FLAGS "$D/demo.cpp" "$W"/o/*.o -Wl,--gc-sections -lpthread -ldl -lrt -o "$W/demo" || { cat "$W"/err.* | head -20; exit 2; }
cd "$W" && timeout 60 ./demo
