#!/bin/bash
# compiles demo.cpp against the build in the current directory and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
INC=$(find "$R"/iceoryx_hoofs "$R"/iceoryx_posh "$R"/iceoryx_platform/generic "$R"/iceoryx_platform/linux "$R"/iceoryx_platform/unix "$R"/iceoryx_binding_c "$R"/iceoryx_introspection -type d -name include -not -path '*/test/*' 2>/dev/null | sed 's/^/-I/')
GEN=$(find "$B" -type d -name include -path '*generated*' 2>/dev/null | sed 's/^/-I/')
g++ -std=c++17 -O1 -w $INC $GEN "$D"/demo.cpp -o "$W"/demo -L"$B"/posh/roudi_env -L"$B"/iceoryx_binding_c -L"$B"/posh -L"$B"/hoofs -L"$B"/platform \
  -Wl,--start-group -liceoryx_posh_roudi_env -liceoryx_binding_c -liceoryx_posh_config -liceoryx_posh_gateway -liceoryx_posh_roudi -liceoryx_posh -liceoryx_hoofs -liceoryx_platform -Wl,--end-group -lpthread -lrt -lacl -latomic -lstdc++fs
cd "$W"
timeout 120 "$W"/demo
