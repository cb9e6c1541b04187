#!/bin/bash
# exit 0: the property held; anything else: it did not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
gcc -g -O1 -D_GNU_SOURCE -DIOT_BUILD_COMPONENTS -DIOT_BUILD_DYNAMIC_LOAD -I"$R/include" "$D/demo.c" "$R/_build/c/libiot.a" -o "$T/demo" -pthread -lyaml -ldl -lm -rdynamic || exit 99
cd "$T" && timeout 120 ./demo
