#!/bin/bash
# tools/mc.sh SPEC CFG [SECS]: run TLC on a design check, terse output
cd "$(dirname "$0")/../spec"; D=$(mktemp -d); timeout ${3:-300} tlc -noGenerateSpecTE -workers 8 -metadir $D -config $2 $1 2>&1 | grep -v -e "^Progress" -e "^Parsing" -e "^Semantic proc" -e "^TLC2" -e "^Running" -e "^Warning" -e "^(Use" | tail -${4:-40}; rm -rf "$D"
