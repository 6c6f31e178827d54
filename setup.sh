#!/bin/bash
# Warms the build cache: nothing else is needed, every check builds itself from /repo's working tree.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence
./run.sh C01 quick > /dev/null
exit 0
