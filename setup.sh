#!/bin/bash
# Builds the analyzer and warms the build cache with the export data of /repo's dependencies.
cd "$(dirname "$0")" || exit 1
rm -f bin/xtocheck
./run.sh -list >/dev/null
