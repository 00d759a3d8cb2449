#!/bin/bash
# builds the symbolic executor and warms the build cache
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
mkdir -p bin evidence replays
(cd engine && go build -o ../bin/gosym .) || exit 1
exit 0
