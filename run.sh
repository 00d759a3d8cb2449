#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
here=$(pwd)
. /opt/vp/env.sh
ulimit -v unlimited 2>/dev/null
if [ ! -x bin/gosym ] || [ -n "$(find engine -name '*.go' -newer bin/gosym 2>/dev/null | head -1)" ]; then
    mkdir -p bin
    (cd engine && go build -o ../bin/gosym.$$ . && mv ../bin/gosym.$$ ../bin/gosym) || exit 2
fi
exec ./bin/gosym -verif "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
