#!/bin/bash
# check.sh ID [tier]: decides one property on /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here"
export GOV_ROOT="$here"
[ -x bin/gov ] || ./build.sh || exit 2
exec ./bin/gov check -property "$1" -tier "${2:-${VERIF_TIER:-quick}}"
