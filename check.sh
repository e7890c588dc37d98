#!/bin/bash
# check.sh <property> [quick|thorough] [engine options]: decides one property against /repo's working tree.
. /opt/vp/env.sh
d="$(cd "$(dirname "$0")" && pwd)"
p="$1"; t="${2:-${VERIF_TIER:-quick}}"; shift; shift
bash "$d/setup.sh" || exit 2
exec "$d/bin/engine" -verif "$d" -repo /repo -property "$p" -tier "$t" "$@"
