#!/bin/bash
# check.sh <property> [quick|thorough]: builds what the check needs from /repo's tree and runs it.
home=$(cd "$(dirname "$0")" && pwd)
[ -n "${2-}" ] && export VERIF_TIER=$2
export CSIGMON_HOME=$home
if [ "$1" = C21 ]; then
    "$home/build.sh" san || exit 2
    exec python3 "$home/san.py" check
fi
"$home/build.sh" || exit 2
exec "$home/target/release/csigmon" check "$1"
