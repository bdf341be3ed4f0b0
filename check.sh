#!/bin/bash
# ./check.sh <property> [quick|thorough]     decide one property
# ./check.sh replay <file>                   run a replay file again
# ./check.sh selftest [property]             the same runs in other processes: same observations?
# ./check.sh show <property> <index>         print a simulated run
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
"$here/build.sh" || exit 2
dst=$here/sim/target/release/dst
case $1 in
replay | selftest | show) exec "$dst" "$@" ;;
*) exec "$dst" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
