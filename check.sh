#!/bin/bash
# check.sh <property> [tier]: builds the harness against /repo's working tree and runs one check.
# Extra arguments after the tier go to the harness (--sub, --cases).
root=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
seed=${VERIF_SEED:-1}
if ! "$root/build.sh" >"$root/harness/build.log" 2>&1; then
    cat "$root/harness/build.log" >&2
    echo "build of the harness failed" >&2
    exit 3
fi
VERIF_ROOT=$root exec "$root/harness/target/verif/hpl-verif" check "$id" --tier "$tier" --seed "$seed" "$@"
