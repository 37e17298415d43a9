#!/bin/bash
# Builds the harness against /repo's working tree. Cargo trusts modification times; this does not: when the
# content of the sources is not that of the last build, the crates of /repo are built anew.
root=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
cd "$root/harness" || exit 3
mkdir -p target
exec 9>target/.verif-lock
flock 9
now=$(find /repo/contracts /repo/packages /repo/Cargo.toml -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat target/.verif-sources 2>/dev/null)" ]; then
    : >target/.verif-sources
    mine=$(awk '/^name = /{n=$3} /^source = /{n=""} /^$/{if(n!="")print n; n=""} END{if(n!="")print n}' Cargo.lock | tr -d '"' | grep -v '^hpl-verif$')
    cargo clean --offline --profile verif $(printf -- '-p %s ' $mine) || true
fi
cargo build --offline --profile verif || exit 3
echo "$now" >target/.verif-sources
