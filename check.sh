#!/bin/bash
# check.sh PROPERTY: builds the simulator from /repo's working tree and decides
# one property. Exit 0: held; 1: violated (VIOLATION line); anything else: error.
cd "$(dirname "$0")" || exit 3
prop="$1"
seed="${VERIF_SEED:-1}"
tier="${VERIF_TIER:-quick}"
mkdir -p evidence replays target
log="target/build-$prop.log"
if ! bash harness/build.sh "$PWD/target/sim" >"$log" 2>&1; then
    # the group stub may not fit a refactored group interface: do without it
    if ! bash harness/build.sh "$PWD/target/sim" --no-default-features >>"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "error: the simulator does not build against /repo" >&2
        exit 3
    fi
fi
# the Python and WebAssembly interfaces, where the property is checked through them
case "$prop" in
C01 | C02 | C03 | C04 | C05 | C06 | C07 | C08 | C09 | C16)
    if ! bash remote/build.sh "$PWD/target/sim" "$PWD/target/remote" >"$log.remote" 2>&1; then
        echo "note: not every remote interface builds (see $log.remote); its executions are left out" >&2
    fi
    ;;
esac
exec ./target/sim/release/sim check "$prop" --seed "$seed" --tier "$tier" \
    --out "$PWD/evidence/$prop.json" --replays "$PWD/replays" --known "$PWD/known-findings.txt"
