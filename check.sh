#!/bin/bash
# check.sh <property> quick|thorough   run the check of one property
# check.sh replay <file>               replay a recorded violation
# check.sh build                       only build
# Rebuilds the simulator from /repo's working tree first.
# Exit 0: held; 1: violation (with a VIOLATION line); anything else: the check itself could not run.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
sim="$here/sim"
export CARMEN_VERIF="$here"
export CARGO_TARGET_DIR="$sim/target"
mkdir -p "$sim/target" "$here/evidence" "$here/work"

# build carmen-sim | carmen-sim-js: the second one has the JavaScript binding linked in
build() {
    exec 9>"$sim/target/.lock"
    flock 9
    local now was log
    # cargo looks at timestamps only; a tree restored with old timestamps must not go unnoticed
    now="$(cd /repo && find rust-src native/src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
    was="$(cat "$sim/target/.repo-hash" 2>/dev/null)"
    if [ "$now" != "$was" ]; then
        rm -f "$sim/target/.repo-hash"
        (cd "$sim" && cargo clean --offline --release -p carmen-core -p node-carmen-core >/dev/null 2>&1)
    fi
    echo "$now" >"$sim/target/.repo-hash"
    log="$here/work/build-$1.log"
    if ! (cd "$sim" && cargo build --offline --release -p "$1" >"$log" 2>&1); then
        tail -n 60 "$log" >&2
        echo "ERROR: $1 does not build against /repo's working tree" >&2
        return 1
    fi
    exec 9>&-
}
run() {
    local bin="$1"
    shift
    build "$bin" || exit 3
    exec "$sim/target/release/$bin" "$@"
}

case "${1:-}" in
    build)
        build carmen-sim || exit 3
        # without it, C15 and C16 cannot be decided; everything else can
        build carmen-sim-js || true
        ;;
    replay)
        bin=carmen-sim
        grep -q '"property": "C1[56]"' "$2" && bin=carmen-sim-js
        run "$bin" replay "$2"
        ;;
    selftest)
        build carmen-sim || exit 3
        build carmen-sim-js || exit 3
        "$sim/target/release/carmen-sim" selftest "${2:-200}" && "$sim/target/release/carmen-sim-js" selftest "${2:-200}"
        ;;
    C15 | C16) run carmen-sim-js check "$1" "${2:-quick}" ;;
    C[0-9][0-9]) run carmen-sim check "$1" "${2:-quick}" ;;
    *) sed -n 2,6p "$0" >&2; exit 2 ;;
esac
