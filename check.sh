#!/bin/bash
# check.sh <ID> [--replay FILE | --case ID]: build the check of one property from /repo's working
# tree and run it. Exit 0: held, 1: violated (VIOLATION line), other: the check could not run.
id=$1; shift
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR=$here
bin=$(echo "$id" | tr 'A-Z' 'a-z')
tmp=$(mktemp -d /tmp/mc-XXXXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
cd "$here/mc" || exit 2
if [ "$bin" = c20 ]; then
    # once more, with points for preemption inside of the code under test
    points="env RUSTC_WRAPPER=$here/mc/instrument.sh CARGO_TARGET_DIR=$here/mc/target/points"
    $points cargo clean --release --offline -p anothertls >/dev/null 2>&1
    if ! $points cargo build --release --offline --bin c20 >"$tmp/build" 2>&1; then
        tail -40 "$tmp/build"
        echo "the check of $id could not be built" >&2
        exit 2
    fi
fi
# cargo compares times of files only: always compile /repo's crate again
cargo clean --release --offline -p anothertls >/dev/null 2>&1
features=
[ $bin = c23 ] && features="--features keys"
if ! cargo build --release --offline --bin "$bin" $features >"$tmp/build" 2>&1 &&
    ! { [ "$features" ] && cargo build --release --offline --bin "$bin" >"$tmp/build" 2>&1; }; then
    tail -40 "$tmp/build"
    echo "the check of $id could not be built" >&2
    exit 2
fi
"$here/mc/target/release/$bin" "$@"
rc=$?
if [ $rc -ge 128 ]; then
    mkdir -p "$here/replays"
    echo "property: $id
what: the process was ended by signal $((rc - 128))" > "$here/replays/$id-signal.txt"
    echo "VIOLATION property=$id replay=$here/replays/$id-signal.txt"
    echo "  what: the process was ended by signal $((rc - 128))"
    rc=1
fi
exit $rc
