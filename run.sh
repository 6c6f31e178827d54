#!/bin/bash
# usage: run.sh PROPERTY quick|thorough [REPLAY]    (or, with VERIF_TIER set, run.sh PROPERTY)
# Builds the check of PROPERTY together with /repo's working tree, through an overlay, and runs it.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; replay=$3
repo=${VERIF_REPO:-/repo}
[ -z "$replay" ] || replay=$(realpath "$replay")
export HOME=${HOME:-/root}
work=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
[ -n "$KEEP" ] || trap 'rm -rf "$work"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -modfile=$work/m.mod -buildvcs=false" GOWORK=off
cp "$repo/go.mod" "$work/m.mod" && cp "$repo/go.sum" "$work/m.sum" || exit 2
pkg=$(echo "$prop" | tr 'A-Z' 'a-z')
if [ -f "$here/harness/$pkg/rewrite.txt" ]; then
    # Seams inside functions: put into copies of the sources.
    (cd "$repo" && go build -o "$work/rewrite" "$here/harness/rewrite/main.go") || exit 2
    "$work/rewrite" "$repo" "$work/rewritten" < "$here/harness/$pkg/rewrite.txt" > "$work/rewrite.log" || exit 2
    cat "$work/rewrite.log" >&2
    [ ! -s "$work/rewrite.log" ] || export VERIF_SEAMS_MISSING=1
fi
python3 "$here/tools/overlay.py" "$here" "$repo" "$work" full "$pkg" > "$work/overlay.json" || exit 2
cd "$repo" || exit 2
if ! go build -overlay "$work/overlay.json" -o "$work/check" "./internal/zzverif/$pkg" 2> "$work/err"; then
    # An internal seam may have been renamed: fall back to what the exported API shows.
    rm -rf "$work/rewritten"
    python3 "$here/tools/overlay.py" "$here" "$repo" "$work" exported "$pkg" > "$work/overlay.json" || exit 2
    if ! go build -tags noshim -overlay "$work/overlay.json" -o "$work/check" "./internal/zzverif/$pkg" 2> "$work/err2"; then
        cat "$work/err" "$work/err2" >&2
        echo "cannot build the check of $prop" >&2
        exit 2
    fi
    echo "note: internal seams did not build, exploring through the exported API only" >&2
fi
cd "$here" || exit 2
"$work/check" "$prop" "$tier" "$here" $replay 2> "$work/stderr"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
    tail -c 4000 "$work/stderr" >&2
    # The process died inside the code under test (memory exhausted, stack overflow, concurrent map access ...).
    if grep -qE '^(fatal error: |runtime: goroutine stack exceeds)' "$work/stderr" && [ -s "$work/stderr" ]; then
        mkdir -p "$here/replays"
        tail -c 20000 "$work/stderr" > "$here/replays/$prop-fatal.txt"
        echo "VIOLATION property=$prop replay=$here/replays/$prop-fatal.txt"
        exit 1
    fi
fi
exit $rc
