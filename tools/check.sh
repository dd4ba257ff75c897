#!/bin/bash
# check.sh <group> <property> <tier>: build from /repo's working tree, then decide the property.
# Exit 0 held, 1 violated (VIOLATION line), anything else: error of the check.
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
cd "$ROOT" || exit 2
group=$1 prop=$2 tier=${3:-quick}
shift 3
export VERIF_ROOT="$ROOT" VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p evidence replays
rm -f "$ROOT/evidence/$prop.json"
bins=(--bin "$group")
[ "$group" = program ] && bins+=(--bin d10-under-test)
build() {
    bash harness/build.sh "${bins[@]}" || return
    [ "$group" = python ] || return 0
    bash harness/build-python.sh
}
if ! out=$(build 2>&1); then
    echo "$out" | tail -40
    echo "build of the harness failed"
    exit 2
fi
case "$prop" in
C17) part=6 ;;
C18) part=8 ;;
*) part= ;;
esac
if [ -n "$part" ] && [ $# -eq 0 ]; then
    # the same cases, a part of them, in a build that ends at the first memory error
    export VERIF_MEMORY_RUN="$ROOT/harness/target-memory/$prop.json"
    rm -f "$VERIF_MEMORY_RUN"
    bin="$ROOT/harness/target-memory/x86_64-unknown-linux-gnu/debug/$group"
    export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:symbolize=0
    if bash harness/build-memory.sh --bin "$group" >/dev/null 2>&1 && "$bin" --start >/dev/null 2>&1; then
        VERIF_MEMORY=$part "$bin" "$prop" 2>&1
        rc=$?
        if [ $rc -eq 1 ]; then
            cp "$VERIF_MEMORY_RUN" "$ROOT/evidence/$prop.json"
            exit 1
        fi
        [ $rc -eq 0 ] || echo "the build with a memory error detector gave no answer ($rc)"
    else
        echo "no build with a memory error detector"
    fi
fi
"$ROOT/harness/target/debug/$group" "$prop" "$@"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || { echo "check program ended with $rc"; exit 3; }
exit $rc
