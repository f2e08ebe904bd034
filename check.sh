#!/bin/bash
# check.sh setup | <property id> [thorough]
# Builds the monitors against /repo's working tree and runs one check.
# exit 0: held, 1: VIOLATION line printed, 2: no answer
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export VERIF_DIR="$here"
target="$here/target"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
# With all hooks, or without the one which names private types if that one does not build any more
flags_all="--cfg lxi_verif --cfg lxi_verif_xdr -Awarnings"
flags_few="--cfg lxi_verif -Awarnings"
compile() {
    (cd harness && RUSTFLAGS="$1" cargo build --offline --target-dir "$target") >"$target/build.log" 2>&1
}
# Backtraces cost time and change nothing
unset RUST_BACKTRACE RUST_LOG

build() {
    mkdir -p "$target"
    (
        flock 9
        # File times may have been set back by whoever copied the tree, so look at the contents
        now="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \
            \( -name '*.rs' -o -name 'Cargo.toml' \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
        export RUSTFLAGS="$flags_all"
        if [ "$now" != "$(cat "$target/.repo-hash" 2>/dev/null)" ]; then
            (cd harness && cargo clean --offline --target-dir "$target" \
                -p lxi-device -p lxi-hislip -p lxi-socket -p lxi-telnet -p lxi-vxi11 -p harness) >/dev/null 2>&1
            rm -f "$target/.repo-hash"
        fi
        compile "$flags_all" || compile "$flags_few" || exit 1
        printf '%s' "$now" >"$target/.repo-hash"
    ) 9>"$target.lock"
}

id="${1:-}"
[ -n "$id" ] || { echo "usage: $0 setup | <property id>" >&2; exit 2; }
if ! build; then
    tail -40 "$target/build.log" >&2
    echo "the tree does not build" >&2
    exit 2
fi
[ "$id" = setup ] && exit 0
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough

"$target/debug/harness" "$id"
rc=$?
case $rc in
    0|1|2) exit $rc ;;
    132|134|135|136|139)
        # The process in which the servers run died (abort, trap, stack overflow, bad memory access)
        mkdir -p replays
        printf 'property %s\nseed %s\ntier %s\nrerun: cd /verif && VERIF_SEED=%s VERIF_TIER=%s ./check.sh %s\n\nthe process died with status %s\n' \
            "$id" "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" "$id" "$rc" >"replays/$id.txt"
        echo "$id: the process running the servers died with status $rc"
        echo "VIOLATION property=$id replay=$here/replays/$id.txt"
        exit 1 ;;
    *) echo "harness ended with status $rc" >&2; exit 2 ;;
esac
