#!/bin/bash
# check.sh --build            build everything the checks need
# check.sh <ID> [args...]     run one check (quick unless VERIF_TIER=thorough or --tier thorough)
# check.sh --replay FILE      re-run the case of a replay file
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true
[ -n "$RUSTUP_TOOLCHAIN" ] || export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p "$here/target" "$here/evidence"
exec 9>"$here/target/.lock"
flock 9
log="$here/target/build.log"
# cargo goes by modification times; go by content instead
stamp() { (cd /repo && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum); }
now="$(stamp)"
refresh() { # <target dir> <manifest>
    if [ -d "$1" ] && [ "$(cat "$1/.repo-stamp" 2>/dev/null)" != "$now" ]; then
        cargo clean --offline --manifest-path "$2" --target-dir "$1" -p dir-signature >/dev/null 2>&1
    fi
}
build() { # <target dir> <manifest> args...
    local t="$1" m="$2"; shift 2
    refresh "$t" "$m"
    if ! cargo build --offline --manifest-path "$m" --target-dir "$t" "$@" >"$log" 2>&1; then
        echo "check.sh: build failed" >&2
        tail -40 "$log" >&2
        exit 2
    fi
    echo "$now" >"$t/.repo-stamp"
}
cli() { build "$here/target/cli" /repo/Cargo.toml --bin index; }
nothreads() { build "$here/target/nothreads" "$here/nothreads/Cargo.toml"; }
build "$here/target/h" "$here/harness/Cargo.toml" -p mc
case "$1" in
    --build) cli; nothreads; exit 0 ;;
    C04) nothreads ;;
    C28|C35|C36|C37) cli ;;
    --replay) grep -q '"C04"' "$2" && nothreads; grep -qE '"C(28|35|36|37)"' "$2" && cli ;;
esac
flock -u 9
exec 9>&-
exec "$here/target/h/debug/mc" "$@"
