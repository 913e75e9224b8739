#!/bin/bash
# seed.sh ID...   confirms planted bugs in a scratch copy of /repo
for id in "$@"; do
d=/verif/seeded/$id; w=/tmp/seedwork/$id
rm -rf "$w"; mkdir -p "$w"; cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w"/demo/*.diff
run() { unshare -Ur true 2>/dev/null; (cd "$w/repo" && bash "$w/demo/demo.sh" >"$w/out.$1" 2>&1); echo $?; }
tests() { (cd "$w/repo"; for o in "" --no-default-features; do CARGO_TARGET_DIR=$w/repo/target CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --offline --no-fail-fast $o 2>&1; done | tee "$w/tests" | grep -c ' \.\.\. ok$'; grep -E 'FAILED|error(\[|:)' "$w/tests" | head -3 >&2); }
a=$(run base)
(cd "$w/repo" && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; continue; }
b=$(tests); c=$(run bug)
echo "$id: demo unchanged=$a (want 0)  tests ok=$b  demo patched=$c (want nonzero): $(tail -1 "$w/out.bug" | cut -c1-150)"
rm -rf "$w"
done
