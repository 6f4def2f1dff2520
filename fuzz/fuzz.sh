#!/bin/bash
# fuzz.sh ID SECONDS: coverage-guided search for one property, part of its thorough command. Exit 0:
# nothing found, or no fuzzing here (toolchain missing); 1: a case which the harness confirms.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" RUSTFLAGS="${RLPN_CFG---cfg rlpn_verif --cfg rlpn_verif_internal}"
log=$(mktemp) || exit 0
[ -d "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu" ] && cargo +nightly clean --release --target x86_64-unknown-linux-gnu --manifest-path "$here/Cargo.toml" -p rlibphonenumber >"$log" 2>&1
cargo +nightly fuzz build --fuzz-dir "$here" -s none prop >"$log" 2>&1 || { tail -5 "$log"; echo "no coverage-guided search: it does not build"; rm -f "$log"; exit 0; }
export RLPN_FUZZ=$id RLPN_FUZZ_OUT="$VERIF_EVIDENCE/replay/$id-fuzz.json"
mkdir -p "$here/corpus/$id" "$VERIF_EVIDENCE/replay"
rm -f "$RLPN_FUZZ_OUT"
work=$(mktemp -d) || exit 0
cd "$work" || exit 0
"$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/prop" "$here/corpus/$id" -fork=8 -max_total_time="$2" -max_len=600 -timeout=60 -rss_limit_mb=3000 -use_value_profile=1 >"$log" 2>&1
echo "coverage-guided: $(grep -a -E '^#[0-9]+: cov' "$log" | tail -1)"
rm -rf "$work" "$log"
[ -f "$RLPN_FUZZ_OUT" ] || exit 0
# the harness has the last word
"$here/../harness/target/release/rlpn_harness" "$id" --replay "$RLPN_FUZZ_OUT"
[ $? -eq 1 ] && exit 1
exit 0
