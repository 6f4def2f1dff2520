#!/bin/bash
# check.sh ID [--replay FILE]: rebuilds the harness against /repo's working tree and runs one check.
# Exit 0: held; 1: VIOLATION line printed; anything else: the check itself could not run.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/harness/target"
export VERIF_EVIDENCE="${VERIF_EVIDENCE:-$here/evidence}" VERIF_KNOWN="${VERIF_KNOWN:-$here/known_findings.txt}"
cd "$here/harness" || exit 2
log=$(mktemp) || exit 2
# cargo looks at file times only; look at the contents as well
now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
stamp="$CARGO_TARGET_DIR/repo.sha256"
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
  rm -f "$stamp"
  [ -d "$CARGO_TARGET_DIR/release" ] && cargo clean --release --offline -p rlibphonenumber >"$log" 2>&1
fi
# should a hook no longer compile, do without it
cargo build --release --offline >"$log" 2>&1 || RUSTFLAGS="--cfg rlpn_verif" cargo build --release --offline >"$log" 2>&1 ||
  RUSTFLAGS="--cap-lints=allow" cargo build --release --offline >"$log" 2>&1 ||
  { cat "$log"; rm -f "$log"; echo "HARNESS-ERROR build failed"; exit 2; }
echo "$now" >"$stamp"
if [ "$1" = C26 ] || [ "$1" = C27 ]; then
  # the metadata builder, from its sources, with a stand-in for the protobuf classes
  export RLPN_JAVA="$CARGO_TARGET_DIR/java"
  rm -rf "$RLPN_JAVA" && mkdir -p "$RLPN_JAVA" &&
    find /repo/tools/java/*/src "$here/java" -name '*.java' -print0 | xargs -0 javac -nowarn -encoding UTF-8 -d "$RLPN_JAVA" >"$log" 2>&1 ||
    { cat "$log"; rm -f "$log"; echo "HARNESS-ERROR javac failed"; exit 2; }
fi
rm -f "$log"
ulimit -v 25000000   # a runaway allocation ends the check, not the sandbox
[ $# -eq 0 ] && exit 0
[ "$VERIF_TIER" = thorough ] && [ $# -eq 1 ] && [ "${VERIF_FUZZ:-240}" -gt 0 ] || exec "$CARGO_TARGET_DIR/release/rlpn_harness" "$@"
"$CARGO_TARGET_DIR/release/rlpn_harness" "$@" || exit $?
# thorough: a coverage-guided search on top, where the property has a generator to drive
case $1 in C18 | C23 | C24 | C26 | C27 | C30) ;; *) exec "$here/fuzz/fuzz.sh" "$1" "${VERIF_FUZZ:-240}" ;; esac
