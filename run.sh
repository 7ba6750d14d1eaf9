#!/bin/bash
# usage: run.sh build | check <ID> | replay <file>
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN="${MC_TOOLCHAIN:-1.98.1-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= DOCS_RS=1 CARGO_TARGET_DIR="$ROOT/mc/target"
export VERIF_ROOT="$ROOT"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
# rebuild every package whose content changed, whatever the time stamps say
REPO=/repo
fps="$CARGO_TARGET_DIR/release/.fingerprint"
sums="$(cd "$REPO" && for d in $(find contracts packages -name Cargo.toml -not -path '*/target/*' | sort); do
  d="$(dirname "$d")"
  n="$(sed -n 's/^name *= *"\(.*\)"/\1/p' "$d/Cargo.toml" | head -1)"
  echo "$n $(find "$d" -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
done)"
stamp="$CARGO_TARGET_DIR/.repo-sums"
if [ -f "$stamp" ]; then
  grep -vxFf "$stamp" <<<"$sums" | while read -r n _; do
    [ -n "$n" ] && find "$fps" -maxdepth 1 -type d -name "$n-*" -exec rm -rf {} + 2>/dev/null
  done
fi
log="$(mktemp)"
build() { cargo build --release --offline "$@" --manifest-path "$ROOT/mc/Cargo.toml" >"$log" 2>&1; }
if ! build --locked; then
  # a change of the dependencies between the packages of /repo: resolve again, offline
  lock="$(mktemp)"; cp "$ROOT/mc/Cargo.lock" "$lock"
  build; rc=$?
  cp "$lock" "$ROOT/mc/Cargo.lock"; rm -f "$lock"
  if [ $rc -ne 0 ]; then cat "$log"; rm -f "$log"; echo "build failed"; exit 7; fi
fi
rm -f "$log"
echo "$sums" >"$stamp"
[ "${1:-}" = build ] && exit 0
exec "$ROOT/mc/target/release/mc" "$@"
