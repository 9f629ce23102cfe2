#!/bin/bash
# build.sh PROFILE BIN... : builds check binaries from /repo's current working tree.
# PROFILE: seq (sequential prover), dbg (with debug assertions), par (multi-threaded prover),
# cli (the command-line binary itself).
# Decides what is stale by content, never by modification time.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
cd "$ROOT/harness" || exit 2
profile=$1; shift
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS
case $profile in
  seq) dir=$ROOT/target/seq; args=(--release) ; sub=release ;;
  dbg) dir=$ROOT/target/dbg; args=(--profile checked) ; sub=checked ;;
  par) dir=$ROOT/target/par; args=(--release --features parallel) ; sub=release ;;
  cli) dir=$ROOT/target/cli; args=(--release --manifest-path "$ROOT/real/Cargo.toml") ; sub=release ;;
  *) echo "unknown profile $profile" >&2; exit 2 ;;
esac
mkdir -p "$dir" "$ROOT/work"
exec 9>"$ROOT/work/build-$profile.lock"; flock 9
hash_of() { (cd "$1" && find . -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.json' \) -not -path './target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1); }
repo=$(hash_of /repo/src)
shims=$(hash_of "$ROOT/shims"; hash_of "$ROOT/real")
own=$(hash_of "$ROOT/harness")
stale() { # stamp-name, hash, fingerprint globs
  local stamp=$dir/stamp-$1
  if [ "$(cat "$stamp" 2>/dev/null)" != "$2" ]; then
    shift 2
    for g in "$@"; do rm -rf "$dir/$sub/.fingerprint/"$g; done
  fi
}
stale shims "$shims" 'lambdaworks-*' 'bincode-*' 'cairo-*' 'harness-*'
stale repo "$repo" 'lambdaworks-stark-*' 'harness-*'
stale own "$own" 'harness-*'
bins=(); for b in "$@"; do bins+=(--bin "$b"); done
if ! cargo build --offline "${args[@]}" --target-dir "$dir" "${bins[@]}" >"$ROOT/work/build-$profile.log" 2>&1; then
  grep -E '^error' -A12 "$ROOT/work/build-$profile.log" | head -60
  echo "BUILD-FAILED profile=$profile bins=$* (log: $ROOT/work/build-$profile.log)"
  exit 2
fi
if [ "$own" = "$(hash_of "$ROOT/harness")" ] && [ "$repo" = "$(hash_of /repo/src)" ]; then
  echo "$shims" >"$dir/stamp-shims"; echo "$repo" >"$dir/stamp-repo"; echo "$own" >"$dir/stamp-own"
fi
