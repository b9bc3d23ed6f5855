#!/bin/bash
# check.sh ID : build the simulator against /repo's current tree and run the check of property ID.
# VERIF_SEED (default 1) and VERIF_TIER (quick/thorough) are honoured. Exit 0 held, 1 violated, 2 harness error.
# SIM_CMD=replay check.sh FILE : execute a replay file (in the build it was found in).
cd "$(dirname "$0")/sim" || exit 2
case "$1" in */*|*.json) [ "${SIM_CMD:-check}" = replay ] && set -- "$(cd "$OLDPWD" && realpath "$1")";; esac
export SIM_VERIF="${SIM_VERIF:-$(cd .. && pwd)}" SIM_TARGET="${SIM_TARGET:-$PWD/target}"
. ./build_env.sh
mkdir -p "$CARGO_TARGET_DIR"
tmp=$(mktemp -d "${TMPDIR:-/tmp}/sim.XXXXXX") || exit 2
trap 'rm -rf -- "$tmp"' EXIT
# build DIR PROFILE ARGS... : leaves the simulator in $tmp/PROFILE
build() {
  local dir=$1 profile=$2; shift 2
  exec 9>"$dir.lock" && flock 9
  # never trust time stamps: the library is compiled anew for every check
  local out=$profile; [ $profile = dev ] && out=debug
  find "$dir/$SIM_TRIPLE/$out/.fingerprint" -maxdepth 1 -name 'auburn-*' -exec rm -rf -- {} + 2>/dev/null
  if CARGO_TARGET_DIR=$dir cargo build --offline --target $SIM_TRIPLE --profile $profile "$@" >"$tmp/$profile.log" 2>&1; then
    cp "$dir/$SIM_TRIPLE/$out/sim" "$tmp/$profile" && chmod 755 "$tmp/$profile"
  else
    false
  fi
  local code=$?
  flock -u 9
  return $code
}
# the usual build; without the engine's transform if the stand-in for the engine crate lacks something the library now uses
usual() { build "$CARGO_TARGET_DIR" dev || build "$CARGO_TARGET_DIR" dev --no-default-features --features logging; }
# the library as users ship it: optimised, no debug assertions or overflow checks, logging not compiled in
shipped() { build "$CARGO_TARGET_DIR/shipped" shipped --no-default-features; }
fail() { tail -40 "$tmp/$1.log" >&2; echo "harness error: build failed ($1)" >&2; exit 2; }
if [ "${SIM_CMD:-check}" = replay ]; then
  if grep -q '"build": "shipped"' "$1"; then shipped || fail shipped; "$tmp/shipped" replay "$1"; else usual || fail dev; "$tmp/dev" replay "$1"; fi
  exit
fi
second=
if [ "$1" = C08 ] && [ -z "$SIM_CMD" ]; then
  mkdir -p "$CARGO_TARGET_DIR/shipped"
  (shipped) & second=$!
fi
usual || { [ -n "$second" ] && wait $second; fail dev; }
"$tmp/dev" ${SIM_CMD:-check} "$@"; code=$?
if [ -n "$second" ]; then
  wait $second || fail shipped
  if [ $code = 0 ]; then
    SIM_BUILD=shipped SIM_RUNS=${SIM_RUNS:-$([ "$VERIF_TIER" = thorough ] && echo 60000 || echo 6000)} "$tmp/shipped" check "$1"; code=$?
  fi
fi
exit $code
