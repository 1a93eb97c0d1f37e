#!/bin/bash
# Authoring aid: trybug.sh ID: in a scratch copy of /repo, does the bug build, pass the existing tests, and fail its demo?
id=$1; s=/verif/seeded/$id; w=$(mktemp -d /tmp/try.XXXXXX)
trap 'rm -r -- "$w"' EXIT
cp -a /repo "$w/r"; cp -r "$s" "$w/d"; rm -f "$w/d/patch.diff" "$w/d/meta.json"
cd "$w/r" || exit 3
if [ -n "$2" ]; then bash "$w/d/demo.sh" >"$w/o" 2>&1 || { echo "$id: demo FAILS on clean tree"; tail -5 "$w/o"; exit 1; }; fi
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
export QUICKCHECK_TESTS=10 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
if ! cargo test --workspace --no-fail-fast --offline --features c-tests,internal-tests > "$w/t" 2>&1; then
  echo "$id: TESTS FAIL"; grep -E '^error|FAILED|panicked' "$w/t" | cut -c1-120 | head -4; exit 1; fi
cargo check --offline --features capi >"$w/c" 2>&1 || { echo "$id: capi check fails"; tail -5 "$w/c"; exit 1; }
if bash "$w/d/demo.sh" >"$w/o" 2>&1; then echo "$id: demo PASSES with bug"; exit 1; fi
echo "$id: ok ($(grep -m1 panicked -A1 "$w/o" | tail -1 | cut -c1-100))"
