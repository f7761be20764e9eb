#!/bin/bash
# seedtest.sh ID [checks...]: confirm a planted change and run the named checks against it.
set -u
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/seedw
cd /repo && git diff --quiet || { echo "repo dirty"; exit 9; }
[ -d "$W" ] && find "$W" -depth -delete
cp -a /repo "$W"
cd "$W"
(cd /repo && bash "$S/demo.sh" >/tmp/demo0.log 2>&1); r0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 8; }
export HOME=/root PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=$W/target
cargo test --workspace --offline >/tmp/seedtest.log 2>&1; rt=$?
unset CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
bash "$S/demo.sh" >/tmp/demo1.log 2>&1; r1=$?
echo "$ID: demo clean=$r0 patched=$r1 tests=$rt"
cd /repo
if [ $# -gt 0 ]; then
  git apply "$S/patch.diff"
  for c in "$@"; do (cd /verif && timeout 900 python3 engine/check.py $c quick >/tmp/seedcheck.$c.log 2>&1; echo "   $c exit $? : $(grep -v '^VIOL' /tmp/seedcheck.$c.log | sed -n 2,3p | cut -c1-300)"); done
  git checkout -- .
fi
find "$W" -depth -delete
