#!/bin/bash
# developer helper: seedtest.sh ID  -- takes the uncommitted diff of the scratch copy /tmp/wt as
# seeded/ID/patch.diff (or applies the existing one), checks tests and the demonstration.
S=/verif/seeded/$1
[ -d /tmp/wt ] || cp -a /repo /tmp/wt
cd /tmp/wt || exit 2
if [ -n "$(git diff)" ]; then git diff > $S/patch.diff; else git apply $S/patch.diff || exit 2; fi
export CARGO_TARGET_DIR=/tmp/wt/target
cargo test --workspace --no-fail-fast --offline -q > /tmp/seed.log 2>&1; echo "tests: $? $(grep -c '^test result: ok' /tmp/seed.log)"
unset CARGO_TARGET_DIR
bash $S/demo.sh > /tmp/seed.demo1 2>&1; echo "demo with bug (want nonzero): $?"; tail -3 /tmp/seed.demo1
git checkout -q -- .
bash $S/demo.sh > /tmp/seed.demo0 2>&1; echo "demo without (want 0): $?"
