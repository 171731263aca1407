#!/bin/bash
# seed_verify.sh ID...   confirms planted bugs in a scratch copy: applies, builds, stable tests pass, demo 0 / nonzero
. /opt/vp/env.sh
R=/tmp/seedrepo; export CARGO_TARGET_DIR=/tmp/seedtarget
for id in "$@"; do
  S=/verif/seeded/$id
  mkdir -p $R; (cd /repo && git ls-files | tar cf - -T -) | (rm -rf $R/src; cd $R && tar xf -)
  cd $R
  if [ -z "$SKIP_CLEAN" ]; then bash $S/demo.sh >/tmp/seed.$id.clean 2>&1; c=$?; else c=-; fi
  (git -C /repo apply --check $S/patch.diff) || { echo "$id: does not apply"; continue; }
  patch -p1 -s < $S/patch.diff || { echo "$id: patch failed"; continue; }
  find src -name '*.rs' -exec touch {} +
  mkdir -p /tmp/seedlogs; rm -f /tmp/seedlogs/*.log
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seedlogs/1-default.log 2>&1
  cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/seedlogs/2-all-features.log 2>&1
  python3 /opt/vp/results.py /tmp/seed.out.json "cargo:/tmp/seedlogs/*.log" >/dev/null 2>&1
  t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/seed.out.json'))
m=b-set(o.get('passed',[])); print('tests ok' if not m else 'TESTS FAIL %s'%sorted(m)[:3])")
  bash $S/demo.sh >/tmp/seed.$id.bug 2>&1; d=$?
  echo "$id: $t; demo clean=$c bug=$d; $(tail -n 3 /tmp/seed.$id.bug | tr '\n' ' ' | cut -c1-200)"
done
