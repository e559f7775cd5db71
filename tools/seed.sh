#!/bin/bash
# usage: seed.sh <id>... : validates planted changes in a scratch copy (applies, builds, stable test, demo clean=0, demo patched!=0)
# then applies each to /repo, runs the quick check of its property, and undoes it.
V=/verif; W=/tmp/seedwt
. /opt/vp/env.sh
for id in "$@"; do
  S=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  rm -rf /tmp/seedwt; mkdir /tmp/seedwt; (cd /repo && git archive HEAD | tar -x -C /tmp/seedwt); cp -a /repo/target /tmp/seedwt/target 2>/dev/null
  cp -r $S /tmp/seeddir.$$; rm -f /tmp/seeddir.$$/patch.diff /tmp/seeddir.$$/meta.json
  if [ -z "$NOVAL" ]; then
  (cd $W && bash /tmp/seeddir.$$/demo.sh >/tmp/seed.clean 2>&1); c=$?
  (cd $W && git init -q . && git apply $S/patch.diff) || echo "$id: DOES NOT APPLY"
  (cd $W && cargo test --offline --lib >/tmp/seed.test 2>&1); grep -q "calculate_keplerian_orbital_elements ... ok" /tmp/seed.test && t=ok || t=FAILED
  (cd $W && bash /tmp/seeddir.$$/demo.sh >/tmp/seed.bad 2>&1); p=$?
  echo "$id: demo clean=$c patched=$p tests=$t | $(tail -1 /tmp/seed.clean) | $(tail -1 /tmp/seed.bad)"
  fi
  rm -rf /tmp/seedwt /tmp/seeddir.$$
  [ -n "$NOCHK" ] && continue
  git -C /repo apply $S/patch.diff || continue
  for q in ${PROPS:-$prop}; do
  o=$(cd $V && timeout 900 bash run.sh $q quick 2>&1); r=$?
  echo "  check $q rc=$r: $(echo "$o" | grep -c ^VIOLATION) violations; $(echo "$o" | grep '^law' | cut -c1-110 | tr '\n' ';')"
  done
  git -C /repo checkout -- .
done
rm -f $V/replays/*
