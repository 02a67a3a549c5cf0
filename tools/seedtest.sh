#!/bin/bash
# seedtest.sh ID...: demo on the unchanged tree, then build + demo + check with the planted change (in /repo, undone afterwards)
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; test -z "$(git status --porcelain)" || { echo "/repo is not clean"; exit 1; }
  a=skip; if [ -z "$NODEMO" ]; then cp -r $d /tmp/seeddemo.$$; bash /tmp/seeddemo.$$/demo.sh >/tmp/seed.clean.log 2>&1; a=$?; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=skip; t=skip; if [ -z "$NODEMO" ]; then bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.build.log 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/seed.json'));print(len(d['passed']),len(d['failed']))")
  bash /tmp/seeddemo.$$/demo.sh >/tmp/seed.bug.log 2>&1; b=$?; rm -rf /tmp/seeddemo.$$; fi
  (cd /verif; python3 tools/run.py $p quick >/tmp/seed.check.log 2>&1); c=$?
  git -C /repo checkout -- .
  echo "$id $p: demo clean=$a bug=$b tests=$t check=$c $(grep -m1 -A1 VIOLATION /tmp/seed.check.log | tail -1 | cut -c1-150)"
done
if [ -z "$NODEMO" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
