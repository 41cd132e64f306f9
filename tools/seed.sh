#!/bin/bash
# usage: tools/seed.sh ID...   Confirms planted bugs in a scratch copy of /repo:
# the patch applies, builds and passes the tests; the demo passes without it and fails with it.
set -u
S=/tmp/seedrepo
R=${SEED_REPO:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
if [ ! -d $S ]; then cp -a $R $S; fi
git -C $S fetch -q $R HEAD && git -C $S reset -q --hard FETCH_HEAD
for id in "$@"; do
  d=$V/seeded/$id
  git -C $S checkout -q -- .
  (cd $S && bash $d/demo.sh >/tmp/seed.log 2>&1) || { echo "$id: demo fails on the unchanged tree"; tail -20 /tmp/seed.log; continue; }
  git -C $S apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd $S && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/seed.log 2>&1)
  python3 - <<PY
import re,json
txt=open('/tmp/seed.log').read()
failed=sorted(set(re.findall(r'^test (\S+).*\.\.\. FAILED',txt,re.M)))
passed=len(re.findall(r'\.\.\. ok',txt))
print("$id: tests passed",passed,"failed",failed, "COMPILE ERROR" if 'could not compile' in txt else "")
PY
  if (cd $S && bash $d/demo.sh >/tmp/seed.log 2>&1); then echo "$id: demo does NOT fail with the patch"; else echo "$id: demo fails with the patch, as it should: $(tail -3 /tmp/seed.log | head -2 | tr '\n' ' ')"; fi
  git -C $S checkout -q -- .
done
