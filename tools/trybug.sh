#!/bin/bash
# trybug.sh ID...: applies a planted bug to a copy of /repo, runs the check of its property against that, in a mount
# namespace of its own in which the copies stand in for /repo and /verif. Nothing outside /tmp/try changes.
if [ -z "$TRYBUG_INSIDE" ]; then
  mkdir -p /tmp/try/verif /tmp/try/repo
  rsync -a --delete --exclude /.git --exclude /seeded --exclude /evidence --exclude /replays --exclude /target /verif/ /tmp/try/verif/
  [ -d /tmp/try/verif/target ] || cp -a /verif/target /tmp/try/verif/ 2>/dev/null
  rsync -a --delete --exclude /target /repo/ /tmp/try/repo/
  mkdir -p /tmp/try/verif/seeded /tmp/try/verif/evidence /tmp/try/verif/replays
  rsync -a --delete /verif/seeded/ /tmp/try/seeded/
  TRYBUG_INSIDE=1 exec unshare -m bash "$0" "$@"
fi
mount --bind /tmp/try/repo /repo && mount --bind /tmp/try/verif /verif || exit 3
git -C /repo checkout -q -- .
for id in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/tmp/try/seeded/$id/meta.json'))['property'])")}
  if ! git -C /repo apply /tmp/try/seeded/$id/patch.diff; then echo "$id: DOES NOT APPLY"; continue; fi
  t0=$(date +%s); out=$(timeout 900 bash /verif/check.sh $p ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -c '^VIOLATION')"; [ $rc = 1 ] || echo "$out" | tail -3
  echo "$out" | sed -n 's/^suite \([^:]*\):.*/SUITE \1/p' | head -1
  if [ -n "$SHOW" ]; then echo "$out" | grep -A6 '^VIOLATION' | cut -c1-400 | head -${SHOW}; fi
done
