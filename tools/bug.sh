#!/bin/bash
# Development helper for planted bugs (not used by any check).
#   bug.sh new               fresh scratch copy of /repo in /tmp/bug/repo
#   bug.sh test ID           test the edited copy: stable tests + seeded/ID/demo.sh with and without the change; writes patch.diff
#   bug.sh check ID PROP...  run checks against a copy with seeded/ID/patch.diff applied
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
case "$1" in
new) rm -rf /tmp/bug/repo; mkdir -p /tmp/bug; git -C /repo worktree prune; cp -a /repo /tmp/bug/repo; cd /tmp/bug/repo && git checkout -q -- . ;;
test)
  id=$2; d=$V/seeded/$id; mkdir -p $d
  cd /tmp/bug/repo && git diff > $d/patch.diff
  [ -s $d/patch.diff ] || { echo "no change"; exit 1; }
  . /opt/vp/env.sh
  PYTHONPATH=/tmp/bug/repo/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --basetemp=/tmp/bug/tmp --junitxml=/tmp/bug/junit.xml >/tmp/bug/log 2>&1
  tail -1 /tmp/bug/log
  /opt/venv/bin/python - <<'P'
import json, xml.etree.ElementTree as ET
base=json.load(open('/opt/vp/BASELINE.json'))
names=base if isinstance(base,list) else base.get('passed') or base.get('stable') or list(base)
failed=[(t.get('classname'),t.get('name')) for t in ET.parse('/tmp/bug/junit.xml').getroot().iter('testcase') if t.find('failure') is not None or t.find('error') is not None]
known={'test_passband_group_ztf_preset','test_sncomso_models_hsiao','test_sncomso_models_hsiao_t0','test_noise_calculation','test_roman_obstable_init','test_calculate_skynoise','test_salt2_model_parity','test_sncomso_models_set','test_sncomso_models_chained','test_snia_end2end'}
new=[f for f in failed if f[1] not in known]
print('TESTS', 'OK' if not new else 'NEW FAILURES %s'%new)
P
  (cd /repo && PYTHONPATH=/repo/src bash $d/demo.sh >/tmp/bug/demo0 2>&1); echo "demo unchanged: $?"
  (cd /tmp/bug/repo && PYTHONPATH=/tmp/bug/repo/src bash $d/demo.sh >/tmp/bug/demo1 2>&1); echo "demo patched: $?"; tail -3 /tmp/bug/demo1 ;;
check)
  id=$2; shift 2
  rm -rf /tmp/bug/chk; mkdir -p /tmp/bug; cp -a /repo /tmp/bug/chk && cd /tmp/bug/chk && git checkout -q -- . && git apply $V/seeded/$id/patch.diff || exit 1
  for p in "$@"; do VERIF_REPO=/tmp/bug/chk $V/check.sh $p > /tmp/bug/out.$p 2>&1; echo "$id $p rc=$? $(grep -m1 clause: /tmp/bug/out.$p | cut -c1-200)"; done ;;
esac
