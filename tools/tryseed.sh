#!/bin/bash
# tryseed.sh [-t] ID [CHECK...]: demo on clean and patched tree, optional stable tests (-t), then the checks on the patched tree
T=0; [ "$1" = -t ] && { T=1; shift; }
ID=$1; shift; S=/verif/seeded/$ID
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash $S/demo.sh >/tmp/demo_clean.log 2>&1; echo "$ID demo clean: $?"
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash $S/demo.sh >/tmp/demo_bug.log 2>&1; echo "$ID demo bug: $?"
[ $T = 1 ] && { bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; echo "$ID tests: $(cat /tmp/t.json | tr -d '\n')"; }
for c in ${@:-$P}; do cd /verif; bin/check $c > /tmp/check.log 2>&1; echo "$ID $c exit $? $(grep -c VIOLATION /tmp/check.log) $(grep -m1 VIOLATION: /tmp/check.log | cut -c1-200)"; done
