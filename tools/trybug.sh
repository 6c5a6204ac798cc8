#!/bin/bash
# trybug.sh ID [PROP...]: apply a planted bug to /repo, build, run the stable tests, its demo and the checks, and undo it.
id=$1; shift; d=/verif/seeded/$id; props="$@"
[ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
git -C /repo apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/tb.log; exit 2; }
bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1
python3 -c "import json;o=json.load(open('/tmp/tb.json'));print('tests passed',len(o['passed']),'failed',o['failed'][:5])"
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1); echo "demo with bug: $? (want nonzero): $(tail -1 /tmp/demo1.log)"
for p in $props; do (cd /verif && python3 sim/run.py $p quick | grep -v "^note" | tail -4); done
undo
bash /opt/vp/build.sh >/tmp/tb.log 2>&1
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo0.log 2>&1); echo "demo without bug: $? (want 0)"
