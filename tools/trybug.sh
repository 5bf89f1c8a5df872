#!/bin/bash
# trybug.sh ID [check...] : demo on clean and patched scratch copies, unit tests on the patched one, then the checks on /repo patched
id=$1; shift; D=/verif/seeded/$id
rm -rf /tmp/fgbug; cp -a /repo /tmp/fgbug; cd /tmp/fgbug
bash $D/demo.sh > /tmp/demo0.log 2>&1; echo "demo clean: $? (want 0)"; tail -2 /tmp/demo0.log
git apply $D/patch.diff || exit 1
bash $D/demo.sh > /tmp/demo1.log 2>&1; echo "demo patched: $? (want !=0)"; tail -2 /tmp/demo1.log
rm -rf /tmp/fgbug
[ -n "$1" ] || exit 0
cd /repo && git apply $D/patch.diff || exit 1
for c in "$@"; do (cd /verif; VERIF_TIER=${TIER:-quick} VERIF_SEED=1 python3-vt checks/$c.py 2>&1 | grep -E "VIOLATION|OK|KNOWN|ERROR|Error" | head -3; echo "$c exit ${PIPESTATUS[0]}"); done
git -C /repo checkout -- .
