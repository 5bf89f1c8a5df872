#!/bin/bash
# bugtests.sh ID... : stable tests with each patch, in a scratch copy built like /opt/vp/build.sh
cat /opt/vp/build.sh >/dev/null
for id in "$@"; do cd /repo && git apply /verif/seeded/$id/patch.diff && bash /opt/vp/build.sh >/tmp/bt.log 2>&1; echo "$id build $?"; bash /opt/vp/test.sh /tmp/bt.json | tail -1; git checkout -- .; done
bash /opt/vp/build.sh >/tmp/bt.log 2>&1
