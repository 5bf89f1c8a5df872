#!/bin/bash
# newbug.sh ID : takes the diff of /tmp/bug (a scratch copy of /repo) as seeded/ID/patch.diff and copies the demo kit beside it
set -e
D=/verif/seeded/$1; mkdir -p $D; git -C /tmp/bug diff > $D/patch.diff
cp -r /verif/tools/demokit/{kit.sh,demolib.py,stub} $D/
