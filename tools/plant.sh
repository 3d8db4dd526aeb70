#!/bin/bash
# usage: plant.sh ID   -- validate /verif/seeded/ID in a scratch copy: demo passes on clean, fails on
# patched; related stable tests (args after ID, default: tests) pass.  Uses a copy of /repo under /tmp.
id=$1; shift
S=/verif/seeded/$id
W=/tmp/plant_$id
rm -rf "/tmp/plant_$id"; cp -a /repo $W
cd $W && git checkout -q -- . && git apply $S/patch.diff || { echo "PATCH FAILS"; exit 1; }
export PYTHONDONTWRITEBYTECODE=1
(cd /repo && timeout 300 bash $S/demo.sh >/tmp/plant_$id.clean 2>&1); a=$?
(cd $W && PYTHONPATH=$W:$W/ui/sdk/src timeout 300 bash $S/demo.sh >/tmp/plant_$id.pat 2>&1); b=$?
echo "$id demo clean=$a patched=$b"
tail -2 /tmp/plant_$id.pat
if [ "$1" != notest ]; then
  (cd $W && PYTHONPATH=$W timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=120 -W ignore ${@:-tests} 2>&1 | tail -8)
fi
rm -rf "/tmp/plant_$id"
