#!/bin/bash
# usage: seedrun.sh [ID...] -- run the owning check against each seeded bug, on /repo, undoing it afterwards
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  p=$(/usr/bin/python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || continue
  out=$(./run.sh $p 2>/dev/null); rc=$?
  git -C /repo checkout -q -- .
  echo "$i rc=$rc $(echo "$out" | grep -m3 'key=' | tr '\n' ' ' | cut -c1-200)"
done
