#!/bin/bash
# tools/catch.sh ID...: runs the quick check of the planted bug's property against it, on copies bound over /repo and
# /verif in a mount namespace of its own
cd "$(dirname "$0")/.."
if [ -z "$VH_NS" ]; then
  d=$(mktemp -d /tmp/catch.XXXXXX)
  mkdir "$d/verif" "$d/verif/build"
  git clone -q /repo "$d/repo"
  for f in *; do [ "$f" = build ] || [ "$f" = evidence ] || cp -a "$f" "$d/verif/"; done
  mkdir -p "$d/verif/evidence"
  cp -a .git "$d/verif/.git" 2>/dev/null
  for t in target-ir-d target-ir-r target-native; do [ -d build/$t ] && cp -a build/$t "$d/verif/build/"; done
  VH_NS=1 unshare -m bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && bash tools/catch.sh $*"
  rm -r "$d"
  exit
fi
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
  s=$(date +%s)
  timeout 900 python3 check.py "${CHECK:-$p}" --tier quick > /tmp/catch.$i.out 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$i rc=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/catch.$i.out | cut -c1-150)"
done
