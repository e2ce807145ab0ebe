#!/bin/bash
# sweep.sh [-j N] [-p "PROP..."] [seed...]: runs the quick check of each planted bug's property (or of the
# given properties) with the bug applied; each worker has private copies of /repo and /verif mounted over them
J=3; props=
while [ "${1#-}" != "$1" ]; do case $1 in -j) J=$2;; -p) props=$2;; esac; shift 2; done
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/sweep.XXXXXX)
trap 'chmod -R u+w "$W"; find "$W" -delete' EXIT
[ $# = 0 ] && set -- $(ls $V/seeded)
printf '%s\n' "$@" > $W/list
worker() {
  mkdir -p $W/$1; cp -a /repo $W/$1/repo
  mkdir $W/$1/verif; (cd $V && tar cf - --exclude=./out --exclude=./.git .) | tar xf - -C $W/$1/verif
  awk "NR % $J == $1" $W/list > $W/$1/list
  unshare -m bash -c '
    mount --bind '$W/$1/repo' /repo && mount --bind '$W/$1/verif' /verif && cd /verif || exit 9
    while read id; do
      d=/verif/seeded/$id
      ps="'"$props"'"; [ "$ps" ] || ps=$(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])")
      git -C /repo apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
      for p in $ps; do
        t=$(date +%s); out=$(VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $p quick 2>&1); rc=$?
        echo "$id $p rc=$rc $(( $(date +%s)-t ))s $(echo "$out" | grep -A1 -m1 "VIOLATION property=$p" | tail -1 | cut -c1-160) $( [ $rc = 1 ] || echo "$out" | tail -2 | tr "\n" " ")"
      done
      git -C /repo apply -R $d/patch.diff
    done' < $W/$1/list
}
for i in $(seq 0 $((J-1))); do worker $i & done; wait
