#!/bin/bash
# Reverts each recorded fix in a scratch copy and checks that its property's check reports it. (development aid)
wt=/tmp/revfix_wt; rm -rf /tmp/revfix_wt; git clone -q /repo $wt
for ent in /repo/*; do b=$(basename $ent); [ -e $wt/$b ] || ln -s $ent $wt/$b; done
for ent in /repo/.[a-z]*; do b=$(basename $ent); [ -e $wt/$b ] || ln -s $ent $wt/$b; done
python3 -c "
import json
for f in json.load(open('/verif/known_findings.json'))['findings']:
    w=f['what'].split(); print(w[1].split('=')[1], w[2])" | while read p h; do
  [ -n "$1" ] && [ "$1" != "$p" ] && continue
  git -C $wt checkout -q -f master 2>/dev/null || git -C $wt checkout -q -f HEAD
  git -C $wt show $h | git -C $wt apply -R || { echo "$p $h does not revert"; continue; }
  VERIF_REPO=$wt VERIF_OUT=/tmp/revfix_ev timeout 600 python3 /verif/sa/check.py $p > /tmp/revfix.out 2>&1; echo "$p $h rc=$? $(grep -c VIOLATION /tmp/revfix.out) $(git -C $wt log -1 --format=%s $h)"
done
rm -rf /tmp/revfix_wt
