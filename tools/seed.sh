#!/bin/bash
# usage: seed.sh <id> <property> "<needs>" "<what>"   with the change made in /tmp/wt (a copy of /repo); stores patch, checks that it builds, passes the tests and that demo.sh separates
set -e
id=$1; prop=$2; needs=$3; what=$4
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
python3 - "$d" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
