#!/bin/bash
# mkseed.sh <id> <property> <needs> <what>: takes the uncommitted change of /repo as the patch and stdin as main.rs of the demo
V=${VROOT:-/verif}; R=${RROOT:-/repo}; d=$V/seeded/$1; mkdir -p $d
git -C $R diff > $d/patch.diff; git -C $R checkout -- .
cp $V/tools/demo_template.sh $d/demo.sh
cat > $d/main.rs
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f'{__import__("os").environ.get("VROOT","/verif")}/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
P
wc -l $d/patch.diff
