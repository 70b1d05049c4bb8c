#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS : makes /verif/seeded/ID from the working changes in /tmp/edit and /tmp/main.rs
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/edit diff > $D/patch.diff
sed "s/@ID@/$1/g" /verif/tools/demo/demo.sh > $D/demo.sh
cp /tmp/main.rs $D/main.rs
python3 - "$@" <<'P' > $D/meta.json
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
git -C /tmp/edit checkout -q -- .
wc -l $D/patch.diff
