#!/bin/bash
# mk.sh ID PROPERTY NEEDS BREAKS: takes the diff in /tmp/scratch/edit (a worktree of /repo) as planted bug ID;
# main.rs from /tmp/bugs/ID.rs.
id=$1; t=/verif/seeded/$id; mkdir -p "$t"
git -C /tmp/scratch/edit diff > "$t/patch.diff"
git -C /tmp/scratch/edit checkout -q -- .
cp /verif/tools/bugkit/demo.sh "$t/"; cp /tmp/bugs/$id.rs "$t/main.rs"; for m in raw cli; do grep -q "mod $m" "$t/main.rs" && cp /verif/tools/bugkit/$m.rs "$t/"; done; [ -f /tmp/bugs/$id.toml ] && cp /tmp/bugs/$id.toml "$t/Demo.toml" || cp /verif/tools/bugkit/Demo.toml "$t/"
python3 - "$@" > "$t/meta.json" <<P
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
wc -l "$t/patch.diff"
