#!/bin/bash
# seedcheck.sh ID [CHECK...]: run the checks (the bug's own by default) on a scratch copy with the planted bug
id=$1; shift
d=$(mktemp -d /tmp/seedck_XXXX); cp -a /repo "$d/repo"
git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" || exit 9
checks=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for c in $checks; do
  YARGY_REPO="$d/repo" timeout 900 python3-vt /verif/symex/run.py "$c" --no-evidence > "$d/$c.log" 2>&1
  echo "$id $c rc=$? violations=$(grep -c ^VIOLATION "$d/$c.log") $(grep -m1 -A3 ^VIOLATION "$d/$c.log" | tr '\n' ' ' | cut -c1-220) | $(tail -1 "$d/$c.log" | cut -c1-160)"
done
rm -rf "$d"
