#!/bin/bash
# Authoring aid: catch.sh ID [PROP]: does the property's quick check report the bug? (scratch copy, VERIF_REPO)
id=$1; s=/verif/seeded/$id
prop=${2:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
w=$(mktemp -d /tmp/catch.XXXXXX); trap 'rm -r -- "$w"' EXIT
git clone -q --shared /repo "$w/r" && cd "$w/r" && git apply "$s/patch.diff" || exit 3
cp -r /verif "$w/v"
VERIF_REPO="$w/r" python3 "$w/v/run.py" $prop quick > "$w/o" 2>&1; rc=$?
python3 - "$w/v/evidence/$prop.json" >> "$w/o" <<EOP
import json,sys
d=json.load(open(sys.argv[1]))["coverage"]
for o in d["undecided_obligations"][:3]: print("  undecided: %s %s"%(o["obligation"],o["detail"][:150]))
EOP
echo "$id $prop rc=$rc $(grep -m1 -A1 violated: "$w/o" | tr '\n' ' ' | cut -c1-200) $(grep -c "violated:" "$w/o") $(grep undecided: "$w/o" | head -3 | cut -c1-250)"
