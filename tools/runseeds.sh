#!/bin/bash
# runseeds.sh [id ...]: runs the check of the property of each planted bug against a scratch copy with the bug (VERIF_REPO);
# records the laws that report it in tools/caught.json
cd "$(dirname "$0")/.." || exit 1
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  rm -rf "$W/repo"; cp -a "${BASE_REPO:-/repo}" "$W/repo"
  git -C "$W/repo" apply --whitespace=nowarn "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  t0=$(date +%s)
  out=$(VERIF_REPO=$W/repo ./check.sh $p quick 2>&1); rc=$?
  laws=$(echo "$out" | grep -o '^law [a-z_A-Z0-9]*' | sed 's/law //' | tr '\n' ' ')
  echo "$d $p rc=$rc $(($(date +%s)-t0))s $(echo "$out" | grep -c '^VIOLATION') $laws"
  python3 - "$d" "$p" "$rc" "$laws" <<'P'
import json, os, sys
f = "tools/caught.json"
j = json.load(open(f)) if os.path.exists(f) else {}
j[sys.argv[1]] = "%s: %s" % (sys.argv[2], sys.argv[4].strip().replace(" ", ", ")) if sys.argv[3] == "1" else "not caught"
j = {k: v for k, v in j.items() if os.path.isdir("seeded/"+k)}
json.dump(j, open(f, "w"), indent=1, sort_keys=True)
P
  [ -n "$V" ] && echo "$out" | tail -20
done
