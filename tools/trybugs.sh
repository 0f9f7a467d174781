#!/bin/bash
# trybugs.sh [id...]: run the check of its property against every seeded bug, on a scratch copy (VERIF_REPO)
here=$(dirname "$(dirname "$(realpath "$0")")")
ids=${*:-$(ls "$here/seeded")}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  t=$(mktemp -d); git clone -q /repo "$t/w"; git -C "$t/w" apply "$here/seeded/$id/patch.diff" || echo "does not apply"
  o=$(cd "$here" && VERIF_REPO="$t/w" python3-vt check.py "$p" quick 2>&1); rc=$?
  printf '%-28s %s rc=%s %s | %s\n' "$id" "$p" "$rc" "$(grep -o 'VIOLATION.*' <<<"$o" | sed 's#replay=/verif/replays/##')" "$(grep -c '^not proved' <<<"$o") not proved: $(grep -m1 '^not proved' <<<"$o" | cut -c1-110)"
  rm -rf "$t"
done
