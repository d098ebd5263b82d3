#!/bin/bash
# tools/tryseed.sh ID...   run the check of each planted bug on a patched
# scratch copy of /repo, and say whether it was caught
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    sc=$(mktemp -d /tmp/tryseed.XXXXXX)
    cp -a /repo/. "$sc"
    git -C "$sc" checkout -q -- .
    git -C "$sc" apply "$here/seeded/$id/patch.diff" || echo "$id: does not apply"
    p=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")
    s=$(date +%s)
    VERIF_REPO=$sc bash "$here/run.sh" "$p" quick > "$sc/.out" 2>&1
    rc=$?
    echo "$id $p rc=$rc $(($(date +%s) - s)) s $(grep -m1 VIOLATION "$sc/.out")"
    rm -rf "$sc"
done
