#!/bin/bash
# trybug.sh ID [PROP]: run the check of the bug's property against a scratch copy with the bug
. /verif/env.sh
for id in $1; do
p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
w=$(mktemp -d /tmp/tryXXXXXX)
cp -a /repo "$w/repo"; cd "$w/repo" && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff || exit 2
mkdir -p "$w/home/bin"; cp /verif/bin/gvc "$w/home/bin/"; cp -r ${CONTRACTS:-/verif/contracts} /verif/replay "$w/home/"; cp /verif/*.txt "$w/home/" 2>/dev/null
GVC_REPO="$w/repo" GVC_HOME="$w/home" VERIF_SEED=1 "$w/home/bin/gvc" check -prop $p | tail -${LINES_OUT:-4}
echo "$id ($p): exit ${PIPESTATUS[0]}"
[ -n "$SHOW" ] && tail -30 "$w/home/work/replay/$p.txt"
find "$w" -delete
done
