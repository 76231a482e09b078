#!/bin/bash
# catch.sh [-t] [ID...]: runs, for each planted bug, its property's check with the bug applied. /repo and /verif are left alone:
# the check sees copies of both, bound over them in a mount namespace of its own.
tier=quick; [ "$1" = -t ] && { tier=thorough; shift; }
if [ -z "$CATCH_INSIDE" ]; then
    w=$(mktemp -d /tmp/catch.XXXXXX) || exit 2
    trap 'rm -rf "$w"' EXIT
    git clone -q /repo "$w/repo" && mkdir "$w/verif" && cd /verif && cp -a run.sh known_findings.txt mc il tools seeded .build evidence properties.jsonl MANIFEST.json "$w/verif/" || exit 2
    cp /repo/Cargo.lock "$w/repo/" 2>/dev/null
    CATCH_INSIDE=1 unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && exec bash tools/catch.sh "$@"' "$w" $([ $tier = thorough ] && echo -t) "$@"
    exit
fi
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
    p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
    s=$SECONDS
    out=$(timeout 890 bash run.sh "$p" $tier 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "VIOLATION property=$p " <<<"$out"; then v=caught; else v=MISSED; fi
    echo "$id $p rc=$rc $v $((SECONDS - s))s"
    [ $v = caught ] || tail -3 <<<"$out"
done
