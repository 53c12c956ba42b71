#!/bin/bash
# Runs the quick check of planted bugs' own properties (or of the properties given) with the bug applied to a
# private copy of /repo, laid over /repo in a mount namespace together with a copy of /verif's working tree.
#   try.sh [-p "C01 C02"] [-t thorough] [ID|PATCHFILE...]
props=
tier=quick
while :; do
    case $1 in
    -p) props=$2; shift 2 ;;
    -t) tier=$2; shift 2 ;;
    *) break ;;
    esac
done
if [ -z "$TRY_INNER" ]; then
    verif=$(cd "$(dirname "$0")/../.." && pwd)
    work=$(mktemp -d /tmp/try.XXXXXX)
    trap 'find "$work" -delete' EXIT
    mkdir "$work/repo" "$work/verif"
    (cd /repo && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C "$work/repo"
    (cd "$work/repo" && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm base)
    cp -a "$verif/." "$work/verif/"
    [ $# = 0 ] && set -- $(ls "$verif/seeded")
    TRY_INNER=$work unshare -rm bash "$work/verif/tools/plant/try.sh" -p "$props" -t "$tier" "$@"
    exit
fi
mount --bind "$TRY_INNER/repo" /repo && mount --bind "$TRY_INNER/verif" /verif || exit 2
cd /verif
for id; do
    patch=/verif/seeded/$id/patch.diff
    [ -f "$patch" ] || patch=$id
    git -C /repo apply "$patch" || { echo "BAD $id"; continue; }
    p=$props
    [ -n "$p" ] || p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "/verif/seeded/$id/meta.json")
    for q in $p; do
        s=$(date +%s)
        out=$(VERIF_SEED=1 VERIF_TIER=$tier bash /verif/check.sh $q $tier 2>&1)
        rc=$?
        echo "$id $q rc=$rc $(($(date +%s) - s))s $(grep -m1 '^VIOLATION' <<<"$out") | $(grep -v '^VIOLATION\|^minimised' <<<"$out" | head -n 1 | cut -c1-200) | $(tail -n 1 <<<"$out" | cut -c1-120)"
    done
    git -C /repo checkout -q -- .
done
