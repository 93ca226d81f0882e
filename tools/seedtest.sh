#!/bin/bash
# tools/seedtest.sh <seed id>... : confirm in a scratch copy of /repo that each planted bug builds, passes the tests and is
# shown by its demonstration, and run its property's check against it (from a copy of /verif, on the changed tree)
cd "$(dirname "$0")/.." || exit 1
V=$(pwd)
W=/tmp/seedwork
[ "$#" = 0 ] && set -- $(ls seeded)
for id in "$@"; do
    D=$V/seeded/$id
    P=$(python3 -c "import json,sys; print(json.load(open('$D/meta.json'))['property'])")
    rm -rf -- /tmp/seedwork
    mkdir -p $W; cp -a /repo $W/repo
    cd $W/repo || exit 1
    r=""
    if ! git apply "$D/patch.diff"; then echo "$id: does not apply"; continue; fi
    if [ -z "${NOTEST:-}" ]; then
        git checkout -q -- . ; bash "$D/demo.sh" > $W/d0 2>&1; a=$?
        git apply "$D/patch.diff"
        bash "$D/demo.sh" > $W/d1 2>&1; b=$?
        CARGO_NET_OFFLINE=true cargo test --workspace --offline > $W/t 2>&1; t=$?
        r="demo $a/$b tests $t"
        [ $a = 0 ] || tail -5 $W/d0
        tail -3 $W/d1
    fi
    cd "$V"
    VERIF_DEV_REPO=$W/repo VERIF_DEV_CACHE=/tmp/seedcache VERIF_DEV_EVIDENCE=$W/ev timeout 900 ./check $P > $W/c 2>&1; c=$?
    echo "$id [$P]: $r check $c"
    head -4 $W/c | cut -c1-300
done
rm -rf -- /tmp/seedwork
