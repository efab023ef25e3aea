#!/bin/bash
# seedtest.sh [--all-checks] ID...   applies each planted bug to /repo, builds, runs the stable tests, its demo
# and its property's check, and undoes it. For development; leaves /repo as it was.
cd /verif || exit 2
all=0; [ "$1" = --all-checks ] && { all=1; shift; }
trap 'git -C /repo checkout -q -- .' EXIT
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
    d=seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id: does not apply"; continue; }
    (cd /repo && bash /opt/vp/build.sh) >/tmp/seed.build 2>&1; b=$?
    (cd /repo && bash /opt/vp/test.sh /tmp/seed.json) >/tmp/seed.test 2>&1
    t=$(grep -c '^test .*test_write .*ok' /tmp/seed.test)
    (cd /repo && bash /verif/$d/demo.sh) >/tmp/seed.demo.$id 2>&1; m=$?
    [ $all = 1 ] && props=$(seq -f C%02g 1 34) || props=$prop
    out=
    for p in $props; do
        s=$(date +%s); ./run.sh $p >/tmp/seed.check.$id.$p 2>&1; c=$?; e=$(date +%s)
        [ $c -ne 0 ] && out="$out $p:$c($((e-s))s)"
    done
    git -C /repo checkout -q -- .
    (cd /repo && bash /verif/$d/demo.sh) >/tmp/seed.demo0.$id 2>&1; m0=$?
    echo "$id [$prop] build=$b stable=$t demo_with=$m demo_without=$m0 caught:${out:- NOT}"
done
