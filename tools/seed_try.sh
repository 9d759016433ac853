#!/bin/bash
# tools/seed_try.sh SEED...: confirm planted bugs and see whether their checks catch them.
# Works on copies of /repo and /verif in a mount namespace of its own.
if [ "$1" != --inside ]; then
    mkdir -p /tmp/s/repo /tmp/s/verif
    rsync -a --delete /repo/ /tmp/s/repo/
    rsync -a --exclude .git --exclude evidence /verif/ /tmp/s/verif/
    exec unshare -m bash -c 'mount --bind /tmp/s/repo /repo && mount --bind /tmp/s/verif /verif && exec /verif/tools/seed_try.sh --inside "$@"' x "$@"
fi
shift
t() {
    bash /opt/vp/build.sh >/tmp/seed.b 2>&1 || { tail -20 /tmp/seed.b; return 1; }
    bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
    python3 -c "import json,sys;o=json.load(open('/tmp/seed.json'))['passed'];print(o);sys.exit((o if isinstance(o,int) else len(o))!=42)"
}
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
    t0=$SECONDS
    (cd /repo && bash "$d/demo.sh") >/tmp/seed.clean 2>&1; rc0=$?
    git -C /repo apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
    t >/tmp/seed.tests 2>&1; rct=$?
    (cd /repo && bash "$d/demo.sh") >/tmp/seed.bad 2>&1; rc1=$?
    out=$(/verif/bin/check "$prop" quick 2>&1); rcc=$?
    git -C /repo checkout -q -- .
    echo "$id [$prop]: demo clean=$rc0 bad=$rc1 tests=$rct check=$rcc $(echo "$out" | grep -c '^VIOLATION') violations ($((SECONDS-t0)) s)"
    [ $rc0 = 0 ] || tail -12 /tmp/seed.clean
    [ $rc1 = 0 ] && tail -5 /tmp/seed.bad
    [ $rc1 = 99 ] && tail -15 /tmp/seed.bad
    [ $rct = 0 ] || tail -5 /tmp/seed.tests
    [ $rcc = 1 ] && echo "$out" | grep -A1 '^VIOLATION' | grep '^  ' | cut -c1-160 | head -3 || echo "$out" | tail -3 | cut -c1-300
done
