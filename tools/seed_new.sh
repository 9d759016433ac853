#!/bin/bash
# tools/seed_new.sh ID PROPERTY "needs" "what it breaks" <<< python edits (using sub(file, old, new))
# then put demo.rs (or your own demo.sh) into /verif/seeded/ID.
set -e
id=$1; d=/verif/seeded/$id; mkdir -p "$d"
w=/tmp/seedrepo; rm -rf /tmp/seedrepo; git clone -q --shared /repo $w
cd $w
{ cat <<'P'
def sub(f, a, b, n=1):
    s = open(f).read()
    assert s.count(a) == n, (f, a, s.count(a))
    open(f, "w").write(s.replace(a, b))
P
cat; } | python3 - 
git diff > "$d/patch.diff"
python3 - "$@" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(f"/verif/seeded/{sys.argv[1]}/meta.json", "w"), indent=1)
P
cp /verif/tools/demokit/kit.sh "$d/kit.sh"
printf '#!/bin/bash\n. "$(dirname "$0")/kit.sh"\n' > "$d/demo.sh"
