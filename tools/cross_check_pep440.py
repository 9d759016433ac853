#!/opt/veriftools/pyvenv/bin/python3
"""Development aid: compare the Rust PEP 440 reference used by C09/C10 with Python's
`packaging`, on generated cases (posy-checks dump-pep440). Not part of any check."""
import json, sys, collections
from packaging.specifiers import SpecifierSet, InvalidSpecifier
from packaging.version import Version
bad = collections.Counter(); ex = {}; n = 0; opn=0
for line in sys.stdin:
    d = json.loads(line); n += 1
    v = Version(d["v"])
    if str(Version(d["canon"])) != str(v): bad["canon"] += 1; ex["canon"] = d
    try:
        s = SpecifierSet(d["spec"]); legal = True
    except InvalidSpecifier:
        legal = False
    if d["legal"] is not None and d["legal"] != legal: bad["legal"] += 1; ex.setdefault("legal", d)
    if d["in"] is None: opn += 1; continue
    if not legal: continue
    got = s.contains(v, prereleases=True)
    if got != d["in"]:
        k = "in " + d["spec"][:2]; bad[k] += 1; ex.setdefault(k, []).append((d["spec"], d["v"], d["in"], got))
print(n, "open", opn, bad); 
for k, e in ex.items(): print(k, e[:5] if isinstance(e, list) else e)
