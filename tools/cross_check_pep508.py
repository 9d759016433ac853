import sys, json
from packaging.markers import Marker, InvalidMarker, UndefinedComparison, UndefinedEnvironmentName
n=bad=0
for l in sys.stdin:
    d=json.loads(l); n+=1
    try:
        m=Marker(d["m"])
        try: r="T" if m.evaluate(d["env"]) else "F"
        except UndefinedComparison: r="Err"
        except UndefinedEnvironmentName: r="Err"
    except InvalidMarker: r="malformed"
    if d["w"]!="Unknown" and r!=d["w"]:
        bad+=1
        if bad<40: print(r,d["w"],repr(d["m"]),{k:v for k,v in d["env"].items() if k in d["m"]})
print(n,bad)
