"""show a replay file: commands of the rejected history with the text of files"""
import json,sys
b=json.load(open(sys.argv[1]))
for c,e in zip(b["commands"],b["events"]):
    print(c["op"],{k:v for k,v in c.items() if k not in("op","v","x","w")},"->",json.dumps(e["r"])[:300])
    if "x" in c: print(c["x"][:int(sys.argv[2]) if len(sys.argv)>2 else 1500])
