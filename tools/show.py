#!/usr/bin/env python3
"""show.py KIND [N] [FILE]: merged packet trace of a recorded problem"""
import json, sys
k = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 0
d = json.load(open(sys.argv[3] if len(sys.argv) > 3 else "/tmp/scn.json"))
sd, text, rep = d[k][n]
print(sd, text[:1500])
if not rep: sys.exit()
print(rep.get("config", ""))
if "log" not in rep: sys.exit()
ev = []
def s(x): 
    t = json.dumps(x); return t[:150]
for seq, cmd, mac, repl in rep["log"]:
    ev.append((seq, "MTA  > " + s(cmd) + (" macros " + s(mac) if mac else "")))
    for q, r in repl: ev.append((q, "MTA  <      " + s(r)))
for c in rep["children"]:
    ev.append((0, "%s offer %s answer %s closed by %s" % (c["name"], c["offer"], c["answer"], c["closed"])))
    for seq, cmd, mac, repl, f in c["log"]:
        ev.append((seq, "   %s > %s %s" % (c["name"], s(cmd), "macros " + s(mac) if mac else "")))
        for q, r in repl: ev.append((q, "   %s <     %s" % (c["name"], s(r))))
        if f: ev.append((seq + .5, "   %s fault %s" % (c["name"], f)))
print("MTA offer", rep["plan"]["opt"], {k: rep["plan"][k] for k in ("connect", "helo", "end")})
for q, t in sorted(ev): print(q, t)
