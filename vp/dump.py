"""debug helper: python3 -m vp.dump FACTS name-suffix"""
import sys
from .facts import *
def pl(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        if e == "*": s = "(*%s)" % s
        elif e[0] == ".": s += ".%s" % e[1]
        elif e[0] == "@": s += "@%s" % e[1]
        elif e[0] == "[]": s += "[_%d]" % e[1]
        else: s += str(e)
    return s
def op(b, o):
    if "p" in o: return ("mv " if o["k"] == "m" else "") + pl(o["p"])
    if "fn" in o: return "fn:" + (o["fn"].get("res") or o["fn"]["n"])
    for k in ("s", "i", "b"):
        if k in o: return "%r" % (o[k],)
    if "prom" in o: return "prom"
    if "path" in o: return "const " + str(o["path"])
    return "?%s" % b.tys[o["ty"]].s if "ty" in o else str(o)
def rv(b, r):
    k = r["k"]
    o = ", ".join(op(b, x) for x in r.get("o", []))
    if k == "agg": return "agg %s %s(%s)" % (r["g"], r.get("v") or r.get("d"), o)
    return "%s %s %s %s" % (k, r.get("b", ""), pl(r["p"]) if "p" in r else "", o)
def show(b):
    print("==", b.id, b.name, b.kind, "argc", b.argc, b.file, b.line)
    for i, t in enumerate(b.ltys): print("   _%d %s: %s" % (i, b.lnames[i] or "", t.s))
    for i, bb in enumerate(b.bbs):
        if bb["t"]["k"] == "cleanup" : continue
        print(" bb%d:" % i)
        for s in bb["s"]:
            if s["k"] == "=": print("    %s = %s" % (pl(s["p"]), rv(b, s["r"])))
        t = bb["t"]; k = t["k"]
        if k == "call":
            f = t["f"].get("fn")
            print("    %s = %s(%s) -> %s  L%s %s" % (pl(t["d"]), (f.get("res") or f["n"]) + (" <%s>" % b.tys[f["self"]].s if "self" in f else "") if f else op(b, t["f"]), ", ".join(op(b, a) for a in t["args"]), t.get("to"), t.get("l"), t.get("x", "")))
        elif k == "switch": print("    switch %s %s -> %s" % (op(b, t["o"]), t["v"], t["to"]))
        elif k == "drop": print("    drop %s -> %s" % (pl(t["p"]), t["to"]))
        else: print("    %s -> %s" % (k, t.get("to")))
if __name__ == "__main__":
    p = Program(sys.argv[1])
    for n in sys.argv[2:]:
        for b in p.bodies.values():
            if (b.name.endswith(n) or b.id.endswith(n) or n in b.id): show(b)
