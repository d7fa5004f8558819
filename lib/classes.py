"""The character class tables of libre, read out of the compiled constant initialisers."""
import os, json, subprocess
import vbuild
from vbuild import Broken

def globals_of(ctx, want):
    b = vbuild.bitcode(os.path.join(ctx.tmp, "bc"), want)
    bc = vbuild.link(sorted(b.values()), os.path.join(ctx.tmp, "l.bc"))
    out = os.path.join(ctx.tmp, "globals.json")
    subprocess.check_call([vbuild.tool("irglobals"), bc, out])
    return json.load(open(out)), bc

def rng(s):
    o = []
    for x in sorted(s):
        if o and o[-1][1] == x - 1: o[-1][1] = x
        else: o.append([x, x])
    return o

def show(s, n=4):
    r = rng(s)
    t = " ".join("%04X" % a if a == b else "%04X..%04X" % (a, b) for a, b in r[:n])
    return t + (" ..." if len(r) > n else "")

class Table:
    pass

def is_class(g, v):
    i = v.get("init")
    return (not v["decl"] and isinstance(i, list) and len(i) == 2 and isinstance(i[0], dict) and "ref" in i[0]
            and isinstance(i[1], int) and g.get(i[0]["ref"], {}).get("init") is not None
            and isinstance(g[i[0]["ref"]]["init"], list)
            and all(isinstance(x, list) and len(x) == 2 for x in g[i[0]["ref"]]["init"]))

def tables(g):
    out = {}
    for n, v in g.items():
        if not (n.startswith("class_") or n.startswith("utf8_")) or v["decl"]:
            continue
        if not is_class(g, v):
            raise Broken("cannot read class table %s" % n)
        t = Table()
        t.name, t.file, t.line = n, v.get("file", "?"), v.get("line", 0)
        r = g[v["init"][0]["ref"]]["init"]
        t.off, t.count = v["init"][0]["off"], v["init"][1]
        t.n = len(r)
        t.ranges = [(a & 0xffffffff, b & 0xffffffff) for a, b in r]
        t.set = set()
        for a, b in t.ranges[:t.count]:
            if a <= b <= 0x10FFFF:
                t.set.update(range(a, b + 1))
        out[n] = t
    if len(out) < 200:
        raise Broken("only %d class tables found" % len(out))
    return out
