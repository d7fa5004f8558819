import json, os, subprocess
import vbuild

SPEC = os.path.join(vbuild.VERIF, "spec", "m09.json")

def run(ctx, baseline=False):
    ctx.rule = ("Every call of an allocation function, in the typed syntax tree of every translation unit, whose result is converted to a pointer to T (or, for a reallocation, whose old block is a pointer to T), "
                "T not a byte, void or incomplete type: the length is made from the size of T (its own, an array's of T, or through local variables that hold the length), not only from the sizes of smaller types; "
                "and the size of T is multiplied by a count, not added to one, unless T is a structure newly allocated (which other data may follow). "
                "In the libraries' LLVM IR, where a fresh block is stored in a member of an object and the capacity that goes with it (pairs of members in spec/m09.json) in another, both as sums of terms over the same values: "
                "capacity times element size is not more than the length allocated.")
    rel = lambda p: os.path.relpath(p, vbuild.REPO) if os.path.isabs(p) else p
    seen = set()
    for src, d in ([] if baseline else sorted(vbuild.asts(lambda s: "/libre/class/" not in s).items())):
        for a in d["allocs"]:
            k = (rel(a["file"]), a["line"], a["fn"], a["type"])
            if k in seen: continue
            seen.add(k); where = "%s:%d" % (k[0], a["line"])
            if a["bytes"]: ctx.count("allocations used as bytes or with no type"); continue
            ctx.count("allocations of a type")
            if not a["sizes"]: ctx.count("allocations of a type whose length is made elsewhere (not decided)"); continue
            if not a["hit"]: ctx.report("%s|%s|%s|size" % (k[0], a["fn"], a["type"]), where, "%s(): a block used as %s is given a length made from the size of %s" % (a["fn"], a["type"], ", ".join(a["sizes"])))
            elif a["added"]: ctx.report("%s|%s|%s|added" % (k[0], a["fn"], a["type"]), where, "%s(): the size of %s is added to the number of them" % (a["fn"], a["type"]))
            else: ctx.sample("%s %s: %s from sizeof %s" % (where, a["fn"], a["type"], ", ".join(a["sizes"])))
    out = caps(ctx, baseline)
    if not baseline: ctx.need(ctx.cov.get("allocations of a type", 0), 60, "allocations of a type")
    return out

# a capacity recorded beside a block
def caps(ctx, baseline):
    b = vbuild.bitcode(os.path.join(ctx.tmp, "bc"), lambda s: vbuild.group(s) in vbuild.LIBGROUPS)
    bc = os.path.join(ctx.tmp, "lib.bc"); vbuild.link(b.values(), bc); o = os.path.join(ctx.tmp, "shifts.json")
    r = subprocess.run([vbuild.tool("shifts"), bc, o], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("shifts: " + r.stderr[-2000:])
    out = {}; spec = {} if baseline else json.load(open(SPEC))
    found = json.load(open(o))["caps"]
    def diff(c, k): return {x: k * c["v"].get(x, 0) - c["l"].get(x, 0) for x in set(c["v"]) | set(c["l"])}, k * c["vc"] - c["lc"]
    def same(c, k): d, n = diff(c, k); return n == 0 and not any(d.values())
    # blocks whose capacity is recorded, whichever member that is in
    sizes = {}
    for key, fns in spec.items(): sizes.setdefault(key.split("|")[0], set()).update(k for v in fns.values() for k in v)
    settled = {(c["fn"], c["alloc"]) for c in found if (c["v"] or c["vc"] > 1) and any(same(c, k) for k in sizes.get(c["file"], ()))}
    for c in found:
        key = "%s|%s" % (c["file"], c["pair"].rsplit(".", 1)[1])
        if c["exact"] and (c["v"] or c["k"] <= 64 and c["vc"] > 1):
            s = out.setdefault(key, {}).setdefault(c["fn"].split(".")[0], [])
            if c["k"] not in s: s.append(c["k"])
        if baseline or key not in spec: continue
        fn = c["fn"].split(".")[0]; known = spec[key].get(fn); ks = known or [k for v in spec[key].values() for k in v]
        if any(same(c, k) for k in ks): ctx.count("capacities that are what was allocated"); continue
        if (c["fn"], c["alloc"]) in settled: ctx.count("members beside a capacity that is what was allocated"); continue
        if (not set(c["v"]) <= set(c["l"]) and not (known and set(c["v"]) & set(c["l"]))) or (not c["v"] and c["l"]):
            # both are members read, but of different names
            if known and c["v"] and c["l"] and not set(c["v"]) & set(c["l"]) and all(x[0] == "[" for x in list(c["v"]) + list(c["l"])):
                ctx.report("%s|%s|capacity" % (c["file"], fn), c["where"], "%s(): the capacity recorded is not the number of elements allocated at %s" % (fn, c["alloc"]))
            else: ctx.count("capacities not comparable with what was allocated (not decided)")
            continue
        # more for every value of the terms, or for all large ones
        def more(k): d, n = diff(c, k); return all(x >= 0 for x in d.values()) and (n > 0 or any(x > 0 for x in d.values()))
        if all(more(k) for k in ks): ctx.report("%s|%s|capacity" % (c["file"], fn), c["where"], "%s(): the capacity recorded is more than was allocated at %s" % (fn, c["alloc"]))
        else: ctx.count("capacities not more than was allocated")
    return out
