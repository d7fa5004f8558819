import pta
from collections import Counter

def run(ctx):
    ctx.rule = ("A points-to analysis of the linked libraries, from the most general client of the exported functions, gives for every free, realloc, f_free and "
                "f_realloc the set of allocation calls whose block it may be given. All of them must belong to the family of the releasing call: "
                "the caller's allocator (f_malloc, f_calloc, f_realloc) or the C library (malloc, calloc, realloc, strdup ...). Functions that only "
                "wrap an allocation are told apart by call site.")
    ex = pta.roots(ctx)
    w = pta.run(ctx, "whole", "\n".join(ex)); O = w["objs"]
    fam = Counter(o["fam"] for o in O if o["k"] == "heap")
    ctx.need(fam["f"], 20, "allocations through the caller's allocator"); ctx.need(fam["libc"], 12, "allocations from the C library")
    ctx.count("allocation sites of the caller's allocator", fam["f"]); ctx.count("allocation sites of the C library", fam["libc"])
    for m in w["mods"]:
        if m["what"] not in ("frees", "resizes"): continue
        f = "f" if m["callee"].startswith("f_") else "libc"
        ctx.count("release sites decided")
        heap = [O[o] for o in m["objs"] if O[o]["k"] == "heap"]
        ctx.count("(release, allocation) pairs", len(heap))
        for b in heap:
            if b["fam"] != f:
                ctx.report("%s|%s|%s" % (m["fn"], m["callee"], b["fn"]), m["at"], "%s %s with %s a block that %s allocated at %s with %s" % (
                    m["fn"], m["what"], m["callee"], b["fn"], b["name"], "the caller's allocator" if b["fam"] == "f" else "the C library"))
        if heap: ctx.sample("%s %s %s: %d allocation sites, all of the same family" % (m["at"], m["fn"], m["callee"], len(heap)))
        for o in m["objs"]:
            if O[o]["k"] in ("stack", "global", "func"):
                ctx.count("releases that may name memory not from an allocator (imprecision or defect; not decided)")
    ctx.need(ctx.cov.get("release sites decided", 0), 60, "release sites")
