import json, os, subprocess
import pta, vbuild

# destructors which release everything reachable from their argument: function -> parameter. Those in public headers must exist.
COMPLETE = {"ast_free": 0, "ast_pool_free": 0, "closure_free": 1, "dfavm_free_vm": 0, "edge_set_free": 1, "free_groups": 1, "free_ir": 1,
            "free_reverse_mappings": 2, "fsm_free": 0, "fsm_vm_free": 0, "fsm_walk2_data_free": 1, "interned_state_set_pool_free": 0, "map_free": 0,
            "path_free": 1, "priq_free": 1, "queue_free": 0, "re_strings_free": 0, "state_set_free": 0, "trie_free": 0}
MUST = ["fsm_free", "fsm_vm_free", "re_strings_free", "ast_free", "edge_set_free", "state_set_free"]

def run(ctx):
    ctx.rule = ("A points-to analysis from the most general client gives, for every structure, what each of its fields may point to. For each "
                "destructor, every allocation reachable from its argument through fields must be among the blocks some free in the destructor or in a function "
                "it calls may be given. Along every path from a destructor's entry to a return, each listed member that is not NULL is handed "
                "to a releasing function; and every loop that releases the elements of an array begins at the first, takes them one by one, and "
                "ends only where the count does.")
    ex = pta.roots(ctx)
    w = pta.run(ctx, "whole", "\n".join(ex)); O, cg = w["objs"], w["cg"]
    for f in MUST:
        if f not in w["fns"]: raise vbuild.Broken("destructor %s not found" % f)
    rel, site = {}, {}
    for m in w["mods"]:
        if m["what"] == "frees": rel.setdefault(m["fn"], set()).update(m["objs"])
    for f, i in sorted(COMPLETE.items()):
        d = w["fns"].get(f)
        if not d or i >= len(d["params"]): continue
        fns = pta.reachable(cg, [f]); freed = set().union(*[rel.get(g, set()) for g in fns])
        roots = [o for o in d["params"][i][1] if O[o]["k"] in ("heap", "stack")]
        seen, st, via = set(roots), list(roots), {}
        while st:
            o = st.pop()
            for off, ts in O[o]["fields"]:
                for x in ts:
                    if O[x]["k"] == "heap" and x not in seen: seen.add(x); via[x] = (o, off); st.append(x)
        own = [x for x in seen if O[x]["k"] == "heap"]
        # the destructor of a block embedded elsewhere (parameter not the start of an allocation of its own) does not free the root
        ctx.count("destructors"); ctx.count("allocation sites to be released", len(own)); ctx.count("functions searched for releases", len(fns))
        ctx.sample("%s(%s): %d allocation sites reachable, %d releasing functions" % (f, d["params"][i][0], len(own), sum(1 for g in fns if g in rel)))
        if f in MUST and len(own) == 0: raise vbuild.Broken("nothing owned found for %s" % f)
        for x in own:
            if x not in freed:
                p = via.get(x)
                ctx.report("%s|%s" % (f, O[x]["fn"]), d["where"], "%s does not release the block allocated by %s at %s%s" % (
                    f, O[x]["fn"], O[x]["name"], ", held at offset %d of what %s allocates at %s" % (p[1], O[p[0]]["fn"] or "the caller", O[p[0]]["name"]) if p else ""))
    ctx.need(ctx.cov.get("destructors", 0), 10, "destructors")

    # on every path
    spec = os.path.join(ctx.tmp, "drops.spec"); o = os.path.join(ctx.tmp, "drops.json")
    open(spec, "w").write("free f_free 1\nfree free 0\nrealloc f_realloc 1\nrealloc realloc 0\ndtor *\n")
    r = subprocess.run([vbuild.tool("drops"), pta.libbc(ctx), o, spec], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("drops: %s" % r.stderr[-2000:])
    d = json.load(open(o)); got = {}
    for m in d["members"]: got.setdefault((m["fn"], m["type"], m["member"], m["tag"]), []).append(m)
    for k in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "m06.json"))):
        ms = got.get(tuple(k))
        if not ms and k[3] and (k[0], k[1], k[2], "") in got: ms = [m for m in got[(k[0], k[1], k[2], "")] if m["all"]]
        if not ms: continue
        ctx.count("members followed along every path")
        if not any(m["all"] for m in ms) and not any(m["over"] for m in ms):
            ctx.report("%s|%s|%s" % (k[0], k[2], k[3]), ms[0]["where"], "%s does not release %s%s on every path: not on one that returns at %s" % (
                k[0], "its argument" if not k[2] else "%s.%s" % (k[1], k[2]), " (%s)" % k[3] if k[3] else "", ms[0]["where"]))
    for l in d["loops"]:
        ctx.count("loops which release elements")
        for b in l["bad"]: ctx.report("%s|loop|%s" % (l["fn"], b), l["where"], "the loop in %s which releases elements at %s %s" % (l["fn"], l["where"], b))
    ctx.count("paths followed (steps)", d["steps"])
    ctx.need(ctx.cov.get("members followed along every path", 0), 40, "members of destructors"); ctx.need(len(d["loops"]), 10, "releasing loops")
