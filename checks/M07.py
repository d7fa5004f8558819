import os, re
import own, vbuild

RULE = ("Each pointer parameter of each exported function (src/libfsm/libfsm.syms, src/libre/libre.syms) is followed along every path of the function, over the LLVM IR, to what has become of the object at each return: "
        "released, returned, untouched, or handed on. An operand that the headers say is consumed is released or returned on every path, failures included; fsm_merge() consumes its operands exactly when it succeeds; "
        "a destructor releases its object on every path; and no other exported function releases what it is given.")

# include/fsm/bool.h, include/fsm/fsm.h: "destructive, and free their operands as if by fsm_free()", "and free src"
CONSUMED = {("fsm_union", 0), ("fsm_union", 1), ("fsm_concat", 0), ("fsm_concat", 1), ("fsm_intersect", 0), ("fsm_intersect", 1),
            ("fsm_subtract", 0), ("fsm_subtract", 1), ("fsm_intersect_charset", 0), ("fsm_move", 1)}
DESTROYED = {("fsm_free", 0), ("fsm_vm_free", 0), ("re_strings_free", 0)}
INTERNAL = {("ast_free", 0), ("free_ir", 1), ("closure_free", 1)}   # exported for the tools, not declared for users
MERGED = {("fsm_merge", 0), ("fsm_merge", 1), ("fsm_mergeab", 1)}
OWNED, FREED, GONE = 1, 2, 3

def run(ctx):
    ctx.rule = RULE
    names = set()
    for sy in ("src/libfsm/libfsm.syms", "src/libre/libre.syms"):
        for l in open(os.path.join(vbuild.REPO, sy)): names.update(re.sub("#.*", "", l).split())
    names |= {f for f, _ in CONSUMED | DESTROYED | INTERNAL | MERGED}
    d = own.run(ctx, "".join("consume %s %d\n" % (n, i) for n in sorted(names) for i in range(10)))
    ctx.need(len(names), 40, "exported names"); seen = set(); n = 0
    for c in d["consumers"]:
        k = (c["fn"], c["arg"]); st = {(o["st"], o["ret"], o["same"]) for o in c["outcomes"]}
        if not c["defined"]: continue
        seen.add(k)
        if not st: continue
        n += 1; w = c["where"]; what = "%s(), argument %d" % (c["fn"], c["arg"] + 1); und = any(s == GONE for s, _, _ in st)
        left = [r for s, r, same in st if s == OWNED and not same]; freed = [r for s, r, _ in st if s == FREED]
        if k in CONSUMED:
            if left: ctx.report("kept|%s|%d|%s" % (k + ("+".join(sorted(set(left))),)), w, "%s: not consumed on a path that returns %s" % (what, " or ".join(sorted(set(left)))))
            elif not und: ctx.count("operands consumed on every path")
        elif k in DESTROYED | INTERNAL:
            if left: ctx.report("left|%s|%d" % k, w, "%s: not released on every path" % what)
            elif not und: ctx.count("objects destroyed on every path")
        elif k in MERGED:
            if any(r == "zero" for r in freed): ctx.report("failed|%s|%d" % k, w, "%s: released on a path that fails" % what)
            if any(r == "value" for r in left): ctx.report("kept|%s|%d" % k, w, "%s: not consumed on a path that succeeds" % what)
            if not und: ctx.count("operands merged")
        elif freed: ctx.report("freed|%s|%d" % k, w, "%s: released, and nothing says so" % what)
        elif not und: ctx.count("parameters never released")
        if und: ctx.count("parameters handed on (undecided)"); ctx.sample("undecided: " + what)
    for k in CONSUMED | DESTROYED | MERGED:
        if k not in seen: raise vbuild.Broken("%s is not defined" % k[0])
    ctx.need(n, 80, "parameters followed")
