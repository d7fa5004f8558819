import json, os, subprocess
import own, vbuild

RULE = ("Every call in libfsm and libre (and adt, print) that releases an object (free, f_free, a reallocation that succeeds, or a function found to release what it is given) is taken in turn, with every abstract "
        "state the paths from the function's entry reach it in, and the object is followed from there along every path, over the LLVM IR. No path loads or stores through a pointer to it, passes one to a function that "
        "does anything with it, or releases it again. The same for every object made in the function, released by whichever call. And for every function, the members (named by the chain of "
        "members from its parameters) whose block it releases and puts another in the place of are worked out, through the calls it makes; a pointer loaded from such a member, or computed from one, is not used once "
        "the block may have been replaced by a call or by the function itself.")

def run(ctx):
    ctx.rule = RULE
    d = own.run(ctx)
    ctx.need(d["releases"], 120, "releases"); ctx.need(len(d["frees"]), 8, "functions that release an argument")
    ctx.count("releases", d["releases"]); ctx.count("functions that release an argument", len(d["frees"])); ctx.count("calls that make an object", d["births"]); ctx.count("releases given up on (state limit)", d["releaseover"])
    for r in d["reports"]:
        if r["rule"] == "use":
            ctx.report("%s|%s|%s|%s" % (r["file"], r["fn"], r["what"], r["detail"].split(" at ")[0]), r["where"], "%s(): an object %s %s() is %s" % (r["fn"], "released by" if r["what"] in ("f_free", "free") or not r["detail"] else "made or released by", r["what"], r["detail"]))
    o = os.path.join(ctx.tmp, "stale.json"); sp = os.path.join(ctx.tmp, "stale.spec"); open(sp, "w").write("\n".join(l for l in own.SPEC.split("\n") if l.split(" ")[0] in ("free", "realloc") and "ast_expr" not in l) + "\n")
    r = subprocess.run([vbuild.tool("stale"), os.path.join(ctx.tmp, "lib.bc"), o, sp], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("stale: " + r.stderr[-2000:])
    s = json.load(open(o)); ctx.need(len(s["movers"]), 60, "members whose block some function replaces"); ctx.need(s["calls"], 100, "calls that may replace a block")
    ctx.count("members whose block some function replaces", len(s["movers"])); ctx.count("calls that may replace a block", s["calls"]); ctx.count("uses of pointers looked at for a replaced block", s["uses"])
    for r in s["reports"]:
        ctx.report("%s|%s|moved|%s" % (r["file"], r["fn"], r["by"]), r["where"], "%s(): a pointer into a block is %s after %s may have put another block in its place" % (r["fn"], r["how"], "%s() at %s" % (r["by"], r["at"]) if r["by"] else r["at"]))
