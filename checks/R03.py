import pta
from collections import Counter

def run(ctx):
    ctx.rule = ("Every call that ends the process (exit and the like, abort, an assertion of a constant) in a function reachable from an exported "
                "function is found, and the branches that lead to it are classified by what they test. exit and the like are never "
                "allowed. abort and constant assertions are allowed where a switch or comparisons of a value with constants find a value of no known kind "
                "(internal consistency), and not where the result of a call, a null result, or a size or limit is tested.")
    ex = pta.exported()
    w = pta.run(ctx, "whole", "\n".join(ex))
    sites = pta.run(ctx, "ends")["sites"]
    reach = pta.reachable(w["cg"], [f for f in ex if f in w["fns"]])
    ctx.need(len(reach), 240, "functions reachable from exported functions")
    ctx.count("exported functions", len([f for f in ex if f in w["fns"]])); ctx.count("functions reachable from them", len(reach))
    n = Counter()
    for s in sites:
        if s["fn"] not in reach: ctx.count("process-ending calls not reachable"); continue
        if s["callee"] == "__assert_fail" and not s["constant"]: ctx.count("assertions (not meant here)"); continue
        hard = s["callee"] not in ("abort", "__assert_fail")
        bad = [g for g in s["guards"] if g in ("always", "other", "loop") or g.startswith("rel") or ":call:" in g or g.startswith("bool")]
        if s["callee"] == "__assert_fail" and not any(":call:" in g for g in s["guards"]): bad = []
        ctx.count("process-ending calls classified")
        if hard or bad:
            k = "%s|%s|%s|%s" % (s["file"], s["fn"], s["callee"], ",".join(s["guards"]))
            n[k] += 1
            if n[k] > 1: k += "#%d" % n[k]
            ctx.report(k, s["at"], "%s calls %s, decided by %s" % (s["fn"], s["callee"], ", ".join(s["guards"])))
        else: ctx.sample("%s %s: %s only for %s" % (s["at"], s["fn"], s["callee"], ", ".join(s["guards"])))
