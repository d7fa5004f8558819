import fail

RULE = ("Every call through a member of struct fsm_hooks, followed over the LLVM IR from the entry of its function with that member null: the call is not reached (callers decide for static functions). "
        "And every call of a printing callback, by member or by parameter of a callback's type, is taken in turn as the one that returns -1: the rest of the function is followed on every path and so on through the callers, "
        "up to fsm_print(); no function returns anything but a negative value, and no assertion is met that then fails.")

SILENT = {"fsm_dump", "trie_dump"}

def run(ctx):
    ctx.rule = RULE
    d = fail.run(ctx, fail.libbc(ctx), "hook struct.fsm_hooks -1\nhook param -1\n")
    fall = {f[0] for f in d["fallible"] if f[1]}
    ctx.need(d["sites"], 24, "calls that report a callback's failure"); ctx.need(d["guards"], 6, "calls through struct fsm_hooks")
    if "fsm_print" not in fall and not any(r["rule"] in ("swallowed", "lost") for r in d["reports"]): ctx.need(0, 1, "failures that reach fsm_print()")
    ctx.count("calls through struct fsm_hooks", d["guards"]); ctx.count("of them undecided", d["guardundec"])
    ctx.count("calls that report a callback's failure", d["sites"]); ctx.count("functions that do", len(fall)); ctx.count("failures passed on", d["ok"]); ctx.count("returns left undecided", d["undecided"]); ctx.count("failures given up on (state limit)", d["over"])
    for f in sorted(fall)[:12]: ctx.sample("%s() passes the failure on" % f)
    for r in d["reports"]:
        k = "%s|%s|%s|%s" % (r["file"], r["fn"], r["what"], r["rule"])
        if r["rule"] == "unguarded": ctx.report(k, r["where"], "%s(): the callback is called on a path where it may be null" % r["fn"])
        elif r["rule"] == "use": ctx.report(k, r["where"], "%s(): when %s fails, its result is %s" % (r["fn"], r["what"], r["detail"]))
        elif r["fn"] not in SILENT: ctx.report(k, r["where"], "%s(): when %s fails, a path returns %s" % (r["fn"], r["what"] if r["what"] == "hook" else r["what"] + "()", r["detail"] if r["rule"] == "swallowed" else "what it would have returned otherwise"))
