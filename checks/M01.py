import fail

RULE = ("Every call in libfsm and libre (and adt, print) that allocates, or that calls a function found to report a failed allocation, is taken in turn: "
        "the rest of the calling function is followed over the LLVM IR with the failure value in place of the call's result, through variables, fields, array elements, "
        "tests, loops and flags set in memory, every path, each abstract state once. Along no path is a null pointer that comes from the failure loaded from, stored to, "
        "passed to a function that reads or writes through that argument without a test (found by following the callee the same way), or met by an assertion that then fails.")

def run(ctx):
    ctx.rule = RULE
    d = fail.run(ctx, fail.libbc(ctx))
    ctx.need(d["sites"], 360, "calls that can fail"); ctx.need(len(d["fallible"]), 120, "functions that can fail")
    ctx.count("calls that can fail", d["sites"]); ctx.count("failures followed", d["starts"]); ctx.count("functions that report failure", sum(1 for f in d["fallible"] if f[1])); ctx.count("instructions followed", d["steps"])
    ctx.count("failures given up on (state limit)", d["over"])
    for f in d["overs"][:5]: ctx.sample("given up: " + f)
    for r in d["reports"]:
        if r["rule"] == "use":
            ctx.report("%s|%s|%s|%s" % (r["file"], r["fn"], r["what"], r["detail"]), r["where"], "%s(): when %s() fails, its null result is %s" % (r["fn"], r["what"], r["detail"]))
