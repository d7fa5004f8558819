import fail

RULE = ("Every call in libfsm and libre (and adt, print) that allocates, or that calls a function found to report a failed allocation, is taken in turn: "
        "the rest of the calling function is followed over the LLVM IR with the failure value in place of the call's result, every path, each abstract state once, to its returns. "
        "No path returns a value that means success (a non-null pointer; 0 or more where the function has a negative result; non-zero otherwise; the enumerator for success of a result type). "
        "A function that sets a flag through a pointer it was given and a callback that does reports failure that way, and its callers are followed with the flag set. A returned value the path does not determine "
        "counts as success too, unless it depends on memory the failed function was given to write to, or on a flag it set; those, and generated parser functions, which return nothing, are counted undecided.")

SILENT = {"fsm_dump", "trie_dump"}   # print for debugging, and return nothing

def run(ctx):
    ctx.rule = RULE
    d = fail.run(ctx, fail.libbc(ctx))
    ctx.need(d["sites"], 360, "calls that can fail"); ctx.need(len(d["fallible"]), 120, "functions that can fail")
    ctx.count("calls that can fail", d["sites"]); ctx.count("failures followed", d["starts"]); ctx.count("failures reported by the caller", d["ok"]); ctx.count("returns left undecided", d["undecided"])
    ctx.count("failures given up on (state limit)", d["over"])
    for f in d["undecs"][:12]: ctx.sample("undecided: " + f)
    for r in d["reports"]:
        if r["rule"] == "swallowed":
            ctx.report("%s|%s|%s|%s" % (r["file"], r["fn"], r["what"], r["detail"]), r["where"], "%s(): when %s() fails, a path returns %s, which means success" % (r["fn"], r["what"], r["detail"]))
        if r["rule"] == "lost" and not (r["detail"] == "void" and (r["fn"] in SILENT or r["file"].endswith("parser.c"))):
            ctx.report("%s|%s|%s|lost" % (r["file"], r["fn"], r["what"]), r["where"], "%s(): when %s() fails, a path goes on to return %s" % (r["fn"], r["what"], "with nothing set to tell the caller" if r["detail"] == "void" else "what it would have returned otherwise"))
