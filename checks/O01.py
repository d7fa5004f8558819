import re
import fail, vbuild

RULE = ("Every write to a stream in libfsm, libre and the printing code (fprintf, fputs, fputc, fwrite) is taken in turn as the one that fails: the rest of the function is followed over the LLVM IR, "
        "every path, with the write's failure value as its result and the stream's error indicator set (ferror() true), and so on through the callers, directly and through printers chosen into a variable, "
        "up to the functions that users call with a stream and that return a status. None of those returns success, or a value that does not depend on the failure, on any path.")

# functions with a status that write to a stream of the caller's: declared for users, or called by the tools
PUBLIC = ["fsm_print", "ast_print", "fsm_dfavm_save"]

def run(ctx):
    ctx.rule = RULE
    spec = "stream\nroot fwrite 0\nroot fprintf -1\nroot vfprintf -1\nroot fputs -1\nroot fputc -1\nroot putc -1\nokzero dfavm_io_result\nneg src/libre/print.c:ast_print\n" + "".join("public %s\n" % p for p in PUBLIC)
    d = fail.run(ctx, fail.libbc(ctx), spec)
    fall = {f[0]: f[1] for f in d["fallible"]}
    ctx.need(d["sites"], 600, "writes and calls of functions that write")
    for p in PUBLIC: ctx.need(len(fall.get(p, [])) + sum(1 for r in d["reports"] if r["fn"] == p), 1, "ways in which %s() fails" % p)
    ctx.count("writes and calls of functions that write", d["sites"]); ctx.count("failures followed", d["starts"]); ctx.count("public functions", len(PUBLIC)); ctx.count("functions that write", len(fall)); ctx.count("failures given up on (state limit)", d["over"])
    for p in PUBLIC: ctx.sample("%s() returns %s after a failed write" % (p, ", ".join(fall.get(p, []))))
    for r in d["reports"]:
        if r["rule"] in ("swallowed", "lost") and r["fn"] in PUBLIC:
            ctx.report("%s|%s|%s|%s" % (r["file"], r["fn"], r["what"], r["rule"]), r["where"], "%s(): after a write by %s() has failed, a path returns %s" % (r["fn"], r["what"], r["detail"] if r["rule"] == "swallowed" else "what it would have returned otherwise"))
