import json, os, subprocess
import fail, vbuild

RULE = ("The stream argument of every call that writes (the C library's functions, library functions with a FILE * parameter, and callbacks) is traced in the LLVM IR through variables to a parameter, a member, or one of the standard streams. "
        "Violations: standard output used anywhere in libfsm or libre, or by printf() and the like, other than in place of a missing log stream of the caller's, or by the fsm_generate callbacks that are there to do it; "
        "another stream used in a function that was given one.")
STDOUT = {"fsm_generate_cb_printf", "fsm_generate_cb_printf_escaped"}

def run(ctx):
    ctx.rule = RULE
    bc = fail.libbc(ctx); o = os.path.join(ctx.tmp, "s.json")
    r = subprocess.run([vbuild.tool("streams"), bc, o], capture_output=True, text=True)
    if r.returncode: raise vbuild.Broken("streams: " + r.stderr[-2000:])
    d = json.load(open(o))
    ctx.need(d["given"], 480, "writes to the stream given")
    ctx.count("writes examined", d["writes"]); ctx.count("to the stream the function was given", d["given"])
    for r in d["reports"]:
        if r["kind"] == "fallback" or r["fn"] in STDOUT or r["call"] == "perror": ctx.count("writes allowed elsewhere"); ctx.sample("allowed: %s %s(): %s" % (r["where"], r["fn"], r["to"])); continue
        ctx.report("%s|%s|%s|%s" % (r["file"], r["fn"], r["call"], r["to"]), r["where"], "%s(): %s() is given %s" % (r["fn"], r["call"], r["to"]))
