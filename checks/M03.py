import json, os, subprocess
import own, vbuild

RULE = ("Every call in libfsm and libre (and adt, print) that makes a new object (an allocator, or a function found to return only objects made in the call) is taken in turn, and the object is followed "
        "along every path of the function, over the LLVM IR, through variables, members of local variables and of other objects made in the function, and the results of calls; what a function called with it does "
        "(release, keep, hand back) is found by following that function the same way. An object a function leaves in memory it was given the address of (a local variable of the caller, or a member of an object made there) is followed the same way. No path reaches a return, or makes the object again, while it holds the object in nothing but local variables. "
        "And every load of a member that some function releases, in a function that stores to such a member, is followed along every path: the member is given another value only when what it held has been released, "
        "put somewhere else, or handed back by the end, and the result of a reallocation only once it is known not to be NULL.")

def run(ctx):
    ctx.rule = RULE
    d = own.run(ctx)
    ctx.need(d["births"], 60, "calls that make an object"); ctx.need(len(d["fresh"]), 10, "functions that return a new object")
    ctx.count("calls that make an object", d["births"]); ctx.count("objects left in the caller's memory", d["slots"]); ctx.count("functions that return a new object", len(d["fresh"])); ctx.count("path ends", d["ends"]); ctx.count("objects given up on (state limit)", d["birthover"])
    for r in d["reports"]:
        if r["rule"] == "leak":
            ctx.report("%s|%s|%s" % (r["file"], r["fn"], r["what"]), r["where"], "%s(): the object made by %s() is %s" % (r["fn"], r["what"], r["detail"]))
    o = os.path.join(ctx.tmp, "over.json"); sp = os.path.join(ctx.tmp, "over.spec"); open(sp, "w").write("\n".join(l for l in own.SPEC.split("\n") if l.split(" ")[0] in ("free", "realloc") and "ast_expr" not in l) + "\n")
    r = subprocess.run([vbuild.tool("over"), os.path.join(ctx.tmp, "lib.bc"), o, sp], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("over: " + r.stderr[-2000:])
    s = json.load(open(o)); ctx.need(len(s["members"]), 20, "members that hold a block"); ctx.need(s["loads"], 100, "loads of members that hold a block")
    ctx.count("members that hold a block", len(s["members"])); ctx.count("loads of such members followed", s["loads"]); ctx.count("stores to such members", s["stores"]); ctx.count("loads given up on (state limit)", s["over"])
    for r in s["reports"]:
        ctx.report("%s|%s|replaced|%s" % (r["file"], r["fn"], r["member"].split("#")[-1]), r["where"], "%s(): %s (loaded at %s)" % (r["fn"], "a member is given the result of a reallocation of what it held, before that is known not to be NULL" if r["unchecked"] else "a member is given another value, and what it held is lost%s" % (" by " + r["end"] if r["end"] else ""), r["load"]))
