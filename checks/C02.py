import json, os, subprocess
import vbuild

def run(ctx):
    ctx.rule = ("Over the LLVM IR of lx (the only program with threads): the functions that reach pthread_create are found, and for every function they can call, in every calling context, the sets of mutexes "
                "that may be held before each instruction are computed (a path-insensitive, context-sensitive dataflow over locksets). Violations: an access by thread code to a static object that thread code writes, "
                "without the mutex its other accesses hold; an access through a pointer loaded from such an object without it (unless the pointer is taken off the object before the mutex is released); locking what may be held; "
                "releasing what may not be; returning from a function with different locksets on different paths, or from a thread with a mutex; the creating function touching such objects after pthread_create and before every thread is joined.")
    b = vbuild.bitcode(os.path.join(ctx.tmp, "bc"), lambda s: vbuild.group(s) not in vbuild.LIBGROUPS)
    gs = {}
    for rel, p in b.items():
        if "pthread_create" in open(os.path.join(vbuild.REPO, rel), errors="replace").read(): gs.setdefault(vbuild.group(rel), [])
    ctx.need(len(gs), 1, "programs that create threads")
    for g in gs:
        bc = vbuild.link([p for rel, p in b.items() if vbuild.group(rel) == g], os.path.join(ctx.tmp, g + ".bc"))
        o = os.path.join(ctx.tmp, g + ".json")
        r = subprocess.run([vbuild.tool("locks"), bc, o], capture_output=True, text=True)
        if r.returncode != 0: raise vbuild.Broken("locks: " + r.stderr[-2000:])
        d = json.load(open(o))
        ctx.need(len(d["entries"]), 1, "thread entry functions in " + g)
        for k, n in (("entries", "thread entry functions"), ("threadfns", "functions run by threads"), ("globals", "shared objects")):
            ctx.count(n, len(d[k])); ctx.sample("%s: %s" % (n, ", ".join(d[k])))
        ctx.count("accesses checked", d["accesses"]); ctx.count("lock and unlock calls", d["lockops"]); ctx.count("calling contexts", d["contexts"])
        for x in d["reports"]:
            ctx.report("%s|%s|%s|%s" % (x["where"].rsplit(":", 1)[0], x["fn"], x["kind"], x["what"]), x["where"], "%s(): %s" % (x["fn"], x["msg"]))
    ctx.need(ctx.cov.get("shared objects", 0), 2, "shared objects")
    ctx.need(ctx.cov.get("lock and unlock calls", 0), 2, "lock operations")
