import pta

# C library functions with hidden state of their own that the caller of the library shares (glibc manual, "MT-Unsafe race")
HIDDEN = {"strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "srand48", "strerror", "localtime", "gmtime", "ctime",
          "asctime", "setlocale", "tmpnam", "tempnam", "getenv", "setenv", "putenv", "unsetenv", "clearenv", "getopt", "getopt_long", "readdir", "signal", "sigaction",
          "umask", "chdir", "setvbuf_stdout", "hcreate", "hsearch", "hdestroy", "lgamma", "ttyname", "getlogin", "ecvt", "fcvt", "l64a", "basename", "dirname",
          "atexit", "mblen", "mbtowc", "wctomb", "mbrtowc_null", "fesetround", "alarm", "setitimer", "sigprocmask"}

def run(ctx):
    ctx.rule = ("Every store, memory-writing call and release in every function of libfsm and libre (and the adt and print code linked into them) is "
                "given its possible targets by a points-to analysis. None may be a variable of static storage duration, local or "
                "global. A target met only through a heap cell is not counted, and a target is not counted where the branches on its own fields, "
                "taken with its constant initial values, cannot lead to the store. Nor may any reachable function call a C library function "
                "that keeps state of its own between calls.")
    ex = pta.exported()
    w = pta.run(ctx, "globals", "\n".join(ex))
    O = w["objs"]
    ctx.need(len(w["fns"]), 280, "library functions"); ctx.need(len(w["mods"]), 1000, "stores")
    ctx.count("functions", len(w["fns"])); ctx.count("stores, writing calls and releases decided", len(w["mods"]))
    ctx.count("writable variables of static storage duration", sum(1 for o in O if o["k"] == "global" and not o["const"]))
    for o in O:
        if o["k"] == "global" and not o["const"]: ctx.sample("writable, never written: " + o["name"])
    for m in w["mods"]:
        for o in m["objs"]:
            if O[o]["k"] == "global" and not O[o]["const"]:
                ctx.report("store|%s|%s" % (m["fn"], O[o]["name"]), m["at"] or w["fns"].get(m["fn"], {}).get("where", "?"),
                           "%s %s the static variable %s" % (m["fn"], m["what"], O[o]["name"]))
    reach = pta.reachable(w["cg"], [f for f in ex if f in w["fns"]])
    for fn, callee, at in w["sites"]:
        ctx.count("calls into the C library looked up")
        if callee in HIDDEN and fn in reach:
            ctx.report("libc|%s|%s" % (fn, callee), at, "%s calls %s(), which keeps state between calls" % (fn, callee))
