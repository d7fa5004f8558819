import os, re, subprocess
import pta, vbuild
from collections import Counter

# C library functions which change nothing a program can see but the memory they hand out and take back, or the caller's own buffers
PURE = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "strchr", "strrchr", "strstr", "memchr", "strspn", "strcspn", "isalpha", "isdigit",
        "isalnum", "isprint", "isspace", "isupper", "islower", "ispunct", "isgraph", "iscntrl", "isxdigit", "isascii", "tolower", "toupper", "__ctype_b_loc", "__ctype_tolower_loc",
        "__ctype_toupper_loc", "abs", "labs", "feof", "ferror", "__assert_fail", "abort", "__errno_location", "fabs", "floor", "ceil"}
INNER = PURE | {"malloc", "calloc", "realloc", "free", "f_malloc", "f_calloc", "f_realloc", "f_free", "memcpy", "memmove", "memset", "qsort", "strdup", "<callback>", "strcpy", "strncpy", "snprintf"}
# reviewed: set to null for debugging once its value has been moved elsewhere; never read afterwards
POISON = {("src/lx/main.c", ".ast_mapping.fsm")}

def run(ctx):
    ctx.rule = ("Every assertion condition in the typed syntax tree is searched for assignments, increments and calls; a callee must be a pure C library "
                "function, or a function for which a points-to analysis finds no write through its arguments or to a static variable, no I/O, and no fresh "
                "memory in its result. Then the sources are parsed again with NDEBUG: in each function, every call that is lost must be of such a callee, "
                "every assignment that is lost must be to a variable or field that is not declared, or never read, with NDEBUG, and nothing is gained.")
    want = lambda s: "/libre/class/" not in s
    rel = lambda p: os.path.relpath(p, vbuild.REPO) if os.path.isabs(p) else os.path.normpath(p)
    A, B = vbuild.asts(want), vbuild.asts(want, ["-DNDEBUG"])
    seen, callees = set(), {}
    for r, d in sorted(A.items()):
        defs = {f["name"] for f in d["funcs"] if f["def"]}
        for a in d["asserts"]:
            f = rel(a["file"]); k = (f, a["line"], a["text"], a["fn"])
            if k in seen: continue
            seen.add(k); ctx.count("assertion conditions")
            w = "%s:%d" % (f, a["line"])
            if a["assign"] or a["incdec"]: ctx.report("write|%s|%s|%s" % (r, a["fn"], a["text"]), w, "%s: the assertion writes to a variable: %s" % (a["fn"], a["text"]))
            if a["indirect"]: ctx.report("indirect|%s|%s|%s" % (r, a["fn"], a["text"]), w, "%s: the assertion calls through a pointer: %s" % (a["fn"], a["text"]))
            for c in a["calls"]: callees.setdefault((c, r if c in defs else ""), []).append((r, w, a["fn"], "the assertion calls %s()" % c))
        for fk, e in d["effects"].items():
            o = B[r]["effects"].get(fk)
            fn, at = fk.split("@"); at = rel(at)
            if o is None:
                o = {"calls": {}, "writes": {}, "decls": []}
                if fn in B[r]["effects"]: continue
                continue    # not compiled with NDEBUG: whoever called it shows a lost call
            ctx.count("functions compared with and without NDEBUG")
            fields = {".%s.%s" % (q["name"], x["name"]) for q in B[r]["records"] for x in q["fields"]}
            have = {".%s.%s" % (q["name"], x["name"]) for q in d["records"] for x in q["fields"]}
            for c in set(e["calls"]) | set(o["calls"]):
                n = e["calls"].get(c, 0) - o["calls"].get(c, 0)
                if c == "__assert_fail" or n == 0: continue
                ctx.count("calls made only with assertions enabled" if n > 0 else "calls made only with NDEBUG", abs(n))
                if n > 0: callees.setdefault((c, r if c in defs else ""), []).append((r, at, fn, "with assertions enabled only, %s() is called" % c))
                else: ctx.report("ndebugcall|%s|%s|%s" % (r, fn, c), at, "%s: with NDEBUG only, %s() is called" % (fn, c))
            for t in set(e["writes"]) | set(o["writes"]):
                n = e["writes"].get(t, 0) - o["writes"].get(t, 0)
                if n == 0: continue
                base = t.strip("*[]")
                if n < 0: ctx.report("ndebugwrite|%s|%s|%s" % (r, fn, t), at, "%s: with NDEBUG only, %s is written" % (fn, t)); continue
                if (r, base) in POISON: continue
                gone = (base.startswith(".") and base not in B[r]["freads"]) or (base.startswith(".") and base in have and base not in fields) or (base in e["decls"] and base not in o["decls"])
                ctx.count("writes to what exists only with assertions enabled" if gone else "writes lost with NDEBUG")
                if not gone: ctx.report("lost|%s|%s|%s" % (r, fn, t), at, "%s: %s is written with assertions enabled only" % (fn, t))
    ctx.need(len(seen), 480, "assertion conditions")
    # purity of what assertions call
    lib = pta.run(ctx, "sigs")
    todo = {}
    for (c, r), uses in sorted(callees.items()):
        if c in PURE: ctx.count("pure C library functions"); continue
        todo[(c, r)] = uses
    names, extra = {}, set()
    for c, r in todo:
        cand = [n for n in lib if (n == c or re.fullmatch(re.escape(c) + r"\.\d+", n))]
        names[(c, r)] = cand
        if not cand: extra.add(r)
    res = pta.run(ctx, "const", "".join("%s %s\n" % (n, "1" * max(1, lib[n]["nargs"])) for n in sorted({n for v in names.values() for n in v})))
    # functions of the tools: their own translation unit linked with the libraries
    tool = {}
    for r in sorted(x for x in extra if x):
        bc = vbuild.bitcode(os.path.join(ctx.tmp, "t"), lambda s: s == r)
        sub = type("C", (), {})(); l = os.path.join(ctx.tmp, "tl.bc"); vbuild.link([pta.libbc(ctx)] + list(bc.values()), l)
        i = os.path.join(ctx.tmp, "tc.in"); o = os.path.join(ctx.tmp, "tc.json")
        open(i, "w").write("".join("%s 11111111\n" % c for c, rr in todo if rr == r))
        if subprocess.run([vbuild.tool("pta"), l, o, "const", i]).returncode: raise vbuild.Broken("pta const " + r)
        import json
        for c, v in json.load(open(o)).items(): tool[(c, r)] = v
    for (c, r), uses in sorted(todo.items()):
        why = None
        ds = [res[n] for n in names[(c, r)]] or [tool.get((c, r))]
        if ds == [None]: why = "whose effects are not known"
        for d in ds:
            if not d: continue
            ctx.count("functions called by assertions, decided"); ctx.count("functions reached from them", d["functions"])
            bad = sorted(x for x in set(d["ext"]) - INNER if not x.startswith("llvm."))
            if d["mods"]: m = d["mods"][0]; why = "which %s its argument or a static variable (%s, %s)" % (m["what"], m["fn"], m["at"])
            elif d["fresh"]: why = "which returns memory it allocates"
            elif bad: why = "which may call %s" % ", ".join(bad)
        if not why: ctx.sample("%s(): no effects" % c); continue
        for f, w, fn, msg in uses:
            ctx.report("call|%s|%s|%s" % (f, fn, c), w, "%s: %s, %s" % (fn, msg, why))
