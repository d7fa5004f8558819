import os, re
import vbuild

LIBS = {"libfsm": ("include/fsm/", "src/libfsm/libfsm.syms"), "libre": ("include/re/", "src/libre/libre.syms")}

def run(ctx):
    ctx.rule = ("The functions declared in the installed headers (include/fsm, include/re), as the compiler sees them from the library sources, are "
                "compared with the functions those sources define with external linkage and with the names in the libraries' lists of exported symbols: "
                "every declaration must be defined exactly once and listed, every listed name must be defined once, and a definition made without sight of the "
                "header must have the type declared there.")
    A = vbuild.asts(lambda s: "/libre/class/" not in s and vbuild.group(s) in vbuild.LIBGROUPS)
    rel = lambda p: os.path.relpath(p, vbuild.REPO) if os.path.isabs(p) else os.path.normpath(p)
    decl, defs = {}, {}
    for r, d in sorted(A.items()):
        # a source compiled several times (once per dialect) defines its own copies
        for f in d["funcs"]:
            p = rel(f["rfile"])
            if p.startswith(("include/fsm/", "include/re/")) and not f["static"] and not f["def"]:
                decl.setdefault(f["name"], (p, f["line"], f["type"], set()))[3].add(r)
            if f["def"] and not f["static"] and not f["inline"]: defs.setdefault(f["name"], {})[r] = f
    listed = {}
    for lib, (h, sy) in LIBS.items():
        path = os.path.join(vbuild.REPO, sy)
        if not os.path.exists(path): raise vbuild.Broken(sy + " not found")
        for n, l in enumerate(open(path), 1):
            for w in re.sub("#.*", "", l).split(): listed.setdefault(w, (lib, sy, n))
    ctx.need(len(decl), 40, "functions declared in installed headers"); ctx.need(len(listed), 40, "exported names")
    ctx.count("functions declared in installed headers", len(decl)); ctx.count("exported names", len(listed)); ctx.count("external definitions", len(defs))
    for n, (p, line, ty, seen) in sorted(decl.items()):
        w = "%s:%d" % (p, line)
        if n not in defs: ctx.report("undefined|" + n, w, "%s() is declared and not defined" % n); continue
        if len(defs[n]) > 1: ctx.report("twice|" + n, w, "%s() is defined more than once: %s" % (n, ", ".join(defs[n])))
        if n not in listed: ctx.report("unlisted|" + n, w, "%s() is declared for users and not listed for export" % n)
        for r, f in defs[n].items():
            if r in seen: ctx.count("definitions the compiler checked against the declaration")
            elif f["type"].replace(" ", "") != ty.replace(" ", ""):
                ctx.report("type|" + n, "%s:%d" % (rel(f["file"]), f["line"]), "%s() is defined with type '%s', declared with '%s'" % (n, f["type"], ty))
            else: ctx.count("definitions compared with the declaration here")
        ctx.sample("%s(): %s, defined in %s" % (n, w, ", ".join(defs[n])))
    for n, (lib, sy, line) in sorted(listed.items()):
        if n not in defs: ctx.report("missing|" + n, "%s:%d" % (sy, line), "%s is listed for export and not defined" % n)
        elif len(defs[n]) > 1: ctx.report("twice|" + n, "%s:%d" % (sy, line), "%s() is defined more than once: %s" % (n, ", ".join(defs[n])))
