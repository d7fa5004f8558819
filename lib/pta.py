"""The libraries' linked bitcode and the points-to engine, for one check run."""
import json, os, re, subprocess
import vbuild
from vbuild import Broken

SYMS = ["src/libfsm/libfsm.syms", "src/libre/libre.syms"]

def libbc(ctx):
    out = os.path.join(ctx.tmp, "lib.bc")
    if not os.path.exists(out):
        bcs = vbuild.bitcode(os.path.join(ctx.tmp, "bc"), lambda s: vbuild.group(s) in vbuild.LIBGROUPS)
        ctx.need(len(bcs), 250, "library source files")
        vbuild.link(bcs.values(), out)
        ctx.count("translation units", len(bcs))
    return out

def exported():
    out = []
    for f in SYMS:
        for l in open(os.path.join(vbuild.REPO, f)):
            out += re.sub(r"#.*", "", l).split()
    return sorted(set(out))

def roots(ctx):
    """the exported functions, and whatever else of the libraries nothing exported uses"""
    ex = exported(); sig = run(ctx, "sigs"); cg = run(ctx, "whole", "\n".join(ex))["cg"]
    re_ = reachable(cg, [f for f in ex if f in sig])
    return ex + sorted(f for f, d in sig.items() if not d["local"] and f not in re_)

def run(ctx, mode, text=""):
    o = os.path.join(ctx.tmp, "pta-%s.json" % mode); i = os.path.join(ctx.tmp, "pta-%s.in" % mode)
    open(i, "w").write(text)
    r = subprocess.run([vbuild.tool("pta"), libbc(ctx), o, mode, i], capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("pta %s: %s" % (mode, r.stderr[-2000:]))
    return json.load(open(o))

def reachable(cg, roots):
    seen = set(roots); st = list(roots)
    while st:
        for y in cg.get(st.pop(), []):
            if y not in seen: seen.add(y); st.append(y)
    return seen

def public(ctx):
    """functions declared in the installed headers: {name: (header, line)}"""
    out = {}
    for rel, d in vbuild.asts(lambda s: "/libre/class/" not in s).items():
        for f in d["funcs"]:
            p = os.path.relpath(f["rfile"], vbuild.REPO) if os.path.isabs(f["rfile"]) else os.path.normpath(f["rfile"])
            if p.startswith(("include/fsm/", "include/re/")) and not f["static"]: out[f["name"]] = (p, f["line"])
    ctx.need(len(out), 100, "functions declared in installed headers")
    return out
