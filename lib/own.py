import json, os, re, subprocess
import vbuild

SPEC = """new f_malloc
new f_calloc
new malloc
new calloc
new strdup
new strndup
free f_free 1
free free 0
free ast_expr_free 1
realloc f_realloc 1
realloc realloc 0
"""

def run(ctx, more=""):
    b = vbuild.bitcode(os.path.join(ctx.tmp, "bc"), lambda s: vbuild.group(s) in vbuild.LIBGROUPS)
    bc = os.path.join(ctx.tmp, "lib.bc"); vbuild.link(b.values(), bc)
    sp = os.path.join(ctx.tmp, "spec"); open(sp, "w").write(SPEC + more); o = os.path.join(ctx.tmp, "own.json")
    r = subprocess.run([vbuild.tool("own"), bc, o, sp], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("own: " + r.stderr[-2000:])
    d = json.load(open(o))
    for f in d["overs"][:8]: ctx.sample("given up: " + f)
    ctx.count("instructions followed", d["steps"]); ctx.count("parameters summarised", d["summaries"])
    return d
