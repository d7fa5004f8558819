import json, os, subprocess
import vbuild

SPEC = """root f_malloc 0
root f_calloc 0
root f_realloc 0
root malloc 0
root calloc 0
root realloc 0
root strdup 0
root strndup 0
okzero fsm_determinise_with_config_res
okzero dfavm_io_result
failval re_is_anchored_res 65535
"""

def libbc(ctx):
    b = vbuild.bitcode(os.path.join(ctx.tmp, "bc"), lambda s: vbuild.group(s) in vbuild.LIBGROUPS)
    bc = os.path.join(ctx.tmp, "lib.bc"); vbuild.link(b.values(), bc); return bc

def run(ctx, bc, spec=SPEC):
    # functions whose failure is a negative number, when the list was made (a new function: if it returns a negative constant)
    spec = spec + "".join("neg %s\n" % l.strip() for l in open(os.path.join(vbuild.VERIF, "spec", "fail_neg.txt")))
    sp = os.path.join(ctx.tmp, "spec"); open(sp, "w").write(spec); o = os.path.join(ctx.tmp, "fail.json")
    r = subprocess.run([vbuild.tool("fail"), bc, o, sp], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("fail: " + r.stderr[-2000:])
    return json.load(open(o))
