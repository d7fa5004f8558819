"""write spec/e03.json: for each array held by a structure, the counts that bound loops over it today"""
import json, os, sys, tempfile
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", d) for d in ("lib", "checks")]
import vbuild, passes, E03
class C: tmp = tempfile.mkdtemp()
S = {}
for src, l, k, b in E03.pairs(list(passes.per_unit(C, E03.want))):
    if E03.tells(b): S.setdefault(k, set()).add(b)
S = {k: sorted(v) for k, v in sorted(S.items())}
# adt/bitmap.c: bm_count() counts 8 of the 32 words, of which 4 are in use; minimise.c: one word more than there are symbols for
S["fixed"] = [[8, 32], [4, 5]]
json.dump(S, open(os.path.join(vbuild.VERIF, "spec", "e03.json"), "w"), indent=1)
