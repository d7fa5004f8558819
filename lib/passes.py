"""The loops of the libraries, from the passes engine."""
import concurrent.futures, json, os, re, subprocess
import vbuild

SPEC = "".join("next %s\n" % n for n in ("state_set_next", "edge_set_next", "edge_set_ordered_iter_next", "edge_set_group_iter_next", "tuple_set_next", "bm_next")) + \
       "".join("writer %s\n" % n for n in ("fsm_endid_set", "fsm_endid_set_bulk", "fsm_eager_output_set", "fsm_capture_add_action"))

def run(ctx, bc):
    o = os.path.join(ctx.tmp, "passes.json"); sp = os.path.join(ctx.tmp, "passes.spec"); open(sp, "w").write(SPEC)
    r = subprocess.run([vbuild.tool("passes"), bc, o, sp], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("passes: " + r.stderr[-2000:])
    return json.load(open(o))

def partial(l):
    """why a loop over the array of a structure leaves elements out, or None"""
    if l["neighbour"] or not any(a.startswith("struct") for a in l["arrays"]): return None
    if l["step"] != 1: return "goes on by %d" % l["step"]
    if l["start"].isdigit() and l["start"] != "0" and not l["first"]: return "begins at %s" % l["start"]
    if l["short"] and not l["last"]: return "stops short of the number of elements"
    return None

def named(k, records):
    def f(m):
        fs = records.get(m.group(1)); i = int(m.group(2))
        return "%s.%s" % (m.group(1), fs[i]) if fs and i < len(fs) else m.group(0)
    return re.sub(r"struct\.([\w.]+)#(\d+)", f, k)

# what ends a run of elements of a concatenation: the questions asked of the one just dealt with
ENDS = ("always_consumes_input", "can_consume_input", "is_nullable")
def answers(d):
    """functions that only answer a question: they return a truth value, and whatever they are given a pointer to is const"""
    for f in d.get("funcs", []):
        r = f["type"].split("(")[0].strip(); ps = [p for p in f["params"] if "*" in p]
        if r in ("int", "_Bool", "bool") and ps and all(p.startswith("const ") or "(*)" in p for p in ps) and any("(*)" not in p for p in ps) and f["name"] not in ENDS: yield f["name"]

def per_unit(ctx, want):
    """(source file, engine output, name of a member) for each translation unit by itself, where structures keep their names"""
    bcs = vbuild.bitcode(os.path.join(ctx.tmp, "bcu"), want); A = vbuild.asts(want); os.makedirs(os.path.join(ctx.tmp, "u"), exist_ok=True)
    def one(x):
        src, bc = x; sp = os.path.join(ctx.tmp, "u", src.replace("/", "_") + ".spec"); open(sp, "w").write(SPEC + "".join("pure %s\n" % n for n in sorted(answers(A.get(src, {})))))
        o = os.path.join(ctx.tmp, "u", src.replace("/", "_") + ".json")
        r = subprocess.run([vbuild.tool("passes"), bc, o, sp], capture_output=True, text=True)
        if r.returncode != 0: raise vbuild.Broken("passes: %s: %s" % (src, r.stderr[-2000:]))
        return src, json.load(open(o))
    with concurrent.futures.ThreadPoolExecutor(8) as ex: out = list(ex.map(one, sorted(bcs.items())))
    for src, d in out:
        rec = {}
        for x in A.get(src, {}).get("records", []): rec.setdefault(x["name"], [f["name"] for f in x["fields"]])
        yield src, d, lambda k, rec=rec: named(k, rec)
