import json, os, subprocess
import vbuild

def run(ctx):
    ctx.rule = ("Bit provenance over the IR of src/libfsm/vm, static functions inlined: each bit of the instruction word an encoder stores is a constant or a bit of one source; "
                "each value a reader takes from a word must be the bits of one field, moved to where they count; fields do not overlap and lose no bits; every reader that tells operations or "
                "comparisons apart names all those the encoder can write, and compares under each comparison as its name says; a destination that follows the word is read with the size the "
                "encoder gave it, in its byte order, with its sign; a size is chosen only for a destination that fits; a saved length is read back from the bytes it was put in.")
    b = vbuild.bitcode(os.path.join(ctx.tmp, "vm"), lambda s: "/libfsm/vm/" in s or s == "src/libfsm/vm.c")
    o = os.path.join(ctx.tmp, "layout.json")
    r = subprocess.run([vbuild.tool("layout"), o] + [b[k] for k in sorted(b)], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("layout: " + r.stderr[-2000:])
    d = json.load(open(o))
    for k, v in d["counts"].items(): ctx.count(k, v)
    for f in d["fields"]:
        ctx.count("fields of instructions"); ctx.sample("%s: bits %d to %d%s (%s)" % (f["fn"], f["lo"], f["lo"] + f["w"] - 1, ", the " + f["role"] if f["role"] else "", f["where"]))
    for x in d["reports"]: ctx.report("%s|%s" % (x["fn"], x["key"]), x["where"], "%s(): %s" % (x["fn"], x["text"]))
    if not d["reports"]:
        ctx.need(d["layouts"], 2, "encoders"); ctx.need(d["counts"].get("readers", 0), 2, "readers")
        ctx.need(d["counts"].get("uses of fields", 0), 15, "uses of fields"); ctx.need(d["counts"].get("comparisons judged", 0), 6, "comparisons")
