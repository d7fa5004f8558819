import json, os, subprocess
import fail, vbuild

RULE = ("Every value whose declared type is fsm_state_t, fsm_end_id_t or fsm_output_id_t, or that is a number of states (parameters, locals, members, array elements, results), is followed over SSA form through copies, additions, "
        "calls, results, and the values it is ordered against, to every conversion: to a narrower integer type, into a bit-field, by a mask or a shift that leaves fewer bits, or by way of a loop counter narrower than the identifier that bounds it. "
        "A conversion is allowed only where the range of the value at that point (from dominating tests) fits the narrower type.")
IDS = ["fsm_state_t", "fsm_end_id_t", "fsm_output_id_t", "fsm.statecount"]

def run(ctx):
    ctx.rule = RULE
    bc = fail.libbc(ctx); o = os.path.join(ctx.tmp, "i.json")
    r = subprocess.run([vbuild.tool("ids"), bc, o, "32"] + IDS, capture_output=True, text=True)
    if r.returncode: raise vbuild.Broken("ids: " + r.stderr[-2000:])
    d = json.load(open(o))
    ctx.need(d["values"], 1000, "values that hold an identifier")
    ctx.count("declared identifiers", d["sources"]); ctx.count("values that hold an identifier", d["values"]); ctx.count("ordered comparisons examined", d["comparisons"])
    ctx.count("narrowing conversions", d["conversions"]); ctx.count("narrowing conversions in range", d["fit"])
    for r in d["reports"]:
        ctx.report("%s|%s|%s" % (r["file"], r["fn"], r["how"]), r["where"], "%s(): an identifier (%s) is %s of %d bits" % (r["fn"], r["what"], r["how"], r["bits"]))
