import json, os, subprocess
import passes, vbuild

RULE = ("Every loop, in every translation unit, that steps through an array held by a structure by its own counter (LLVM IR; the array, the counter's start, step and bound and the ways out are read off whatever the loop looks like in C): "
        "begins at the first element, unless the first is used by itself elsewhere in the function or neighbouring elements are compared; goes on by one; does not stop short of its bound, unless the last is used by itself; "
        "likewise for loops over arrays of fixed size, over all 256 symbols, and over the states by number; is bounded by a count that goes with the array (pairs in spec/e03.json) where the bound is a member or a constant; and, like every loop over an iterator or a linked list, is not left early for a reason that neither a call in the loop "
        "nor anything used after the loop tells of: leaving an element out must not leave out those after it. "
        "A block moved within an array (memmove) to make or close a gap ends where the array's count says its elements end.")

# bounds that mean every state; limits that mean every symbol, or all but the last
STATES = ("fsm.statecount", "call fsm_countstates")
SIZES = {256: False, 255: True}

def spec(): return json.load(open(os.path.join(vbuild.VERIF, "spec", "e03.json")))
def want(s): return "/libre/class/" not in s
# what a bound says about which count it is: members and constants do
def tells(b): return (b[0].isalpha() and "." in b and " " not in b and "(" not in b) or b.isdigit()

def pairs(units):
    for src, d, name in units:
        for l in d["loops"]:
            for a in l["arrays"]:
                if not a.startswith("struct") or "anon" in a or l["neighbour"]: continue
                k, b = name(a.split("[")[0]), name(l["bound"])
                if "#" in k or "#" in b or "anon" in b: continue
                yield src, l, k, b

def run(ctx):
    ctx.rule = RULE; S = spec(); units = list(passes.per_unit(ctx, want)); n = 0
    for src, d, name in units:
        for l in d["loops"]:
            if not any(a.startswith("struct") for a in l["arrays"]): continue
            n += 1; w = passes.partial(l)
            if w: ctx.report("%s|%s|partial" % (l["file"], l["fn"]), l["where"], "%s(): a loop over the elements of %s %s" % (l["fn"], name(sorted(l["arrays"])[0].split("[")[0]), w))
            if l["early"]: ctx.report("%s|%s|early" % (l["file"], l["fn"]), l["early"], "%s(): the loop over the elements of %s at %s is left early, leaving out the elements after this one" % (l["fn"], name(sorted(l["arrays"])[0].split("[")[0]), l["where"]))
        for l in d["loops"]:
            if any(a.startswith("struct") for a in l["arrays"]): continue
            b = name(l["bound"])
            if l["fixed"] > 0 and l["limit"] >= 0 and not l["neighbour"]:
                ctx.count("loops over arrays of fixed size")
                if l["limit"] < l["fixed"] and [l["limit"], l["fixed"]] not in S["fixed"]: ctx.report("%s|%s|fixed" % (l["file"], l["fn"]), l["where"], "%s(): a loop over an array of %d ends at %d" % (l["fn"], l["fixed"], l["limit"]))
                if l["start"].isdigit() and l["start"] != "0" and not l["first"] or l["step"] != 1: ctx.report("%s|%s|fixed" % (l["file"], l["fn"]), l["where"], "%s(): a loop over an array of %d %s" % (l["fn"], l["fixed"], "goes on by %d" % l["step"] if l["step"] != 1 else "begins at " + l["start"]))
            elif l["limit"] in SIZES and not l["neighbour"]:
                ctx.count("loops over all symbols")
                if SIZES[l["limit"]]: ctx.report("%s|%s|symbols" % (l["file"], l["fn"]), l["where"], "%s(): a loop over symbols leaves out the last" % l["fn"])
                elif l["start"].isdigit() and l["start"] != "0" or l["step"] != 1: ctx.report("%s|%s|symbols" % (l["file"], l["fn"]), l["where"], "%s(): a loop over symbols %s" % (l["fn"], "goes on by %d" % l["step"] if l["step"] != 1 else "begins at " + l["start"]))
            elif b in STATES and not l["neighbour"]:
                ctx.count("loops over states by number"); w = None
                if l["step"] != 1: w = "goes on by %d" % l["step"]
                elif l["start"].isdigit() and l["start"] != "0" and not l["first"]: w = "begins at " + l["start"]
                elif l["short"] and not l["last"]: w = "stops short of the last"
                if w: ctx.report("%s|%s|states" % (l["file"], l["fn"]), l["where"], "%s(): a loop over the states %s" % (l["fn"], w))
            if l["early"] and not l["probing"] and not l["neighbour"] and (b in STATES or "." in b): ctx.report("%s|%s|early" % (l["file"], l["fn"]), l["early"], "%s(): the loop at %s is left early, leaving out what comes after this one" % (l["fn"], l["where"]))
        ctx.count("loops over iterators and lists", d["heads"])
        for l in d["lefts"]:
            if l["iter"]: ctx.report("%s|%s|early" % (l["file"], l["fn"]), l["where"], "%s(): the iteration is left early, leaving out the elements after this one" % l["fn"])
    for src, l, k, b in pairs(units):
        if k not in S: continue
        ctx.count("bounds compared with the array's count")
        if tells(b) and b not in S[k]: ctx.report("%s|%s|%s|%s" % (l["file"], l["fn"], k, b), l["where"], "%s(): a loop over the elements of %s is bounded by %s, not %s" % (l["fn"], k, b, " or ".join(S[k])))
    shifts(ctx)
    ctx.count("loops over arrays held by structures", n); ctx.need(n, 150, "loops over arrays held by structures")

# an element inserted or removed: the block of elements after it is moved, all of them and nothing else
def shifts(ctx):
    b = vbuild.bitcode(os.path.join(ctx.tmp, "shifts-bc"), lambda s: vbuild.group(s) in vbuild.LIBGROUPS)
    bc = os.path.join(ctx.tmp, "shifts.bc"); vbuild.link(b.values(), bc); o = os.path.join(ctx.tmp, "shifts.json")
    r = subprocess.run([vbuild.tool("shifts"), bc, o], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("shifts: " + r.stderr[-2000:])
    for m in json.load(open(o))["shifts"]:
        if m["state"] == "apart": continue
        ctx.count("blocks moved within an array")
        if m["state"] == "aside": ctx.count("blocks moved within an array, of a length that is not a count less an index (not decided)")
        elif m["state"] == "off": ctx.report("%s|%s|moved" % (m["file"], m["fn"]), m["where"], "%s(): the elements moved within the array end %d %s its count" % (m["fn"], abs(m["over"]), "past" if m["over"] > 0 else "short of"))
