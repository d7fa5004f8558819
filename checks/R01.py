import json, os
import pta, vbuild

SPEC = os.path.join(vbuild.VERIF, "spec", "r01.json")
# C library functions that write to an object behind a pointer to const given to them: none; streams are not the automaton

def run(ctx, baseline=False):
    ctx.rule = ("For each public function with a pointer-to-const structure parameter, an inclusion-based, field-insensitive on the "
                "parameter, points-to analysis starts from that function with the parameter's object marked read-only: everything loaded "
                "through it is read-only too. No store, memcpy, memset, free, realloc or writing library call in any function it can "
                "reach (through function pointers too) may have a read-only object among its targets. Parameters that were const when "
                "the check was written stay read-only whether or not the qualifier is still there. Functions of up to 100 instructions "
                "are expanded at their calls first, so callers are told apart.")
    sigs = pta.run(ctx, "sigs")
    spec = json.load(open(SPEC)) if os.path.exists(SPEC) and not baseline else {}
    want = {}
    pub = pta.public(ctx)
    for f in pub:
        s = sigs.get(f)
        if not s or s["local"]: continue
        idx = [i for i, (t, c) in enumerate(s["params"]) if c and t and t not in ("char", "void", "fn", "unsigned char", "fsm_alloc", "int", "unsigned int") and "*" not in t]
        # end-id lists, opaque arguments and strings are the caller's plain memory
        if idx: want[f] = (set(idx), s)
    for f, idx in spec.items():
        if f in sigs: want.setdefault(f, (set(), sigs[f]))[0].update(i for i in idx if i < len(sigs[f]["params"]))
    if baseline: return {f: sorted(i) for f, (i, s) in want.items()}
    ctx.need(len(want), 24, "public functions with const structure parameters")
    lines = []
    for f, (idx, s) in sorted(want.items()):
        lines.append("%s %s" % (f, "".join("1" if i in idx else "0" for i in range(len(s["params"])))))
    res = pta.run(ctx, "const", "\n".join(lines) + "\n")
    for f, d in sorted(res.items()):
        if d is None: continue
        ctx.count("public functions analysed"); ctx.count("read-only parameters", len(want[f][0]))
        ctx.count("(entry, reachable function) pairs", d["functions"]); ctx.count("stores and releases decided", d["stores"])
        ctx.sample("%s: %d functions reached, %d stores" % (f, d["functions"], d["stores"]))
        for m in d["mods"]:
            if m["kind"] != "ro": continue
            ctx.report("%s|%s|%s" % (m["fn"], m["what"], m["obj"]), m["at"] or d["where"],
                       "%s %s memory reached from the const parameter '%s' of %s (%s)" % (m["fn"], m["what"], m["obj"], f, d["where"]))
