import json, os, subprocess
import passes, vbuild
from vbuild import REPO

# every operation that makes, copies, moves, renumbers or drops states; "okzero": success is 0
OPS = ["fsm_clone", "fsm_merge", "fsm_mergeab", "fsm_consolidate", "fsm_determinise_with_config okzero", "fsm_remove_epsilons",
       "fsm_compact_states", "fsm_removestate", "fsm_mergestates", "fsm_subgraph_duplicate", "fsm_walk2"]
EVENTS = ["fsm_setend", "memcpy", "fsm_removestate"]
WRITERS = """writer endids fsm_endid_set 1
writer endids fsm_endid_set_bulk 1
writer endids fsm_endid_carry 3
writer endids fsm_endid_compact -1
writer eager fsm_eager_output_set 1
writer eager fsm_eager_output_compact -1
writer captures fsm_capture_add_action 1
reader endids fsm_endid_count
reader eager fsm_eager_output_count
reader eager fsm_eager_output_has_eager_output
reader eager fsm_eager_output_state_has_eager_output
reader captures fsm_capture_has_captures
reader captures fsm_capture_has_capture_actions
reader captures fsm_countcaptures
"""
SPEC = "".join("op %s\n" % o for o in OPS) + "".join("event %s\n" % e for e in EVENTS) + WRITERS
# the intermediate representation the printers and the matcher are given
SPEC_IR = "op make_ir\nevent fsm_isend\nwriter endids fsm_endid_get -1\nreader endids fsm_endid_count\n"
SPEC_IR2 = "op make_ir\nevent fsm_isend always\nwriter eager fsm_eager_output_get -1\nreader eager fsm_eager_output_count\nreader eager fsm_eager_output_has_eager_output\n"
# the start state is a state number too: "path": set on every path after states are made; "some": set by the operation
STARTS = {"fsm_clone": "path", "fsm_consolidate": "path", "fsm_determinise_with_config": "some", "fsm_compact_states": "some", "fsm_removestate": "some", "fsm_walk2": "some"}
SPEC_ST = "".join("op %s\n" % o for o in STARTS) + "".join("event %s\n" % e for e in EVENTS) + "writer start fsm_setstart 1\nreader start fsm_getstart\n"
WHAT = {"endids": "end ids", "eager": "eager outputs", "captures": "capture actions"}
META = ("src/libfsm/endids.c", "src/libfsm/eager_output.c", "src/libfsm/capture.c")
RENUMBER = ("fsm_merge", "fsm_consolidate", "fsm_determinise_with_config")
RULE = ("Along every path (LLVM IR, with the returned value followed through joins, flags and the tests on it) from an event that makes, copies, moves or drops a state (fsm_setend, a copy of struct fsm_state, fsm_removestate) "
        "in any of the operations listed, to a return that reports success, there is a call that carries each kind of metadata (end ids, eager outputs, capture actions), directly or in a helper or a callback, "
        "unless the path tests that there is none. An operation that makes, moves or drops states sets the start state's number (clone and consolidate: on every path), and not to the number it had. A state number held from before a call that removes a state is not given out after it uncompared. In operations that renumber states a carrying callback does not pass on the state number it was given. "
        "fsm_move moves every field of struct fsm but the allocator; a function that moves two or more fields of a record in the libraries' tables sets them all. "
        "Every struct fsm_state_metadata handed to a printing hook has both its end ids and their count, from one object. "
        "A loop over the records of the metadata tables begins at the first and goes on to the last; a loop that records metadata, or hands records to a callback, is left early only when recording or the callback "
        "said so; a set of states that is iterated over to carry metadata is iterated over in a loop; a callback that has recorded what it was given asks for the next.")

def carry(ctx, bc, spec, tag):
    sp = os.path.join(ctx.tmp, "spec-" + tag); open(sp, "w").write(spec); o = os.path.join(ctx.tmp, tag + ".json")
    r = subprocess.run([vbuild.tool("carry"), bc, o, sp], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("carry: " + r.stderr[-2000:])
    return json.load(open(o))

def run(ctx):
    ctx.rule = RULE
    b = vbuild.bitcode(os.path.join(ctx.tmp, "bc"), lambda s: vbuild.group(s) in vbuild.LIBGROUPS)
    bc = os.path.join(ctx.tmp, "lib.bc"); vbuild.link(b.values(), bc)
    d = carry(ctx, bc, SPEC, "ops")
    if d["missing"]: raise vbuild.Broken("E01: not found: " + " ".join(d["missing"]))
    for o in d["ops"]:
        ctx.count("operations and kinds of metadata"); ctx.count("events followed to every return", o["events"])
        if o["dirty"]:
            ev, fn, ret = o["dirty"][0]; w = WHAT[o["kind"]]
            ctx.report("%s|%s|%s" % (o["op"], o["kind"], "never" if not o["may"] else "path"), ev,
                       "%s(): states are made, moved or dropped here%s and a path returns success at %s without carrying their %s%s" % (o["op"], "" if fn == o["op"] else " (in %s())" % fn, ret, w, "; no code of the operation does" if not o["may"] else ""))
    for a in d["args"]:
        ctx.count("calls that carry metadata")
        if a["op"] in RENUMBER and a["cb"] and a["src"] == "param" and a["argno"] == 0:
            if a["kind"] == "captures" and rebases(bc, a["op"]): continue
            ctx.report("%s|%s|unmapped" % (a["op"], a["kind"]), a["where"], "%s(): the %s of a state are given to the state of the same number, but the operation renumbers states" % (a["fn"], WHAT[a["kind"]]))
    for i, s in enumerate((SPEC_IR, SPEC_IR2)):
        d = carry(ctx, bc, s, "ir%d" % i)
        if d["missing"]: raise vbuild.Broken("E01: not found: " + " ".join(d["missing"]))
        for o in d["ops"]:
            ctx.count("operations and kinds of metadata"); ctx.count("events followed to every return", o["events"])
            if o["dirty"] or not o["may"]:
                ev = o["dirty"][0][0] if o["dirty"] else "src/libfsm/print/ir.c"
                ctx.report("make_ir|%s|path" % o["kind"], ev, "make_ir(): an accepting state is described without its " + WHAT[o["kind"]])
    d = carry(ctx, bc, SPEC_ST, "start")
    if d["missing"]: raise vbuild.Broken("E01: not found: " + " ".join(d["missing"]))
    for o in d["ops"]:
        ctx.count("operations that renumber the start state")
        if not o["may"]: ctx.report("%s|start|never" % o["op"], "src/libfsm/start.c", "%s() makes, moves or drops states and never sets the start state's number" % o["op"])
        elif o["dirty"] and STARTS[o["op"]] == "path":
            ev, fn, ret = o["dirty"][0]
            ctx.report("%s|start|path" % o["op"], ev, "%s(): states are made here and a path returns success at %s without setting the start state, though there is one" % (o["op"], ret))
    for a in d["args"]:
        if a["src"] == "read" and a["op"] != "fsm_clone": ctx.report("%s|start|unmapped" % a["op"], a["where"], "%s(): the start state is given the number it had, but the operation renumbers states" % a["fn"])
    ctx.count("removals of states", d["removals"])
    for h in d["held"]: ctx.report("%s|held" % h["fn"], h["where"], "%s(): a state's number from before the removal at %s, which may renumber that state, is given out as it was" % (h["fn"], h["removal"]))
    ast(ctx)
    d = passes.run(ctx, bc)
    for l in d["loops"]:
        if l["file"] not in META: continue
        ctx.count("loops over the metadata tables"); w = passes.partial(l)
        if w: ctx.report("%s|%s|partial" % (l["file"], l["fn"]), l["where"], "%s(): a loop over the records of a metadata table %s" % (l["fn"], w))
    for l in d["odd"]:
        if l["file"].startswith("src/libfsm/"): ctx.report("%s|%s|left" % (l["file"], l["fn"]), l["where"], "%s(): a loop that records metadata, or hands records to a callback, may end before the last for a reason of its own" % l["fn"])
    for i in d["iterations"]:
        if i["next"] == "state_set_next":
            ctx.count("iterations over sets of states")
            if not i["loop"]: ctx.report("%s|%s|once" % (i["file"], i["fn"]), i["where"], "%s(): a set of states is iterated over, but not past the first" % i["fn"])
        if i["outside"]: ctx.report("%s|%s|one" % (i["file"], i["fn"]), i["used"], "%s(): what is recorded here is for one element of the set iterated over at %s" % (i["fn"], i["where"]))
    for c in d["callbacks"]: ctx.report("%s|%s|stops" % (c["file"], c["fn"]), c["where"], "%s(): returns 0 at %s, which ends the iteration, having recorded what it was given by %s()" % (c["fn"], c["ret"], c["writer"]))
    ctx.count("loops that record metadata or call back", d["writing"]); ctx.count("records made in callbacks", d["callbackwrites"]); ctx.need(d["writing"], 15, "loops that record metadata or call back")
    ctx.need(ctx.cov.get("events followed to every return", 0), 15, "events")

def rebases(bc, op):
    A = vbuild.asts(lambda s: s == "src/libfsm/merge.c")
    return any("fsm_capture_rebase_capture_action_states" in e["calls"] for d in A.values() for e in d["effects"].values())

def ast(ctx):
    A = vbuild.asts(lambda s: vbuild.group(s) in vbuild.LIBGROUPS and "/libre/class/" not in s)
    recs = {}
    for d in A.values():
        for r in d["records"]: recs.setdefault(r["name"], r)
    seen = set()
    for src, d in sorted(A.items()):
        E = {k.split("@")[0]: (k, e) for k, e in d["effects"].items()}
        for i in d["inits"]:
            if i["record"] != "fsm_state_metadata" or (i["file"], i["line"]) in seen: continue
            seen.add((i["file"], i["line"])); ctx.count("metadata given to printing hooks")
            f = i["fields"]; ids, n = f.get("end_ids"), f.get("end_id_count"); why = None
            if not ids or not n: why = "lacks its %s" % ("end ids" if not ids else "number of end ids")
            elif ids[2] or n[2]: why = "has a constant for its end ids"
            elif ids[1] and n[1] and ids[0] != n[0]: why = "takes its end ids and their number from different objects"
            if not why:
                a, b = f.get("eager_output_ids"), f.get("eager_output_count")
                if bool(a) != bool(b): why = "has eager outputs without their number, or the other way round"
            if why: ctx.report("%s|%s|metadata" % (src, i["fn"]), "%s:%d" % (src, i["line"]), "%s(): the metadata given to the hook %s" % (i["fn"], why))
        for name, (k, e) in sorted(E.items()):
            mv = {}
            for m in e["moves"]:
                p = m[1:].split("."); mv.setdefault(p[0], set()).add(p[-1])
            for rec, fs in sorted(mv.items()):
                if not rec or rec not in recs or (len(fs) < 2 and name != "fsm_move"): continue
                if rec == "fsm" or src.startswith(("src/libfsm/", "src/adt/")):
                    ctx.count("records moved field by field")
                    w = set(); todo = [name]; done = set()
                    while todo:
                        x = todo.pop()
                        if x in done or x not in E: continue
                        done.add(x); ex = E[x][1]
                        for t in (ex["moves"] if name == "fsm_move" else ex["writes"]):
                            q = t.lstrip("*").rstrip("[]")[1:].split(".")
                            if q[0] == rec: w.add(q[-1])
                        if name == "fsm_move": todo += list(ex["calls"])
                    whole = any("memcpy" in E[x][1]["calls"] or any(t.startswith("*") and t != "*?" for t in E[x][1]["writes"]) for x in [name]) if name == "fsm_move" else False
                    lost = [f["name"] for f in recs[rec]["fields"] if f["name"] not in w and f["name"] != "alloc"]
                    if lost and not whole: ctx.report("%s|%s|moved" % (src, name), k.split("@")[1], "%s(): struct %s is moved field by field without %s" % (name, rec, ", ".join(lost)))
