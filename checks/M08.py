import json, os, subprocess
import pta, vbuild

# operations which ask for a set with members: their callers see to it
NONEMPTY = {"state_set_only": "asked only of a set of one", "state_set_cmp": "an order on sets with members", "state_set_array": "the members, of which there must be some"}
# what the empty set answers: (function, parameter, member of what it points to) -> value
ANSWER = {("edge_set_find", 0, ""): "0", ("edge_set_check_edges_with_EC_mapping", 0, ""): "0", ("edge_set_contains", 0, ""): "0", ("edge_set_empty", 0, ""): "1",
          ("edge_set_hasnondeterminism", 0, ""): "0", ("edge_set_transition", 0, ""): "0", ("edge_set_count", 0, ""): "0", ("edge_set_next", 0, "edge_iter.set"): "0",
          ("edge_set_ordered_iter_next", 0, "edge_ordered_iter.set"): "0", ("edge_set_group_iter_next", 0, "edge_group_iter.set"): "0",
          ("edge_set_compact", 0, ""): "1", ("edge_set_replace_state", 0, ""): "1", ("edge_set_copy", 2, ""): "1",
          ("state_set_next", 0, "state_iter.set"): "0", ("state_set_count", 0, ""): "0", ("state_set_empty", 0, ""): "1", ("state_set_contains", 0, ""): "0", ("state_set_copy", 2, ""): "1"}
# and the set of one
ANSWER1 = {("state_set_count", 0, ""): "1", ("state_set_empty", 0, ""): "0"}
MUST = ["edge_set_add_bulk", "edge_set_copy", "edge_set_empty", "edge_set_free", "edge_set_remove", "state_set_add", "state_set_copy", "state_set_remove", "state_set_next", "edge_set_next"]

def run(ctx):
    ctx.rule = ("Every function given a pointer to a state set or an edge set, as an argument, through a pointer, or as a member of what an argument points "
                "to, is followed along every path from its entry with that pointer null, its callees' answers worked out under the same assumption: no load, store, "
                "assertion, or callee that cannot take null, meets it. Each listed question is answered as for a set with no members. Each load of a set "
                "from memory which is given to a set operation is followed, from every state in which it is reached, with its value null. All of it again for state sets with "
                "the pointer's low bit set, which stands for a set of one: such a pointer is not dereferenced, resized or freed.")
    sp = os.path.join(ctx.tmp, "nulls.spec"); o = os.path.join(ctx.tmp, "nulls.json"); open(sp, "w").write("type edge_set\ntype state_set\ntagged state_set\n")
    r = subprocess.run([vbuild.tool("nulls"), pta.libbc(ctx), o, sp], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("nulls: %s" % r.stderr[-2000:])
    d = json.load(open(o)); have = set()
    for e in d["entries"]:
        how = "its argument" if not e["kind"] else e["member"] or "what its argument points to"; i = int(e["param"][1:])
        if e["static"]: ctx.count("entries of static functions (judged where they are called from)"); continue
        have.add(e["fn"])
        if e["fn"] in NONEMPTY: ctx.count("entries of operations which ask for members"); continue
        what = "a set of one, a tagged pointer" if e["tag"] else "null, the empty set"; t = "|tagged" if e["tag"] else ""
        ctx.count("entries followed with a set of one" if e["tag"] else "entries followed with a null set")
        if e["over"]: ctx.count("entries with too many paths")
        for u in e["uses"]:
            ctx.report("%s|%s|%s%s" % (e["fn"], e["param"] + e["member"], u[0], t), u[1], "%s: where %s (%s) is %s, it is %s" % (e["fn"], how, e["param"], what, u[0]))
        a = (ANSWER1 if e["tag"] else ANSWER).get((e["fn"], i, e["member"]))
        if a is not None:
            ctx.count("answers compared")
            bad = [x for x in e["returns"] if x not in (a, "?")]
            if bad: ctx.report("%s|%s|answer|%s" % (e["fn"], e["param"] + e["member"], bad[0]), e["where"], "%s answers %s for %s, which should be %s" % (e["fn"], bad[0], what, a))
            ctx.sample("%s: %s %s; answers %s" % (e["fn"], how, what, a))
    for s in d["sites"]:
        for u in s["uses"]:
            ctx.report("%s|loaded|%s|%s%s" % (s["fn"], s["to"], u[0], "|tagged" if s["tag"] else ""), u[1], "%s: the set read at %s may be %s, and is %s" % (s["fn"], s["where"], "a set of one, a tagged pointer," if s["tag"] else "the empty one, null", u[0]))
    ctx.count("loads of sets followed, as null and as sets of one", d["loads"]); ctx.count("loads with too many paths", d["loadover"]); ctx.count("paths followed (steps)", d["steps"]); ctx.count("functions", d["functions"])
    for f in MUST:
        if f not in have: raise vbuild.Broken("%s not found" % f)
    ctx.need(ctx.cov.get("entries followed with a null set", 0), 40, "set operations"); ctx.need(d["loads"], 80, "loads of sets"); ctx.need(ctx.cov.get("answers compared", 0), 12, "answers")
