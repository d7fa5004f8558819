import json, os
import vbuild

SPEC = os.path.join(vbuild.VERIF, "spec", "o03.json")

def run(ctx, baseline=False):
    ctx.rule = ("Every switch whose controlling expression has an enumerated type (before promotion) is read from the typed syntax "
                "tree. It must name every enumerator. Where it leaves some to a default, that set must be within one of the sets reviewed for "
                "that enumeration in that file (spec/o03.json: the default is right for those members); with no default nothing may be left out. "
                "No case with statements may run on into the next one, except those reviewed. A table pairing an enumerated type with "
                "functions must have a row for every enumerator.")
    rel = lambda p: os.path.relpath(p, vbuild.REPO) if os.path.isabs(p) else p
    spec = {"default": {}, "fall": [], "fns": {}}
    if os.path.exists(SPEC) and not baseline: spec = json.load(open(SPEC))
    out = {"default": {}, "fall": [], "fns": {}}
    facts = vbuild.asts(lambda s: "/libre/class/" not in s)
    seen, enumcount = set(), set()
    for relf, d in sorted(facts.items()):
        enums = {e["name"]: [i[0] for i in e["items"]] for e in d["enums"]}
        vals = {e["name"]: dict((i[0], i[1]) for i in e["items"]) for e in d["enums"]}
        for s in d["switches"]:
            if not s["enum"] or s["enum"] not in enums: continue
            k = (rel(s["file"]), s["line"], s["fn"], relf if "parser" in relf else "")
            if k in seen: continue
            seen.add(k)
            anon = "/" in s["enum"]
            if anon and not relf.endswith("lexer.c"): pass
            ename = "(states of %s)" % s["fn"] if anon else s["enum"]
            where = "%s:%d" % (rel(s["file"]), s["line"])
            got = {n for c in s["cases"] for n in c["names"]}
            gotv = {v for c in s["cases"] for v in c["vals"]}
            # an enumerator with the value of a handled one is handled
            miss = {i for i in enums[s["enum"]] if i not in got and vals[s["enum"]][i] not in gotv}
            hasdef = any(c["default"] for c in s["cases"])
            ctx.count("switches over enumerated types"); ctx.count("enumerators to handle", len(enums[s["enum"]])); enumcount.add(ename)
            key = "%s|%s" % (relf, ename)
            if miss and not hasdef:
                for m in sorted(miss):
                    ctx.report("nodefault|%s|%s|%s" % (key, s["fn"], m), where, "%s: the switch over enum %s has no case for %s and no default" % (s["fn"], ename, m))
            elif miss:
                ctx.count("switches with a reviewed default")
                out["default"].setdefault(key, [])
                if sorted(miss) not in out["default"][key]: out["default"][key].append(sorted(miss))
                allowed = [set(a) for a in spec["default"].get(key, [])]
                out["fns"].setdefault(key, [])
                if s["fn"] not in out["fns"][key]: out["fns"][key].append(s["fn"])
                # a switch in a function not reviewed which picks out a minority of the members is a selection, not a dispatch; one whose default rejects is complete
                select = s["fn"] not in spec["fns"].get(key, []) and (2 * len(miss) > len(enums[s["enum"]]) or any(c["default"] and c["rejects"] for c in s["cases"]))
                if not baseline and not select and not any(miss <= a for a in allowed):
                    best = min(allowed, key=lambda a: len(miss - a), default=set())
                    for m in sorted(miss - best):
                        ctx.report("default|%s|%s|%s" % (key, s["fn"], m), where, "%s: the switch over enum %s has no case for %s, which is left to a default not meant for it" % (s["fn"], ename, m))
            else:
                out["fns"].setdefault(key, [])
                if s["fn"] not in out["fns"][key]: out["fns"][key].append(s["fn"])
                ctx.sample("%s %s: enum %s, all %d handled" % (where, s["fn"], ename, len(enums[s["enum"]])))
            if not anon:
                for c in s["cases"]:
                    if c["end"] == "fall" and not c["last"] and not c["fails"]:
                        for n in c["names"] or ["default"]:
                            fk = "%s|%s|%s" % (relf, ename, n); out["fall"].append(fk)
                            if not baseline and fk not in spec["fall"]:
                                ctx.report("fall|%s|%s" % (s["fn"], fk), "%s:%d" % (rel(s["file"]), c["line"]), "%s: the case for %s runs on into the next case" % (s["fn"], n))
        for t in d["tables"]:
            cols = {}
            for r in t["rows"]:
                if not isinstance(r, list): continue
                if not any(isinstance(c, dict) and c.get("fn") for c in r): continue
                if any(isinstance(c, dict) and "str" in c for c in r): continue
                # the key is the first enumerated column; later columns are attributes
                for c in r:
                    if isinstance(c, dict) and c.get("enum") and c.get("type") in enums:
                        cols.setdefault(c["type"], set()).add(c["enum"]); break
            for e, got in cols.items():
                ctx.count("tables from enumerators to functions")
                for m in enums[e]:
                    if m not in got:
                        ctx.report("table|%s|%s|%s" % (relf, e, m), "%s:%d" % (rel(t["file"]), t["line"]), "no row of %s for enum %s's %s" % (t["var"], e, m))
    ctx.cov["enumerated types"] = len(enumcount)
    ctx.need(ctx.cov.get("switches over enumerated types", 0), 24, "switches over enumerated types")
    return out
