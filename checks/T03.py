import os, re, json, subprocess
import vbuild, classes
from vbuild import Broken

# What each name means (POSIX bracket classes, pcrepattern(3), SQL:2003 8.6.3; re(1), fsm(1), lx(1))
NATIVE = {"[:%s:]" % n: "class_" + n for n in
          "alnum alpha ascii hspace cntrl digit graph lower print punct space upper vspace word xdigit".split()}
PCRE = {"[:%s:]" % n: "class_" + n for n in "alnum alpha ascii cntrl digit graph lower print punct space upper word xdigit".split()}
PCRE.update({"[:blank:]": "class_hspace", "\\d": "class_digit", "\\h": "class_hspace_pcre", "\\s": "class_space",
             "\\v": "class_vspace_pcre", "\\w": "class_word", "\\D": "class_notdigit", "\\H": "class_nothspace_pcre",
             "\\S": "class_notspace", "\\V": "class_notvspace_pcre", "\\W": "class_notword", "\\N": "class_notnl"})
SQL = {"[:%s:]" % n.upper(): "class_" + n for n in "alnum alpha digit lower upper".split()}
SQL.update({"[:SPACE:]": "class_spchr", "[:WHITESPACE:]": "class_space"})
DIALECT = {"re_class_native": NATIVE, "re_class_pcre": PCRE, "re_class_sql": SQL}

ALIAS = {  # other documented names of an enumerator or function
    "FSM_PRINT_AMD64_NASM": ["amd64"], "FSM_PRINT_VMC": [], "OP_COMPLEMENT": ["invert"], "OP_REVERSE": ["rev"],
    "OP_DETERMINISE": ["dfa", "todfa"], "OP_MINIMISE": ["min"], "OP_RM_EPSILONS": ["remove_epsilons"], "OP_CONCAT": ["cat"],
    "OP_SUBTRACT": ["sub", "minus"], "OP_EQUAL": ["equals", "equal"], "AST_PRINT_DOT": ["ast"], "LX_PRINT_NONE": ["test"],
    "API_DYNBUF": ["dyn"], "API_FIXEDBUF": ["fixed"], "RE_ICASE": ["caseless"], "RE_SINGLE": ["dotall"],
    "fsm_isdfa": ["dfa"], "fsm_isend": ["hasend", "end", "accept", "hasaccept"],
    "fsm_hasnondeterminism": ["ambiguity", "hasambiguity"], "fsm_hasepsilons": ["epsilons"],
    "query_countstates": ["count"], "query_required_chars": ["chars", "requiredchars"], "fsm_equal": ["isequal", "areequal"],
}
EXCEPT = {("print_name", "c", "FSM_PRINT_VMC")}        # rx's "c" is the vm-based C output
LETTER = {"i": {"RE_ICASE"}, "t": {"RE_TEXT"}, "g": {"RE_TEXT"}, "m": {"RE_MULTI"}, "r": {"RE_REVERSE"}, "s": {"RE_SINGLE"},
          "z": {"RE_ZONE"}, "a": {"RE_ANCHORED"}, "b": {"RE_ANCHORED"}, "x": {"RE_EXTENDED"}}

def norm(s): return re.sub(r"[^a-z0-9]", "", s.lower())

def prefix(items):
    p = os.path.commonprefix(items)
    return p[:p.rfind("_") + 1]

def run(ctx):
    ctx.rule = ("Every table of the sources that pairs a name with a class, an enumerator or a function is read from the syntax "
                "tree, and its pairs compared with the meaning of the name (POSIX/PCRE/SQL class names; enumerator and function names and "
                "their documented aliases): a name paired with the item of another name, a duplicate, a class missing "
                "from class_name() or listed under another name are violations. Every search loop over such a table is analysed in the IR "
                "(scalar evolution): it must compare every entry, exactly, and return the field of the entry that matched. Every "
                "switch that maps an enumerator to a function or a letter to a flag is compared likewise.")
    rel = lambda p: os.path.relpath(p, vbuild.REPO) if os.path.isabs(p) else p
    facts = vbuild.asts(lambda s: "/libre/class/" not in s)
    enums = {}
    for d in facts.values():
        for e in d["enums"]:
            if not e["sys"] and len(e["items"]) > 1: enums.setdefault(e["name"], [i[0] for i in e["items"]])
    names = {}     # enumerator -> names it answers to
    for en, items in enums.items():
        p = prefix(items)
        for i in items: names[i] = {norm(i[len(p):])} | {norm(a) for a in ALIAS.get(i, [])}
    fnnames = {f: {norm(a) for a in al} for f, al in ALIAS.items() if f not in names}
    # ---- class tables and dialect tables
    seen = set(); nametables = {}
    gl, _ = classes.globals_of(ctx, lambda s: "/libre/class/" in s)
    have = set(classes.tables(gl))
    listed = {}; dialect_of = {}
    for relf, d in sorted(facts.items()):
        for t in d["tables"]:
            w = "%s:%d" % (rel(t["file"]), t["line"])
            if w in seen: continue
            seen.add(w)
            rows = [r for r in t["rows"] if isinstance(r, list)]
            strs = [[c["str"] for c in r if isinstance(c, dict) and "str" in c] for r in rows]
            vars_ = [[c["var"] for c in r if isinstance(c, dict) and str(c.get("var", "")) in have] for r in rows]
            if rows and sum(1 for s, v in zip(strs, vars_) if s and v) >= len(rows) - 1 and any(vars_):
                nametables[(relf, t["var"], t["fn"])] = t
                m = re.match(r"src/libre/dialect/(\w+)/", relf)
                keys = {}
                for s, v in zip(strs, vars_):
                    if not s or not v: continue
                    ctx.count("class name entries"); ctx.sample("%s: %s -> %s" % (relf, s[0], v[0]))
                    if s[0] in keys: ctx.report("dupname|%s|%s" % (relf, s[0]), w, "the name %s is listed twice" % s[0])
                    keys[s[0]] = v[0]
                    if m:
                        ref = {"native": NATIVE, "pcre": PCRE, "sql": SQL}.get(m.group(1), {})
                        if s[0] in ref and ref[s[0]] != v[0]:
                            ctx.report("dialect|%s|%s" % (m.group(1), s[0]), w, "in dialect %s, %s resolves to %s; it names %s" % (m.group(1), s[0], v[0], ref[s[0]]))
                        elif s[0] not in ref:
                            inner = norm(s[0].strip("[]:"))
                            others = [c for c in have if norm(c.split("_", 1)[1]) == inner]
                            if others and v[0] not in others:
                                ctx.report("dialect|%s|%s" % (m.group(1), s[0]), w, "%s resolves to %s; it names %s" % (s[0], v[0], others[0]))
                    else:
                        if v[0] in listed: ctx.report("dupclass|" + v[0], w, "%s is listed twice" % v[0])
                        listed[v[0]] = s[0]
                        if norm(v[0].split("_", 1)[1]) != norm(s[0]):
                            ctx.report("classname|" + v[0], w, "%s is listed under the name %s" % (v[0], s[0]))
                if m:
                    dialect_of[m.group(1)] = keys
                continue
            # ---- names against enumerators and functions
            keys = {}; fns = {f for r in rows for c in r if isinstance(c, dict) for f in [c.get("fn")] if f}
            for r, s in zip(rows, strs):
                tgt = [c.get("enum") or c.get("fn") for c in r if isinstance(c, dict) and (c.get("enum") in names or c.get("fn"))]
                if s and tgt:
                    nametables[(relf, t["var"], t["fn"])] = t
                    if s[0] in keys: ctx.report("dupname|%s|%s|%s" % (relf, t["fn"], s[0]), w, "the name \"%s\" is listed twice in %s" % (s[0], t["fn"] or t["var"]))
                    keys[s[0]] = tgt
                    for x in tgt:
                        if (t["fn"], s[0], x) in EXCEPT: continue
                        pool = names if x in names else {f: fnnames.get(f, set()) | {norm(f), norm(f.split("_", 1)[-1])} for f in fns | set(fnnames)}
                        own = pool.get(x, set())
                        if x in names:
                            sib = [i for e in enums.values() if x in e for i in e]
                        else: sib = [f for f in pool if f in fns]
                        ctx.count("name table entries")
                        if norm(s[0]) in own or x.endswith("_NONE"): continue
                        if any(norm(s[0]) in (names if y in names else pool).get(y, set()) for y in tgt): continue
                        other = [i for i in sib if i != x and norm(s[0]) in pool.get(i, set())]
                        if other: ctx.report("name|%s|%s|%s" % (relf, t["fn"], s[0]), w, "\"%s\" resolves to %s; it names %s" % (s[0], x, other[0]))
                # enumerator -> function rows (dialect -> parser)
                en = [c["enum"] for c in r if isinstance(c, dict) and c.get("enum") in names]
                fn = [c["fn"] for c in r if isinstance(c, dict) and c.get("fn")]
                if en and fn:
                    sib = [i for e in enums.values() if en[0] in e for i in e]
                    for f in fn:
                        ctx.count("enumerator to function entries")
                        ft = norm(f.split("_")[-1])
                        o = [i for i in sib if ft in names[i]]
                        if o and en[0] not in o: ctx.report("map|%s|%s" % (relf, en[0]), w, "%s is served by %s, which serves %s" % (en[0], f, o[0]))
    for c in sorted(have):
        ctx.count("classes")
        if c not in listed: ctx.report("unlisted|" + c, "src/libre/class_name.c", "%s has no name in class_name()" % c)
    ctx.need(len(listed), 80, "classes in class_name()")
    for dl, ref in (("native", NATIVE), ("pcre", PCRE), ("sql", SQL)):
        if dl not in dialect_of: raise Broken("no class table found for dialect " + dl)
        for n in ref:
            if n not in dialect_of[dl]: ctx.report("missing|%s|%s" % (dl, n), "src/libre/dialect/%s" % dl, "dialect %s has no class named %s" % (dl, n))
    # ---- switches
    for relf, d in sorted(facts.items()):
        for s in d["switches"]:
            w = "%s:%d" % (rel(s["file"]), s["line"])
            if w + str(s["fn"]) in seen: continue
            seen.add(w + str(s["fn"]))
            if s["enum"].endswith("print_lang") and s["enum"] in enums:
                items = enums[s["enum"]]
                for c in s["cases"]:
                    own = [n for n in c["names"] if n in items]
                    if not own: continue
                    for f in c["fns"]:
                        m = [i for i in items if f.lower().endswith("print_" + i.lower()[len(prefix(items)):])]
                        m = sorted(set(m), key=len)
                        if not m: continue
                        ctx.count("enumerator to function cases")
                        best = m[-1]
                        if best not in own and best not in ALIAS:
                            ctx.report("case|%s|%s|%s" % (relf, s["fn"], own[0]), "%s:%d" % (rel(s["file"]), c["line"]), "%s is dispatched to %s, which is named for %s" % (own[0], f, best))
            else:
                for c in s["cases"]:
                    fl = [e for e in c["enums"] if e in enums.get("re_flags", []) and e != "RE_FLAGS_NONE"]
                    ls = [chr(v) for v in c["vals"] if 32 < v < 127]
                    if len(fl) == 1 and len(ls) == 1 and ls[0] in LETTER:
                        ctx.count("flag letters")
                        if fl[0] not in LETTER[ls[0]]:
                            ctx.report("letter|%s|%s|%s" % (relf, s["fn"], ls[0]), "%s:%d" % (rel(s["file"]), c["line"]), "flag letter %s sets %s" % (ls[0], fl[0]))
    # ---- the searches themselves
    groups = {}
    for relf in facts: groups.setdefault(vbuild.group(relf), []).append(relf)
    tool = vbuild.tool("tablelookup")
    srcs = sorted({k[0] for k in nametables})
    bcs = vbuild.bitcode(os.path.join(ctx.tmp, "lk"), lambda s: s in srcs)
    found = {}
    for relf in srcs:
        out = os.path.join(ctx.tmp, "tl.json")
        subprocess.check_call([tool, bcs[relf], out])
        for l in json.load(open(out)):
            for (rf, var, fn), t in nametables.items():
                if rf == relf and (l["fn"] == fn or (not fn and l["table"] == var)) and (l["table"] == var or l["table"].endswith("." + var) or re.match(re.escape(var) + r"\.\d+$", l["table"].split("__const.")[-1])):
                    found.setdefault((rf, var, fn), []).append(l)
    for k, t in sorted(nametables.items()):
        w = "%s:%d" % (rel(t["file"]), t["line"])
        if k not in found:
            ctx.count("searches not of a recognised form"); ctx.notes.append("no search loop recognised over %s in %s" % (k[1], k[0])); continue
        for l in found[k]:
            ctx.count("search loops decided"); wl = "%s:%d" % (rel(l["file"]), l["line"])
            key = "search|%s|%s" % (k[0], l["fn"])
            n = l["n"]
            empty = t["rows"] and isinstance(t["rows"][-1], list) and all(isinstance(c, dict) and c.get("int") == 0 for c in t["rows"][-1])
            if l["cmp"] not in ("strcmp", "==") :
                if l["cmp"] in ("strncmp", "strcasecmp", "strncasecmp", "memcmp", "strstr"): ctx.report(key + "|cmp", wl, "%s compares names with %s, not exactly" % (l["fn"], l["cmp"]))
                continue
            if not (0 <= l["first"] < l["esz"]) : ctx.report(key + "|first", wl, "%s starts its search at entry %d" % (l["fn"], l["first"] // l["esz"]))
            if l["step"] != l["esz"]: ctx.report(key + "|step", wl, "%s steps by %d bytes through entries of %d" % (l["fn"], l["step"], l["esz"]))
            if l["count"] is not None and l["count"] != n and not (empty and l["count"] == n - 1):
                ctx.report(key + "|count", wl, "%s searches %d of the table's %d entries" % (l["fn"], l["count"], n))
            if l["ne_leaves"] and not l["eq_leaves"]: ctx.report(key + "|polarity", wl, "%s stops at the first entry that differs" % l["fn"])
            r = l["ret"]
            if isinstance(r, dict) and l["eq_leaves"] and not (0 <= r["off"] < l["esz"] and r["step"] == l["esz"]):
                ctx.report(key + "|ret", wl, "%s returns the field of another entry than the one that matched" % l["fn"])
            if r == "NULL" and l["eq_leaves"]: ctx.report(key + "|retnull", wl, "%s returns NULL for a name it finds" % l["fn"])
    ctx.need(ctx.cov.get("search loops decided", 0), 5, "search loops over name tables")
