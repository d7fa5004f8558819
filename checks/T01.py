import os
import vbuild, classes
from classes import show
from vbuild import Broken

def ucd():
    cat, first = {}, None
    for l in open(os.path.join(vbuild.REPO, "share/ucd/UnicodeData.txt")):
        f = l.rstrip("\n").split(";")
        if len(f) < 3: continue
        cp = int(f[0], 16)
        if f[1].endswith(", First>"): first = cp; continue
        if f[1].endswith(", Last>"):
            for x in range(first, cp + 1): cat[x] = f[2]
            continue
        cat[cp] = f[2]
    sc = {}
    for l in open(os.path.join(vbuild.REPO, "share/ucd/Scripts.txt")):
        l = l.split("#")[0].strip()
        if not l: continue
        a, b = [x.strip() for x in l.split(";")]
        x, y = [int(z, 16) for z in a.split("..")] if ".." in a else (int(a, 16),) * 2
        for z in range(x, y + 1): sc[z] = b
    if len(cat) < 100000 or len(sc) < 100000:
        raise Broken("Unicode data in share/ucd is not readable")
    return cat, sc

def run(ctx):
    ctx.rule = ("The constant initialisers of every utf8_* class table are read from the compiled sources and expanded to "
                "sets of code points; set algebra over 0..10FFFF decides: category = union of its subcategories, "
                "subcategories disjoint, assigned = union of all categories less the utf8_private planes, scripts disjoint, "
                "within and covering the assigned code points; and each table equals the set the Unicode data files in "
                "share/ucd give for its name.")
    g, _ = classes.globals_of(ctx, lambda s: "/libre/class/" in s)
    tb = {n[5:]: t for n, t in classes.tables(g).items() if n.startswith("utf8_")}
    cat, sc = ucd()
    bycat, bysc = {}, {}
    for k, v in cat.items(): bycat.setdefault(v, set()).add(k); bycat.setdefault(v[0], set()).add(k)
    for k, v in sc.items(): bysc.setdefault(v, set()).add(k)
    major = [m for m in tb if m in bycat and len(m) == 1]
    minor = [m for m in tb if m in bycat and len(m) == 2]
    script = [m for m in tb if m in bysc]
    ctx.need(len(major), 7, "general categories"); ctx.need(len(minor), 11, "subcategories"); ctx.need(len(script), 60, "scripts")
    def where(m): return "%s:%d" % (tb[m].file, tb[m].line)
    def rep(m, rule, msg): ctx.report("%s|utf8_%s" % (rule, m), where(m), "utf8_%s: %s" % (m, msg))
    for m, t in tb.items():
        ctx.count("tables"); ctx.count("ranges", t.n)
        if t.off != 0 or t.count != t.n: rep(m, "length", "the table's stored length is %d but %d ranges are given" % (t.count, t.n))
        seen = set()
        for a, b in t.ranges:
            if a > b or b > 0x10FFFF: rep(m, "range", "range %X..%X is inverted or out of bounds" % (a, b)); continue
            r = set(range(a, b + 1))
            if r & seen: rep(m, "overlap", "range %X..%X overlaps another" % (a, b))
            seen |= r
    def same(m, want, rule, what):
        ctx.count("set equalities decided")
        if tb[m].set != want:
            miss, extra = want - tb[m].set, tb[m].set - want
            rep(m, rule, "is not %s: %d code points missing (%s), %d too many (%s)" % (what, len(miss), show(miss), len(extra), show(extra)))
    for m in major:
        u = set()
        for k in minor:
            if k[0] == m: u |= tb[k].set
        if m == "C": u |= bycat.get("Cc", set())   # Cc has no table of its own
        same(m, u, "union", "the union of its subcategories")
    def disjoint(ms, what):
        seen = {}
        for m in sorted(ms):
            ctx.count("disjointness obligations")
            for x in tb[m].set:
                if x in seen:
                    rep(m, "disjoint", "shares %04X with utf8_%s, another %s" % (x, seen[x], what)); break
            for x in tb[m].set: seen.setdefault(x, m)
        return set(seen)
    allcat = disjoint(minor, "subcategory") | bycat.get("Cc", set())
    allsc = disjoint(script, "script")
    if "assigned" not in tb or "private" not in tb: raise Broken("utf8_assigned or utf8_private has no table")
    same("assigned", allcat - tb["private"].set, "assigned", "the union of all general categories (less utf8_private)")
    same("private", {x for x, c in cat.items() if c == "Co" and x >= 0xF0000}, "private", "the supplementary private use planes")
    for m in script:
        ctx.count("script within assigned obligations")
        d = tb[m].set - allcat
        if d: rep(m, "unassigned", "contains unassigned code points %s" % show(d))
    d = allcat - allsc - tb["private"].set - set(x for x in allcat if x not in sc)
    if d: ctx.report("cover", "src/libre/class", "assigned code points in no script: %s" % show(d))
    for m in major + minor: same(m, bycat[m], "ucd", "the set UnicodeData.txt gives for it")
    for m in script: same(m, bysc[m], "ucd", "the set Scripts.txt gives for it")
    for m in sorted(set(bycat) | set(bysc)):
        if m not in tb and m != "Cc": ctx.report("absent|" + m, "src/libre/class", "no table for Unicode property %s" % m)
    for m in sorted(minor)[:4] + sorted(script)[:4]: ctx.sample("utf8_%s = %d code points" % (m, len(tb[m].set)))
