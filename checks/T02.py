import classes
from classes import show
from vbuild import Broken

def R(*rs):
    s = set()
    for r in rs:
        a, b = r if isinstance(r, tuple) else (r, r)
        s.update(range(a, b + 1))
    return s

DIGIT, UPPER, LOWER = R((0x30, 0x39)), R((0x41, 0x5A)), R((0x61, 0x7A))
# POSIX.1-2017 7.3.1 (C locale) and pcrepattern(3)
REF = {
    "alnum": DIGIT | UPPER | LOWER, "alpha": UPPER | LOWER, "any": R((0, 255)), "ascii": R((0, 127)),
    "cntrl": R((0, 0x1F), 0x7F), "digit": DIGIT, "graph": R((0x21, 0x7E)), "lower": LOWER, "upper": UPPER,
    "print": R((0x20, 0x7E)), "punct": R((0x21, 0x7E)) - DIGIT - UPPER - LOWER, "space": R((9, 13), 0x20),
    "xdigit": DIGIT | R((0x41, 0x46), (0x61, 0x66)), "word": DIGIT | UPPER | LOWER | {0x5F}, "spchr": {0x20},
    "hspace": {9, 0x20}, "hspace_pcre": {9, 0x20, 0xA0}, "vspace": R((10, 13)), "vspace_pcre": R((10, 13), 0x85),
    "nl": {10}, "bsr": R((10, 13), 0x85),
}

def run(ctx):
    ctx.rule = ("The constant initialisers of every class_* table are read from the compiled sources and expanded to sets of "
                "bytes; each is compared with the set POSIX (C locale) or pcrepattern(3) gives for its name, each class_notX "
                "with the complement of class_X in 0..FF, and every table (class_* and utf8_*) is checked for its stored length, "
                "inverted, overlapping and out-of-range ranges.")
    g, _ = classes.globals_of(ctx, lambda s: "/libre/class/" in s)
    tb = classes.tables(g)
    cl = {n[6:]: t for n, t in tb.items() if n.startswith("class_")}
    ctx.need(len([n for n in cl if n in REF]), 8, "named classes")
    def rep(t, rule, msg): ctx.report("%s|%s" % (rule, t.name), "%s:%d" % (t.file, t.line), "%s: %s" % (t.name, msg))
    def same(t, want, rule, what):
        if t.set != want:
            rep(t, rule, "is not %s: missing {%s}, too many {%s}" % (what, show(want - t.set), show(t.set - want)))
    for n, t in sorted(tb.items()):
        ctx.count("tables"); ctx.count("ranges", t.n)
        top = 0xFF if n.startswith("class_") else 0x10FFFF
        if t.off != 0 or t.count != t.n: rep(t, "length", "stored length is %d but %d ranges are given" % (t.count, t.n))
        seen = set()
        for a, b in t.ranges:
            if a > b: rep(t, "inverted", "range %X..%X is inverted" % (a, b)); continue
            if b > top: rep(t, "bounds", "range %X..%X is out of bounds" % (a, b)); continue
            s = set(range(a, b + 1))
            if s & seen: rep(t, "overlap", "range %X..%X overlaps another" % (a, b))
            seen |= s
    for n, t in sorted(cl.items()):
        if n in REF:
            ctx.count("classes compared with their standard"); same(t, REF[n], "standard", "the standard set of that name")
            ctx.sample("%s = {%s}" % (t.name, show(t.set, 6)))
        elif n.startswith("not") and n[3:] in cl:
            ctx.count("complements decided"); same(t, R((0, 255)) - cl[n[3:]].set, "complement", "the complement of class_" + n[3:])
            if n[3:] in REF: same(t, R((0, 255)) - REF[n[3:]], "complement", "the complement of class_" + n[3:])
        else:
            ctx.count("classes with no standard meaning"); ctx.notes.append("no reference set for " + t.name)
