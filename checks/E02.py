import vbuild

SPEC = """field fsm_state end
field fsm endcount
field fsm statecount
field fsm states
field fsm_state epsilons
field fsm_state edges
record fsm_state
record fsm
test end
call fsm_setend
call fsm_isend
call fsm_free
call f_free
"""
RULE = ("Every path (clang's control flow graph, each loop entered again at most once, static callees expanded into their callers) through every library function that writes the end mark of a state, the count of end states, the count of "
        "states, or copies whole states. Violations: a mark set or cleared without the count going up or down by one on the same path, or the other way round, or without a test of the mark before; "
        "the count, or the count of states, taken or added from another automaton without the other and its states; the states dropped without the count; "
        "the number of states reduced, or a state overwritten by another, in a function that never clears the mark of what it drops (fsm_setend(..., 0)); "
        "one state dropped on a path that neither clears a mark nor looks at one.")

class Ev:
    __slots__ = ("k", "a", "b", "c", "d", "line")
    def __init__(s, t): s.k, s.a, s.b, s.c, s.d, s.line = t

def expand(fns, name, depth=0):
    """event sequences of a function with static callees in place"""
    out = []
    for p in fns[name]["paths"]:
        seqs = [[]]
        for e in map(Ev, p):
            if e.k == "end": continue
            if e.k == "call" and e.a in fns and fns[e.a]["static"] and depth < 3 and e.a != name and deep(fns, fns[e.a]):
                subs = expand(fns, e.a, depth + 1)[:16] or [[]]
                seqs = [s + t for s in seqs for t in subs][:256]
            else:
                for s in seqs: s.append(e)
        out += seqs
        if len(out) > 6000: break
    return out

def interesting(f):
    return any(e[0] == "copy" or (e[0] == "write" and e[1] in ("end", "endcount", "statecount")) for p in f["paths"] for e in p)

def deep(fns, f, d=0):
    return interesting(f) or (d < 3 and any(e[0] == "call" and e[1] in fns and fns[e[1]]["static"] and e[1] != f["fn"] and deep(fns, fns[e[1]], d + 1) for p in f["paths"] for e in p))

def judge(seq):
    """[(kind, line, message)]"""
    bad = []
    init = {e.b for e in seq if e.k == "write" and e.a == "epsilons"} & {e.b for e in seq if e.k == "write" and e.a == "edges"}
    W = [e for e in seq if e.k == "write"]
    marks = [e for e in W if e.a == "end" and not (e.b in init and e.c == "=0")]
    cnt = [e for e in W if e.a == "endcount" and not e.c.startswith("=")]
    steps = [e for e in cnt if not e.d]
    up = sum(1 for e in steps if e.c == "+=1"); dn = sum(1 for e in steps if e.c == "-=1")
    m1 = sum(1 for e in marks if e.c in ("=1", "|=1")); m0 = sum(1 for e in marks if e.c in ("=0", "&=0"))
    known = up + dn == len(steps) and m1 + m0 == len(marks)
    if (known and (up != m1 or dn != m0)) or (not known and len(steps) != len(marks)):
        e = (marks + steps)[0]
        bad.append(("pair", e.line, "the mark is set %d and cleared %d times where the count goes up %d and down %d" % (m1, m0, up, dn) if known else "%d changes of the mark, %d of the count" % (len(marks), len(steps))))
    for e in marks:
        if e.b in init: continue
        i = seq.index(e)
        if not any(x.k == "test" and x.a == "end" for x in seq[:i]): bad.append(("untested", e.line, "the mark is changed, and counted, without looking at what it was"))
    for e in W:
        if e.a == "endcount" and e.d.endswith("|endcount"):
            src = e.d.split("|")[0]; op = e.c[0] if e.c[0] != "=" else "="
            if not any(x.a == "statecount" and x.d == src + "|statecount" and x.c[0] == e.c[0] and x.b == e.b for x in W): bad.append(("count", e.line, "the count of end states is taken from %s and its states are not" % src))
        if e.a == "statecount" and e.d.endswith("|statecount"):
            src = e.d.split("|")[0]
            if not any(x.a == "endcount" and x.d == src + "|endcount" and x.c[0] == e.c[0] and x.b == e.b for x in W): bad.append(("count", e.line, "the states of %s are taken over and the count of end states is not" % src))
        if e.a == "statecount" and e.c == "=0":
            i = seq.index(e)
            if not any(x.a == "endcount" and x.b == e.b and x.c == "=0" for x in W) and not any(x.k == "call" and x.a in ("fsm_free", "f_free") and x.b.split(",")[-1] == e.b for x in seq[i:]): bad.append(("drop", e.line, "the states of %s are dropped and its count of end states stays" % e.b))
        if e.a == "endcount" and e.c.startswith("=") and not e.d and not any(x.a == "statecount" and x.b == e.b and x.c == "=0" for x in W): bad.append(("count", e.line, "the count of end states is set by itself"))
    return bad

def run(ctx):
    ctx.rule = RULE
    P = vbuild.astpaths(SPEC, lambda s: vbuild.group(s) in vbuild.LIBGROUPS and "/libre/class/" not in s)
    marks = 0
    for rel, L in sorted(P.items()):
        fns = {f["fn"]: f for f in L}
        called = {e[1] for f in L for p in f["paths"] for e in p if e[0] == "call"}
        for f in L:
            if not deep(fns, f): continue
            if f["truncated"]: ctx.count("functions with more paths than are followed")
            ctx.count("functions examined"); ctx.sample("%s:%d %s(): %d paths" % (rel, f["line"], f["fn"], len(f["paths"])))
            seqs = expand(fns, f["fn"]); ctx.count("paths", len(seqs))
            own = [x for s in seqs for x in judge(s)]
            if own and f["static"] and f["fn"] in called: continue      # reported, if at all, in the callers it is expanded into
            for kind, line, msg in own:
                ctx.report("%s|%s|%s" % (rel, f["fn"], kind), "%s:%d" % (rel, line), "%s(): %s" % (f["fn"], msg))
            allv = [e for s in seqs for e in s]
            marks += sum(1 for e in allv if e.k == "write" and e.a == "end")
            lowers = [e for e in allv if e.k == "write" and e.a == "statecount" and not e.d and (e.c[0] == "-" or (e.c.startswith("=") and e.c != "=0"))]
            moves = [e for e in allv if e.k == "copy" and e.a == "fsm_state"]
            clears = [e for e in allv if e.k == "call" and e.a == "fsm_setend" and e.b.split(",")[-1] == "0"]
            takes = any(e.k == "write" and e.a == "statecount" and e.d for e in allv)
            if f["static"] and f["fn"] in called: continue
            if lowers and not clears: ctx.report("%s|%s|lower" % (rel, f["fn"]), "%s:%d" % (rel, lowers[0].line), "%s(): states are removed without clearing their end marks first" % f["fn"])
            single = max((sum(1 for e in q if e.k == "write" and e.a == "statecount" and e.c == "-=1") for q in seqs), default=0) == 1
            for q in seqs if single else []:      # one state fewer: its mark is cleared, or looked at, on the way there
                for i, e in enumerate(q):
                    if e.k == "write" and e.a == "statecount" and e.c == "-=1" and clears and not any((x.k == "call" and x.a == "fsm_setend" and x.b.split(",")[-1] == "0") or (x.k == "call" and x.a == "fsm_isend") or (x.k == "test" and x.a == "end") for x in q[:i]):
                        ctx.report("%s|%s|lower" % (rel, f["fn"]), "%s:%d" % (rel, e.line), "%s(): on some path a state is removed without clearing its end mark first" % f["fn"])
            if moves and not lowers and not takes: ctx.report("%s|%s|move" % (rel, f["fn"]), "%s:%d" % (rel, moves[0].line), "%s(): a state is overwritten with another, and none is removed" % f["fn"])
            # what is cleared must be cleared before it is overwritten
            for s in seqs:
                for i, e in enumerate(s):
                    if e.k == "call" and e.a == "fsm_setend" and e.b.split(",")[-1] == "0":
                        x = e.b.split(",")[1] if e.b.count(",") >= 2 else "?"
                        if any(c.k == "copy" and c.a == "fsm_state" and c.b.endswith("[" + x + "]") for c in s[:i]) and not any(c.k == "call" and c.a == "fsm_setend" and c.b == e.b for c in s[:i]):
                            ctx.report("%s|%s|late" % (rel, f["fn"]), "%s:%d" % (rel, e.line), "%s(): the mark is cleared after the state has been replaced" % f["fn"])
    ctx.need(marks, 3, "writes to the end mark")
