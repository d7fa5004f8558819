import json, os, re, subprocess
import vbuild
from vbuild import REPO

RULE = ("Every widening of a plain char with its sign, in every library and tool source, is followed through assignments, joins, calls and returns (LLVM IR in SSA form). "
        "A use that depends on more than the low eight bits is a violation: an index, a shift, a division, an argument of a ctype function or of a call through a pointer, an integer conversion of printf, "
        "a store to a wider object, a return to a caller outside, assembling a wider number, a comparison with a value above 127, with -1, with an unsigned byte or a wider value, or an upper bound without a lower. "
        "A use is accepted where the branches that dominate it show the byte to be 0..127. 8-bit numbers (int8_t) are not bytes. "
        "A comparison of a plain char with a number that a signed char never passes is a violation. In the C the printers write, a byte read through a pointer is converted to unsigned char, or kept in one.")

def modules(ctx):
    for g in ["lib"] + sorted({vbuild.group(s) for s in vbuild.sources()} - set(vbuild.LIBGROUPS)):
        want = (lambda s: vbuild.group(s) in vbuild.LIBGROUPS) if g == "lib" else (lambda s: vbuild.group(s) == g)
        b = vbuild.bitcode(os.path.join(ctx.tmp, "bc-" + g), want)
        mains = [k for k in b if has_main(k)]
        rest = [b[k] for k in b if k not in mains]
        sets = [[b[m]] + rest for m in mains] if mains else [rest]
        for i, s in enumerate(sets):
            o = os.path.join(ctx.tmp, "%s%d.bc" % (g, i)); vbuild.link(s, o); yield g, o

def has_main(rel):
    import re
    return re.search(r"(?m)^\s*(int\s+)?main\s*\(", open(os.path.join(REPO, rel), errors="replace").read()) is not None

# string literals of a source, comments left out
TOK = re.compile(r'/\*.*?\*/|//[^\n]*|\'(?:\\.|[^\'\\\n])*\'|"((?:\\.|[^"\\\n])*)"', re.S)
def literals(rel):
    s = open(os.path.join(REPO, rel), errors="replace").read()
    for m in TOK.finditer(s):
        if m.group(1) is not None: yield s.count("\n", 0, m.start()) + 1, re.sub(r"\\[tn]", " ", m.group(1))

def generated(ctx):
    """the text of the C that the printers write: a byte taken through a pointer is converted, or kept in an unsigned char"""
    for rel in vbuild.sources():
        if "/print/" not in rel or rel.startswith("src/print/"): continue
        L = list(literals(rel))
        names = {n for _, t in L if "struct" not in t for n in re.findall(r"unsigned char (\w+)\b", t)}
        plain = set()
        for n, t in L:
            for m in re.finditer(r"(?:^|[\s;{])((?:unsigned )?\w+) (\w+)(?: = [^;]*)?;", t):       # the latest declaration of a name decides
                if m.group(1) == "return" or "struct" in t: continue
                (plain.add if m.group(1) == "char" else plain.discard)(m.group(2))
            for m in re.finditer(r"switch \((.*?)%s\)", t):
                ctx.count("bytes read by generated code")
                if "unsigned char" not in m.group(1): ctx.report("%s|text|switch" % rel, "%s:%d" % (rel, n), "the C written here switches on a byte that is not converted to unsigned char: \"%s\"" % t)
            if re.search(r"\bstruct\b", t) and re.search(r"(?<!unsigned )\bchar \w+;", t):
                ctx.report("%s|text|field" % rel, "%s:%d" % (rel, n), "the C written here keeps a byte in a member that is a plain char: \"%s\"" % t)
            for m in re.finditer(r"return (\w+);", t):
                if m.group(1) in plain: ctx.report("%s|text|return" % rel, "%s:%d" % (rel, n), "the C written here returns a plain char as an int: \"%s\"" % t)
            for m in re.finditer(r"(?:(\w+) = |return [^;]*?)(\(unsigned char\) ?)?\*[\w>-]*p\+\+", t):
                ctx.count("bytes read by generated code")
                if not m.group(2) and m.group(1) not in names: ctx.report("%s|text|read" % rel, "%s:%d" % (rel, n), "the C written here reads a byte that is not converted to unsigned char: \"%s\"" % t)

def run(ctx):
    ctx.rule = RULE
    A = vbuild.asts(lambda s: "/libre/class/" not in s)
    ex = set()
    for r, d in A.items():
        for c in d["charconv"]:
            if c["from"] in ("int8_t", "signed char", "const int8_t", "__int8_t"):
                ex.add("%s:%d" % (os.path.relpath(c["file"], REPO) if os.path.isabs(c["file"]) else c["file"], c["line"]))
    seen = set()
    for r, d in A.items():
        for c in d["charcmps"]:
            f = os.path.relpath(c["file"], REPO) if os.path.isabs(c["file"]) else c["file"]
            if (f, c["line"]) in seen: continue
            seen.add((f, c["line"])); ctx.report("%s|%s|never|%s %d" % (f, c["fn"], c["op"], c["n"]), "%s:%d" % (f, c["line"]), "%s(): a char is compared (%s %d) with what decides nothing where char is signed" % (c["fn"], c["op"], c["n"]))
    generated(ctx)
    exf = os.path.join(ctx.tmp, "exempt"); open(exf, "w").write("\n".join(sorted(ex)) + "\n")
    for g, bc in modules(ctx):
        o = os.path.join(ctx.tmp, "bytes.json")
        r = subprocess.run([vbuild.tool("bytes"), bc, o, exf], capture_output=True, text=True)
        if r.returncode != 0: raise vbuild.Broken("bytes: " + r.stderr[-2000:])
        d = json.load(open(o)); ctx.count("programs and libraries"); ctx.count("widened bytes followed", d["sources"]); ctx.count("uses examined", d["uses"])
        for x in d["reports"]:
            f = x["where"].rsplit(":", 1)[0]
            ctx.report("%s|%s|%s|%s" % (f, x["fn"], x["kind"], x["detail"]), x["where"],
                       "%s(): a char widened with its sign%s is used as %s%s" % (x["fn"], "" if x["src"] == x["where"] else " at " + x["src"],
                        {"index": "an index", "ctype": "a ctype argument: ", "compare": "a comparand: ", "order": "a comparand: ", "format": "an argument printed with ", "store": "a value stored ", "return": "a value returned ", "argument": "an argument "}.get(x["kind"], x["kind"]), " " + x["detail"] if x["detail"] else ""))
    ctx.count("numbers of 8 bits left aside (lines)", len(ex))
    ctx.need(ctx.cov.get("widened bytes followed", 0), 40, "widened bytes")
