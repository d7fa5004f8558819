import json, os, re, subprocess
import vbuild
from S03 import literals

def modules(ctx):
    return vbuild.bitcode(os.path.join(ctx.tmp, "vm"), lambda s: "/libfsm/vm/" in s or "/libfsm/print/" in s or s == "src/libfsm/vm.c")

TEXT = {"LT": "<", "LE": "<=", "EQ": "==", "NE": "!=", "GE": ">=", "GT": ">"}

def run(ctx):
    ctx.rule = ("In the IR of the printers and the VM, static functions inlined: each string that reaches a variable, a result or a choice where an instruction's comparison is known "
                "(from the branches and switches that dominate) is the operator with that meaning in the language printed, unsigned where it matters; where one comparison is "
                "replaced by another it is its complement. In the C that the vmops printer writes, each comparison applies the operator of its name. The shell has no <= and >= for strings: < and > are accepted "
                "where a test for equality is printed beside them.")
    b = modules(ctx); o = os.path.join(ctx.tmp, "layout.json")
    r = subprocess.run([vbuild.tool("layout"), o] + [b[k] for k in sorted(b)], capture_output=True, text=True)
    if r.returncode != 0: raise vbuild.Broken("layout: " + r.stderr[-2000:])
    d = json.load(open(o))
    for k, v in d["opcounts"].items(): ctx.count(k, v)
    for x in d["opsamples"]: ctx.sample(x)
    for x in d["opreports"]: ctx.report("%s|%s" % (x["fn"], x["key"]), x["where"], "%s(): %s" % (x["fn"], x["text"]))
    for rel in vbuild.sources():
        if "/libfsm/print/" not in rel: continue
        for n, t in literals(rel):
            for m in re.finditer(r"case \S*op(LT|LE|EQ|NE|GE|GT): ok = (\w+) ([<>=!]+) ", t):
                ctx.count("operators in generated interpreters")
                if m.group(3) != TEXT[m.group(1)]: ctx.report("%s|text|%s" % (rel, m.group(1)), "%s:%d" % (rel, n), "the interpreter written here takes op%s for %s" % (m.group(1), m.group(3)))
    ctx.need(ctx.cov.get("operators judged", 0), 30, "operators")
