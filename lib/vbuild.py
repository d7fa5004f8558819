"""Compile /repo's current sources to LLVM bitcode with the project's own flags, outside /repo.

Every run starts from the sources: nothing is cached between runs except under VERIF_CACHE (keyed by content hash),
which is only an accelerator for interactive use.
"""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, tempfile, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
CLANG = "/usr/lib/llvm-18/bin/clang" if os.path.exists("/usr/lib/llvm-18/bin/clang") else "clang-18"
LINK = "/usr/lib/llvm-18/bin/llvm-link"

class Broken(Exception):
    """analysis broken: neither pass nor violation"""

def sources():
    """every .c file under src that a Makefile builds (class/ and dialect/ list theirs with loops)"""
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "src/**/*.c"), recursive=True)):
        rel = os.path.relpath(f, REPO)
        d = os.path.dirname(f)
        looped = "/libre/class/" in f or "/libre/dialect/" in f
        if not looped:
            mk = os.path.join(d, "Makefile")
            if not os.path.exists(mk):
                mk = os.path.join(os.path.dirname(d), "Makefile")
            try:
                txt = re.sub(r"(?m)#.*$", "", open(mk).read())
            except OSError:
                txt = ""
            if os.path.basename(f) not in txt:
                continue
        out.append(rel)
    if len(out) < 300:
        raise Broken("only %d source files found under %s/src" % (len(out), REPO))
    return out

def flags(rel):
    fl = ["-std=c99", "-pedantic", "-pthread", "-I", "include", "-I", "src"]
    if "/libre/class/" in rel:
        fl += ["-I", "src/libre", "-D", 'LF_HEADER="class.h"']
    if "/libfsm/vm/" in rel:
        fl += ["-I", "src/libfsm"]
    if os.path.basename(rel) in ("lexer.c", "parser.c"):
        fl += ["-D", 'LX_HEADER="lexer.h"']
    m = re.search(r"/dialect/(\w+)/parser\.c$", rel)
    if m:
        fl += ["-D", "DIALECT=" + m.group(1)]
        if m.group(1) == "pcre":
            fl += ["-D", "PCRE_DIALECT=1"]
    return fl

def group(rel):
    p = rel.split("/")
    return p[1]

LIBGROUPS = ("adt", "print", "libfsm", "libre")

def _compile(args):
    rel, out, extra = args
    cmd = [CLANG] + flags(rel) + ["-w", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", rel, "-o", out] + extra
    r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
    return rel, r.returncode, r.stderr

def bitcode(dest, want=None, extra=()):
    """compile; returns {rel: bcpath}"""
    os.makedirs(dest, exist_ok=True)
    srcs = [s for s in sources() if want is None or want(s)]
    jobs = [(s, os.path.join(dest, s.replace("/", "_")[:-2] + ".bc"), list(extra)) for s in srcs]
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for rel, rc, err in ex.map(_compile, jobs):
            if rc != 0:
                raise Broken("cannot compile %s: %s" % (rel, err[-2000:]))
    return {j[0]: j[1] for j in jobs}

def link(bcs, out):
    r = subprocess.run([LINK, "-o", out] + list(bcs), capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("llvm-link: " + r.stderr[-2000:])
    return out

def tool(name):
    """build engine/<name>.cpp if its binary is missing or older; returns path"""
    src = os.path.join(VERIF, "engine", name + ".cpp")
    bdir = os.path.join(VERIF, ".build")
    os.makedirs(bdir, exist_ok=True)
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in [src] + sorted(glob.glob(os.path.join(VERIF, "engine", "*.h"))))).hexdigest()[:16]
    out = os.path.join(bdir, name + "-" + h)
    if os.path.exists(out):
        return out
    cfg = "/usr/lib/llvm-18/bin/llvm-config"
    cxx = subprocess.check_output([cfg, "--cxxflags"], text=True).split()
    cxx = [c for c in cxx if not c.startswith("-std")]
    ld = subprocess.check_output([cfg, "--ldflags"], text=True).split()
    libs = ["-lLLVM-18"]
    if name.startswith("ast"):
        libs = ["-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-w", "-fno-rtti", "-I", os.path.join(VERIF, "engine")] + cxx + [src, "-o", tmp] + ld + libs
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("cannot build %s: %s" % (name, r.stderr[-3000:]))
    os.rename(tmp, out)
    return out

def asts(want=None, extra=()):
    """typed syntax tree facts of every selected source; {rel: dict}"""
    t = tool("astfacts")
    srcs = [s for s in sources() if want is None or want(s)]
    tmp = tempfile.mkdtemp(prefix="verif-ast-")
    try:
        def one(rel):
            o = os.path.join(tmp, rel.replace("/", "_") + ".json")
            r = subprocess.run([t, rel, o, "--"] + flags(rel) + list(extra), cwd=REPO, capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(o):
                raise Broken("cannot parse %s: %s" % (rel, r.stderr[-2000:]))
            d = json.load(open(o))
            if d["errors"]:
                raise Broken("errors in %s: %s" % (rel, r.stderr[-2000:]))
            return rel, d
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            return dict(ex.map(one, srcs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def astpaths(spec, want=None):
    """event sequences along paths (engine/astpaths.cpp); {rel: [functions]}"""
    t = tool("astpaths")
    srcs = [s for s in sources() if want is None or want(s)]
    tmp = tempfile.mkdtemp(prefix="verif-astp-")
    try:
        sp = os.path.join(tmp, "spec"); open(sp, "w").write(spec)
        def one(rel):
            o = os.path.join(tmp, rel.replace("/", "_") + ".json")
            r = subprocess.run([t, rel, o, sp, "--"] + flags(rel), cwd=REPO, capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(o):
                raise Broken("cannot parse %s: %s" % (rel, r.stderr[-2000:]))
            d = json.load(open(o))
            if d["errors"]:
                raise Broken("errors in %s: %s" % (rel, r.stderr[-2000:]))
            return rel, d["fns"]
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            return dict(ex.map(one, srcs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
