"""Running one check: known findings, evidence, exit status.

exit 0: no violation outside known_findings.txt     exit 1: VIOLATION line printed
exit 2: the analysis could not be carried out (sources do not compile, an anchor vanished): neither pass nor alarm
"""
import importlib, json, os, re, sys, tempfile, time, traceback, shutil
import vbuild
from vbuild import Broken

VERIF = vbuild.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.reports = []      # dicts: key, where, msg
        self.cov = {}          # counts measured by this run
        self.samples = []
        self.rule = ""
        self.level = "other"
        self.notes = []
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)

    def report(self, key, where, msg):
        if not any(r["key"] == key for r in self.reports):
            self.reports.append({"key": key, "where": where, "msg": msg})

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def need(self, n, least, what):
        """analysis broken unless at least `least` instances of `what` were found"""
        if n < least:
            raise Broken("only %d %s found (at least %d expected): the anchor of this analysis has vanished" % (n, what, least))

def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out

def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    ctx = Ctx(pid, tier if tier in ("quick", "thorough") else "quick")
    rc = 0
    try:
        mod = importlib.import_module(pid)
        mod.run(ctx)
        kn = known(pid)
        new = [r for r in ctx.reports if r["key"] not in kn]
        old = [r for r in ctx.reports if r["key"] in kn]
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {"explanation": ctx.rule, "counts": ctx.cov, "samples": ctx.samples}
        if ctx.notes:
            cov["notes"] = ctx.notes
        cov["violations"] = len(new)
        cov["known_findings"] = len(old)
        json.dump({"property": pid, "tier": ctx.tier, "seed": seed, "level": ctx.level, "coverage": cov,
                   "wall_s": round(time.time() - t0, 2)}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
        for r in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, r["where"], r["msg"]))
        stale = [k for k in kn if k not in {r["key"] for r in ctx.reports}]
        for k in stale:
            print("note: known finding no longer present: %s" % k)
        if new:
            rp = os.path.join(ev, pid + ".violations.txt")
            with open(rp, "w") as f:
                for r in new:
                    f.write("%s\n  %s\n  key: %s\n" % (r["where"], r["msg"], r["key"]))
            for r in new:
                print("%s: %s" % (r["where"], r["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
        else:
            print("%s: held; %s" % (pid, ", ".join("%s %s" % (v, k) for k, v in ctx.cov.items())))
    except Broken as e:
        print("ANALYSIS BROKEN property=%s: %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    return rc
