import os
import vbuild

def run(ctx):
    ctx.rule = ("For each tool, the option string given to getopt() and the switch on its result are read from the syntax tree. Each declared letter must have a case "
                "and each case a declaration (h, ? and : aside); a case refers to optarg if and only if its letter is declared with an argument "
                "(a case that always rejects the option need not); no letter is declared twice; no case with statements runs on into the next one.")
    A = vbuild.asts(lambda s: vbuild.group(s) not in vbuild.LIBGROUPS)
    for r, d in sorted(A.items()):
        for g in d["getopts"]:
            w = "%s:%d" % (r, g["line"]); o = g["opts"]
            if o == "?": raise vbuild.Broken("%s: the option string is not a literal" % w)
            decl = {}
            i = 0
            s = o.lstrip(":+-")
            while i < len(s):
                c = s[i]; a = i + 1 < len(s) and s[i + 1] == ":"
                if c in decl: ctx.report("%s|%s|twice" % (r, c), w, "option -%s is declared twice" % c)
                decl[c] = a; i += 2 if a else 1
                while a and i < len(s) and s[i] == ":": i += 1
            best = None
            for sw in d["switches"]:
                if sw["fn"] != g["fn"] or sw["line"] < g["line"]: continue
                n = sum(1 for c in sw["cases"] for v in c["vals"] if 0 < v < 256 and chr(v) in decl)
                if best is None or n > best[0]: best = (n, sw)
            if not best or best[0] < 2: raise vbuild.Broken("%s: no switch over the options found" % w)
            sw = best[1]; ctx.count("tools"); ctx.count("options declared", len(decl))
            have = {}
            for c in sw["cases"]:
                cw = "%s:%d" % (r, c["line"])
                ls = [chr(v) for v in c["vals"] if 0 < v < 256 and chr(v) not in "?:"]
                for l in ls:
                    have[l] = c; ctx.count("option cases")
                    if l not in decl: ctx.report("%s|%s|undeclared" % (r, l), cw, "-%s is handled but not declared in the option string" % l); continue
                    if c["default"]: continue
                    if c["optarg"] and not decl[l]: ctx.report("%s|%s|noarg" % (r, l), cw, "-%s uses an argument but is declared without one" % l)
                    rejects = any(x in ("exit", "usage", "errx", "err") for x in c["calls"]) and (c["ret"] or "exit" in c["calls"])
                    if decl[l] and not c["optarg"] and not rejects: ctx.report("%s|%s|unused" % (r, l), cw, "-%s is declared with an argument that is not used" % l)
                if c["end"] == "fall" and not c["last"] and not c["default"] and ls and not any(x in ("exit", "_exit", "abort", "err", "errx") for x in c["calls"]):
                    ctx.report("%s|%s|fall" % (r, ls[0]), cw, "the case for -%s runs on into the next" % ls[0])
                ctx.sample("%s: -%s %s" % (cw, "".join(ls), "with argument" if c["optarg"] else ""))
            for l in decl:
                if l not in have: ctx.report("%s|%s|unhandled" % (r, l), w, "option -%s is declared but has no case of its own" % l)
    ctx.need(ctx.cov.get("tools", 0), 6, "tools with options")
