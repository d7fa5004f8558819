// fail: what becomes of a failure. For every call that can fail, the rest of the caller is followed with the call's failure value in place of
// its result (constants, null tests, flags in memory; every path, each abstract state once), and what the caller returns is recorded.
//   fail LIB.bc OUT.json SPEC
// SPEC: "root FUNC VALUE" (a function that fails with VALUE), "hook STRUCT VALUE" (a call through a field of STRUCT, or a function pointer passed for one),
//       "okzero TYPE" (enumerated type where 0 is success)
#include <set>
#include <vector>
#include "noret.h"
#include "walk.h"
// ---------------------------------------------------------------- what failing looks like
static map<string, int64_t> roots; static map<string, int64_t> hooks; static set<string> okzero; static set<string> ignore;
enum Conv { PTR, NEG, ZERO, ENUMOK, VOID, NONE, ENUMFAIL };
static bool streamMode = false; static set<string> publics; static set<string> negs; static map<string, int64_t> failval; static map<const Function *, int64_t> fvOf;
static set<int64_t> retConsts(const Function *F, int d = 0);
static map<const Function *, set<int64_t>> rcMemo; static set<const Function *> rcAct;
static set<int64_t> retConsts(const Function *F, int d) {
	auto i = rcMemo.find(F); if (i != rcMemo.end()) return i->second; if (!rcAct.insert(F).second || d > 12) return {};
	set<int64_t> out; set<const Value *> seen; std::deque<const Value *> q; for (auto &Bk : *F) if (auto *r = dyn_cast<ReturnInst>(Bk.getTerminator())) if (r->getReturnValue()) q.push_back(r->getReturnValue());
	while (!q.empty()) { auto *v = q.front(); q.pop_front(); if (!seen.insert(v).second) continue; if (auto *ci = dyn_cast<ConstantInt>(v)) out.insert(ci->getBitWidth() == 1 ? (int64_t) ci->getZExtValue() : ci->getSExtValue()); else if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) q.push_back(o.get()); else if (auto *s = dyn_cast<SelectInst>(v)) { q.push_back(s->getTrueValue()); q.push_back(s->getFalseValue()); } else if (auto *c = dyn_cast<CallBase>(v)) { if (auto *g = callee(c)) { auto s = retConsts(g, d + 1); out.insert(s.begin(), s.end()); } } else if (isa<ICmpInst>(v)) { out.insert(0); out.insert(1); } else if (auto *z = dyn_cast<CastInst>(v)) q.push_back(z->getOperand(0)); }
	rcAct.erase(F); return rcMemo[F] = out;
}
static Conv conv(const Function *F) {
	auto *t = F->getReturnType(); if (t->isVoidTy()) return VOID; if (t->isPointerTy()) return PTR; if (!t->isIntegerTy()) return NONE;
	if (auto *sp = F->getSubprogram()) { auto ty = sp->getType()->getTypeArray(); if (ty.size() && ty[0]) { const DIType *d = ty[0]; while (auto *dd = dyn_cast<DIDerivedType>(d)) { if (!dd->getBaseType()) break; d = dd->getBaseType(); } if (auto *ct = dyn_cast<DICompositeType>(d)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type) { if (okzero.count(ct->getName().str())) return ENUMOK; auto fv = failval.find(ct->getName().str()); if (fv != failval.end()) { fvOf[F] = fv->second; return ENUMFAIL; } } } }
	if (!t->isIntegerTy(1) && negs.count(fileOf(F) + ":" + nameOf(F))) return NEG; for (auto x : retConsts(F)) if (x < 0) return NEG; return ZERO;
}
// 1 signalled, 0 reported as success, -1 not known
static int judge(Conv c, Val v, int64_t fv = 0) {
	switch (c) { case ENUMFAIL: return v.k == 1 ? v.c == fv : -1; case PTR: return v.k == 1 ? v.c == 0 : v.k >= 2 ? 0 : -1; case NEG: return v.k == 1 ? v.c < 0 : -1; case ZERO: return v.k == 1 ? v.c == 0 : v.k >= 2 ? 0 : -1; case ENUMOK: return v.k == 1 ? v.c != 0 : v.k >= 2 ? 1 : -1; case VOID: return -1; default: return -1; }
}
static map<const Function *, set<Outcome>> outcomes; static map<std::tuple<const Function *, unsigned, int64_t>, set<Outcome>> cbMemo; static set<std::tuple<const Function *, unsigned, int64_t>> cbAct;
struct Rep { string rule, file, fn, where, what, detail; }; static map<string, Rep> reps; static int64_t nSites = 0, nStarts = 0, nSteps = 0, nOver = 0, nUndec = 0, nOk = 0, nConf = 0, nConfOver = 0; static bool final_ = false; static vector<string> overs;
static map<pair<const Function *, unsigned>, int> ndMemo; 
static bool nullDerefImpl(const Function *F, unsigned i) {
	string n = F->getName().str(); if (F->isDeclaration()) { static set<string> bad{"strlen", "strcmp", "memcmp", "strcpy", "strcat", "strchr", "strdup", "memcpy", "strncmp", "qsort", "fputs", "puts", "strtol", "strtoul"}; return bad.count(n) && (n != "qsort" || i == 0); }
	if (n == "f_free" || i >= F->arg_size()) return false;
	auto k = std::make_pair(F, i); auto it = ndMemo.find(k); if (it != ndMemo.end()) return it->second > 0; ndMemo[k] = 0; bool r = false;
	Walk w(F); w.cap = 400; w.onRet = [](const ReturnInst *, const Env &, Val) {}; w.onUse = [&](const Instruction *, const char *, const Function *) { r = true; };
	Env e; e.f[ssaNode(F->getArg(i))] = C(0, true); w.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); while (!w.q.empty() && !w.over && !r) { auto x = std::move(w.q.front()); w.q.pop_front(); w.from(x.first, &x.first->front(), std::move(x.second)); }
	ndMemo[k] = r; return r;
}
// what a function returns when the memory it is given holds these flags, if always the same
static Val flagInImpl(const Function *F, const set<std::tuple<unsigned, int64_t, Val>> &in) {
	static map<pair<const Function *, set<std::tuple<unsigned, int64_t, Val>>>, Val> memo; auto k = std::make_pair(F, in); auto it = memo.find(k); if (it != memo.end()) return it->second; memo[k] = Val();
	set<Val> out; Walk w(F); w.cap = 1500; w.onRet = [&](const ReturnInst *, const Env &, Val v) { v.t = false; out.insert(v); }; w.onUse = [](const Instruction *, const char *, const Function *) {};
	Env e; for (auto &x : in) { unsigned i = std::get<0>(x); if (i >= F->arg_size()) return Val(); MV m; m.b.v = std::get<2>(x); m.own = true; m.key = "flag"; e.m[{ssaNode(F->getArg(i)), std::get<1>(x)}] = m; }
	w.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w.run(); if (w.over || out.size() != 1 || out.begin()->k != 1) return Val(); return memo[k] = *out.begin(); }
static set<Flag> flagsOf(const Function *F, const Env &e) { set<Flag> s; for (auto &x : e.m) { auto &n = ndv[x.first.first]; if (!x.second.own || n.base || n.havoc || !n.ssa) continue; if (auto *a = dyn_cast<Argument>(n.ssa)) if ((x.second.b.v.k == 1 || x.second.b.v.k == 3) && !x.second.b.node) { Val v = x.second.b.v; v.t = false; s.insert({(int) a->getArgNo(), x.first.second, v}); } } return s; }
// something other than a null result left behind
static bool o_has_int(const set<Flag> &s) { for (auto &f : s) if (!(f.v.k == 1 && f.v.c == 0)) return true; return false; }
static bool wrote(const Env &e) { for (auto &x : e.m) { auto &n = ndv[x.first.first]; if (x.second.own && n.ssa && !n.base && !n.havoc && isa<Argument>(n.ssa)) return true; } return false; }
static bool flagged(const Function *F, const Env &e) { return !flagsOf(F, e).empty(); }
// outcomes of g when the function given to it as argument i returns r
static set<Outcome> viaCallback(const Function *g, unsigned i, int64_t r, bool pass) {
	auto k = std::make_tuple(g, i, r); auto it = cbMemo.find(k); if (it != cbMemo.end()) return it->second; if (g->isDeclaration() || !cbAct.insert(k).second) return {};
	set<Outcome> out; if (i < g->arg_size()) for (auto &Bk : *g) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) {
		set<Outcome> os; if (c->getCalledOperand() == g->getArg(i)) { Outcome o; o.has = true; o.ret = C(r); os.insert(o); } else if (auto *h = callee(c)) { for (unsigned a = 0; a < c->arg_size(); a++) if (c->getArgOperand(a) == g->getArg(i)) os = viaCallback(h, a, r, pass); }
		for (auto &o : os) { Walk w(g); Env e = w.seed(c); B b; b.v = o.ret; b.v.t = true; if (o.has) e.b[c] = b; w.onUse = [](const Instruction *, const char *, const Function *) {}; w.onRet = [&](const ReturnInst *, const Env &, Val v) { Outcome n; n.has = !g->getReturnType()->isVoidTy() && v.k != 0; n.ret = v; n.ret.t = false; out.insert(n); }; w.startAfter(c, e); nSteps += w.steps; } }
	cbAct.erase(k); return cbMemo[k] = out;
}
// a printing callback by its type: int (FILE *, const struct fsm_options *, ..., void *)
static bool hookParam(const Argument *a) {
	auto *sp = a->getParent()->getSubprogram(); if (!sp) return false; const DIType *t = nullptr;
	for (auto *n : sp->getRetainedNodes()) if (auto *v = dyn_cast<DILocalVariable>(n)) if (v->getArg() == a->getArgNo() + 1) t = v->getType();
	if (!t) { auto ty = sp->getType()->getTypeArray(); if (ty.size() > a->getArgNo() + 1) t = ty[a->getArgNo() + 1]; }
	auto strip = [](const DIType *d, bool ptr) { while (auto *dd = dyn_cast_or_null<DIDerivedType>(d)) { bool p = dd->getTag() == dwarf::DW_TAG_pointer_type; if (p && !ptr) break; d = dd->getBaseType(); if (p) ptr = false; } return d; };
	auto *st = dyn_cast_or_null<DISubroutineType>(strip(t, true)); if (!st) return false; auto el = st->getTypeArray(); if (el.size() < 4) return false;
	auto *o = dyn_cast_or_null<DIType>(strip(el[2], true)); if (!o || o->getName() != "fsm_options") return false;
	auto *last = strip(el[el.size() - 1], false); auto *lp = dyn_cast_or_null<DIDerivedType>(last); return lp && lp->getTag() == dwarf::DW_TAG_pointer_type && !lp->getBaseType(); }
static bool isHookCall(const CallBase *c, int64_t &fv) {
	if (callee(c)) return false; auto *v = c->getCalledOperand(); set<const Value *> seen; std::deque<const Value *> q{v};
	while (!q.empty()) { auto *x = q.front(); q.pop_front(); if (!seen.insert(x).second) continue; if (auto *l = dyn_cast<LoadInst>(x)) { string k = keyOf(l->getPointerOperand()); k = k.substr(0, k.find('#')); auto i = hooks.find(k); if (i != hooks.end()) { fv = i->second; return true; } } else if (auto *p = dyn_cast<PHINode>(x)) for (auto &o : p->incoming_values()) q.push_back(o.get()); else if (isa<Argument>(x) && hooks.count("param") && hookParam(cast<Argument>(x))) { fv = hooks["param"]; return true; } }
	return false;
}
// the functions a call through a variable may reach, where all are named in this function
static set<const Function *> constTargets(const CallBase *c) { set<const Function *> out; set<const Value *> seen; std::deque<const Value *> q{c->getCalledOperand()}; while (!q.empty()) { auto *x = q.front(); q.pop_front(); if (!seen.insert(x).second) continue; if (auto *f = dyn_cast<Function>(x)) out.insert(f); else if (auto *p = dyn_cast<PHINode>(x)) for (auto &o : p->incoming_values()) q.push_back(o.get()); else if (auto *s = dyn_cast<SelectInst>(x)) { q.push_back(s->getTrueValue()); q.push_back(s->getFalseValue()); } else if (!isa<ConstantPointerNull>(x) && !isa<UndefValue>(x)) return {}; } return out; }
struct Start { Outcome o; const Function *via; const CallBase *cbarg; };
static map<string, int> undecs;
static void site(const Function *F, const CallBase *c, bool rep) {
	auto *f = callee(c); vector<pair<Outcome, string>> st; int64_t fv;
	if (f) { auto i = roots.find(f->getName().str()); if (i != roots.end()) { Outcome o; o.has = true; o.ret = C(i->second); st.push_back({o, nameOf(f)}); } else for (auto &o : outcomes[f]) st.push_back({o, nameOf(f)});
		// functions passed to it
		for (unsigned a = 0; a < c->arg_size(); a++) if (auto *cb = dyn_cast<Function>(c->getArgOperand(a)->stripPointerCasts())) for (auto &o : outcomes[cb]) {
			if (f->isDeclaration()) continue; if (o.has && o.ret.k != 1) continue; set<Outcome> vs = viaCallback(f, a, o.has ? o.ret.c : 0, false);
			for (auto v : vs) { Outcome n; n.has = v.has; n.ret = v.ret; for (auto &fl : o.flags) { // the opaque pointer: the argument after the function
				if (a + 1 < c->arg_size()) n.flags.insert({(int) a + 1, fl.off, fl.v}); } st.push_back({n, nameOf(cb)}); } } }
	else if (auto fs = constTargets(c); !fs.empty()) { for (auto *g : fs) for (auto &o : outcomes[g]) st.push_back({o, nameOf(g)}); }
	else if (isHookCall(c, fv)) { Outcome o; o.has = true; o.ret = C(fv); st.push_back({o, "hook"}); }
	else if (auto *ld = dyn_cast<LoadInst>(c->getCalledOperand()); ld && keyOf(ld->getPointerOperand()).rfind("struct.fsm_hooks#", 0) == 0) {}   // the caller's own
	else if (!f && (streamMode || !hooks.empty()) && !isa<Argument>(c->getCalledOperand()) && !c->isInlineAsm()) { for (auto *g : byType[c->getFunctionType()]) for (auto &o : outcomes[g]) st.push_back({o, nameOf(g)}); }
	if (streamMode && !st.empty() && !publics.count(nameOf(F))) { Outcome top; if (outcomes[F].count(top)) { static set<const CallBase *> sk; if (sk.insert(c).second) nSites++; return; } }
	if (st.empty()) return; static set<const CallBase *> seenS; if (seenS.insert(c).second) nSites++;
	Conv cv = conv(F); static map<const CallBase *, set<pair<Outcome, string>>> done;
	for (auto &s : st) { if (!done[c].insert(s).second) continue; nStarts++; 
		const Instruction *badAt = nullptr, *lostAt = nullptr; string badV; map<string, Rep> uses; int nu = 0;
		auto prep = [&](Walk &w, Env &e) { w.redefine(e, c); B b; b.v = s.first.ret; b.v.t = true; if (s.first.has) { if (c->getType()->isIntegerTy(1)) b.v.c &= 1; if (streamMode && f && f->getName() == "fwrite") { w.shortNode = ssaNode(c); w.full = w.eval(e, c->getArgOperand(2)); } else e.b[c] = b; } w.stream = streamMode;
			for (auto &x : e.m) x.second.own = false;
			for (auto &fl : s.first.flags) if ((unsigned) fl.arg < c->arg_size()) { B p = w.eval(e, c->getArgOperand(fl.arg)); if (p.node) { MV m; m.b.v = fl.v; m.b.v.t = true; m.own = true; m.key = "flag"; e.m[{p.node, p.off + fl.off}] = m; } }
			if (f && f->getReturnType()->isVoidTy()) for (auto &o : c->args()) if (o->getType()->isPointerTy()) { B p = w.eval(e, o.get()); if (p.node) w.outs.insert(p.node); } };
		auto arm = [&](Walk &w) {
			w.onRet = [&](const ReturnInst *r, const Env &x, Val v) {
				if (streamMode && !publics.count(nameOf(F))) { Outcome o; o.has = cv != VOID && v.k; o.ret = v; o.ret.t = false; if (!o.has) o.ret = Val(); outcomes[F].insert(o); return; }
				int j = judge(!hooks.empty() && cv == ZERO ? NEG : cv, v, fvOf[F]); auto fl = flagsOf(F, x); bool fok = !fl.empty() && !(x.lost && cv == VOID && !o_has_int(fl)) && (cv == VOID || addrTaken.count(F));
				if (j == 1 || fok) { Outcome o; o.has = cv != VOID && v.k == 1; o.ret = v; o.ret.t = false; o.flags = fl; if (o.has || fok) outcomes[F].insert(o); return; }
				if (j == 0 && !x.cs) { if (!badAt) { badAt = r; badV = cv == VOID ? "nothing" : cv == PTR ? "an object" : v.k == 1 ? std::to_string(v.c) : "non-zero"; } } else { if (!x.cs && !(cv == VOID && wrote(x))) { if (!lostAt) lostAt = r; } nu++; } };
			w.onUse = [&](const Instruction *i, const char *how, const Function *g) { if (w.lostNow) return; string d = string(how) + (g ? " " + nameOf(g) + "()" : ""); Rep x{"use", fileOf(F), nameOf(F), loc(i), s.second, d}; uses["use|" + x.file + "|" + x.fn + "|" + x.what + "|" + d] = x; }; };
		if (const char *fd = getenv("FDEBUG")) if (nameOf(F) == fd) { errs() << "START " << loc(c) << " " << s.second << " has " << s.first.has << " " << s.first.ret.c; for (auto &fl : s.first.flags) errs() << " flag " << fl.arg << "+" << fl.off << "=" << fl.v.c; errs() << "\n"; }
		Walk w(F); if (streamMode && !publics.count(nameOf(F))) w.cap = 500; arm(w);
		if (streamMode && f && f->getName() == "fwrite") { Walk w0(F); w0.target = c; w0.onRet = [](const ReturnInst *, const Env &, Val) {}; w0.onUse = [](const Instruction *, const char *, const Function *) {}; w0.from(&F->getEntryBlock(), &F->getEntryBlock().front(), Env()); w0.run(); for (auto &h : w0.hits) { Env x = h; prep(w, x); w.startAfter(c, x); } if (w0.over) w.over = true; }
		else { Env e = w.seed(c); prep(w, e); w.startAfter(c, e); } nSteps += w.steps; if (w.over && streamMode && !publics.count(nameOf(F))) { outcomes[F].insert(Outcome()); w.over = false; } if (w.over) { nOver++; overs.push_back(nameOf(F) + " " + loc(c)); }
		if (badAt || lostAt || !uses.empty()) { // again, from the states in which the function reaches the call
			Walk w0(F); w0.target = c; w0.onRet = [](const ReturnInst *, const Env &, Val) {}; w0.onUse = [](const Instruction *, const char *, const Function *) {}; w0.from(&F->getEntryBlock(), &F->getEntryBlock().front(), Env()); w0.run(); nSteps += w0.steps;
			if (!w0.over) { auto sb = badAt, sl = lostAt; auto su = uses; auto sv = badV; int sn = nu; badAt = lostAt = nullptr; uses.clear(); nu = 0; Walk w1(F); arm(w1); for (auto &h : w0.hits) { Env x = h; prep(w1, x); w1.startAfter(c, x); } nSteps += w1.steps; nConf++; if (w1.over) { badAt = sb; lostAt = sl; uses = su; badV = sv; nu = sn; } } else nConfOver++; }
		for (auto &u : uses) reps[u.first] = u.second; if (nu) { nUndec += nu; undecs[nameOf(F) + " " + loc(c) + " " + s.second] += nu; }
		{ if (badAt) { Rep x{"swallowed", fileOf(F), nameOf(F), loc(c), s.second, badV}; reps["swallowed|" + x.file + "|" + x.fn + "|" + x.what + "|" + badV] = x; } else if (lostAt) { Rep x{"lost", fileOf(F), nameOf(F), loc(c), s.second, cv == VOID ? "void" : "value"}; reps["lost|" + x.file + "|" + x.fn + "|" + x.what] = x; } else nOk++; } }
}
// whether call c is reached when the field at offset off of argument a is null; callers of static functions decide for them
static const FunctionType *fieldOfCallee(const Value *v, const Value *&base, int64_t &off, string &key) {
	set<const Value *> seen; std::deque<const Value *> q{v}; const LoadInst *found = nullptr; while (!q.empty()) { auto *x = q.front(); q.pop_front(); if (!seen.insert(x).second) continue; if (auto *l = dyn_cast<LoadInst>(x)) { string k = keyOf(l->getPointerOperand()), st = k.substr(0, k.find('#')); if (hooks.count(st)) { found = l; key = k; } } else if (auto *p = dyn_cast<PHINode>(x)) for (auto &o : p->incoming_values()) q.push_back(o.get()); else if (auto *s = dyn_cast<SelectInst>(x)) { q.push_back(s->getTrueValue()); q.push_back(s->getFalseValue()); } }
	if (!found) return nullptr; APInt o(64, 0); base = found->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL, o, true); off = o.getSExtValue(); return (const FunctionType *) 1; }
static int reached(const Function *F, unsigned arg, int64_t off, const string &key, const CallBase *c, int depth, string &via) {   // 1 reached with null, 0 never, -1 not known
	Walk w(F); w.onRet = [](const ReturnInst *, const Env &, Val) {}; w.onUse = [](const Instruction *, const char *, const Function *) {}; w.target = c; Env e; MV m; m.b.v = C(0, true); m.own = false; m.key = "flag"; e.m[{ssaNode(F->getArg(arg)), off}] = m;
	w.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w.run(); nSteps += w.steps; if (w.over) return -1; bool hit = false; for (auto &h : w.hits) { auto i = h.m.find({ssaNode(F->getArg(arg)), off}); if (i == h.m.end()) return -1; hit = true; } if (!hit) return 0;
	if (!F->hasLocalLinkage() || addrTaken.count(F) || depth > 6) { via = nameOf(F); return 1; }
	int worst = 0; for (auto *u : F->users()) if (auto *cc = dyn_cast<CallBase>(u)) if (callee(cc) == F && arg < cc->arg_size()) { auto *a = dyn_cast<Argument>(cc->getArgOperand(arg)->stripPointerCasts()); int r = a ? reached(cc->getFunction(), a->getArgNo(), off, key, cc, depth + 1, via) : -1; if (r == 1) return 1; if (r) worst = r; }
	return worst; }
static int64_t nGuard = 0, nGuardUndec = 0;
static void guards() {
	if (hooks.empty()) return;
	for (auto &F : *M) for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) { if (callee(c)) continue; const Value *base; int64_t off; string key; if (!fieldOfCallee(c->getCalledOperand(), base, off, key)) continue; nGuard++;
		auto *a = dyn_cast<Argument>(base); string via; int r = a ? reached(&F, a->getArgNo(), off, key, c, 0, via) : -1; if (r < 0) { nGuardUndec++; undecs[nameOf(&F) + " " + loc(c) + " guard"]++; }
		if (r == 1) { Rep x{"unguarded", fileOf(&F), nameOf(&F), loc(c), key.substr(key.find('#') + 1), via}; reps["unguarded|" + x.file + "|" + x.fn + "|" + x.what] = x; } } }
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic er; auto Mp = parseIRFile(argv[1], er, X); if (!Mp) { er.print("fail", errs()); return 2; } M = Mp.get(); DL = &M->getDataLayout(); inferNoReturn(*M); inlineParts(*M);
	{ std::ifstream f(argv[3]); string l; while (std::getline(f, l)) { std::istringstream s(l); string k, a; int64_t n = 0; s >> k >> a >> n; if (k == "root") roots[a] = n; else if (k == "hook") hooks[a] = n; else if (k == "okzero") okzero.insert(a); else if (k == "failval") failval[a] = n; else if (k == "ignore") ignore.insert(a); else if (k == "neg") negs.insert(a); else if (k == "stream") streamMode = true; else if (k == "public") publics.insert(a); } }
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA_; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA_); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA_, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA_); }
	computeMod(); Walk::nullDeref = nullDerefImpl; Walk::flagIn = flagInImpl;
	auto all = [&](bool rep) { for (auto &F : *M) { if (F.isDeclaration() || roots.count(F.getName().str()) || ignore.count(F.getName().str())) continue; for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) site(&F, c, rep); } };
	size_t before; int it = 0; do { before = 0; for (auto &o : outcomes) before += o.second.size(); cbMemo.clear(); all(true); size_t n = 0; for (auto &o : outcomes) n += o.second.size(); if (n == before) break; } while (++it < 20);
	guards(); J::Array out; for (auto &r : reps) out.push_back(J::Object{{"rule", r.second.rule}, {"file", r.second.file}, {"fn", r.second.fn}, {"where", r.second.where}, {"what", r.second.what}, {"detail", r.second.detail}});
	J::Array fall; for (auto &o : outcomes) { J::Array vs; for (auto &x : o.second) vs.push_back(x.has ? std::to_string(x.ret.c) + (x.flags.empty() ? "" : "+flag") : string("flag")); fall.push_back(J::Array{nameOf(o.first), std::move(vs)}); }
	J::Array ov; for (auto &s : overs) ov.push_back(s);
	std::error_code ec; raw_fd_ostream O(argv[2], ec); O << J::Value(J::Object{{"reports", std::move(out)}, {"fallible", std::move(fall)}, {"sites", nSites}, {"guards", nGuard}, {"guardundec", nGuardUndec}, {"neg", [&] { J::Array a; for (auto &F : *M) if (!F.isDeclaration() && outcomes.count(&F) && conv(&F) == NEG) a.push_back(fileOf(&F) + ":" + nameOf(&F)); return a; }()}, {"starts", nStarts}, {"steps", nSteps}, {"over", nOver}, {"undecided", nUndec}, {"ok", nOk}, {"confirmed", nConf}, {"confover", nConfOver}, {"rounds", it}, {"undecs", [&] { J::Array a; for (auto &u : undecs) a.push_back(u.first); return a; }()}, {"overs", std::move(ov)}}) << "\n"; return 0;
}
