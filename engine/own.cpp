// own: who owns what. Every object allocated in a function (by an allocator, or by a function found to return a new object) is followed along every path
// to where it is released, handed over, or lost; every released object is followed to where it is used again.
//   own LIB.bc OUT.json SPEC
// SPEC: "new FUNC", "free FUNC ARG", "realloc FUNC ARG"
#include <set>
#include <vector>
#include "noret.h"
#include "walk.h"
enum { NONE_ = 0, OWNED = 1, FREED = 2, GONE = 3 };
static vector<pair<string, unsigned>> consumers; static map<string, unsigned> freeF, reallocF; static set<string> newF;
struct Out { int st; Val ret; bool same; bool operator<(const Out &o) const { return std::tie(st, ret, same) < std::tie(o.st, o.ret, o.same); } };
static map<pair<const Function *, unsigned>, set<Out>> sums; static set<pair<const Function *, unsigned>> act;
static const set<Out> &summary(const Function *F, unsigned i);
// memory a function is given the address of, and leaves a new object in
struct Slot { unsigned arg; int64_t off; string key; Val ret; bool operator<(const Slot &o) const { return std::tie(arg, off, key, ret) < std::tie(o.arg, o.off, o.key, o.ret); } }; static map<const Function *, set<Slot>> outSlots; static int64_t nSlot = 0;
static set<const Function *> fresh; static int64_t nSteps = 0, nSum = 0, nLean = 0, nSumOver = 0, nBirth = 0, nBirthOver = 0, nRel = 0, nRelOver = 0, nEnds = 0;
struct Rep { string rule, file, fn, where, what, detail; }; static map<string, Rep> reps; static vector<string> overs;
static void noUse(const Instruction *, const char *, const Function *) {}
static void noRet(const ReturnInst *, const Env &, Val) {}

// ---------------------------------------------------------------- flow-insensitive: fields whose contents a function may release or keep
static map<pair<const Function *, unsigned>, int> consMemo; static map<const Function *, set<string>> touch; static set<const Function *> indirect;
static bool consumes(const Function *F, unsigned i); static set<string> gtouch;   // members read, of any object, and then kept or released
static bool ptrConsumes(const CallBase *c, unsigned i) { auto &t = byType[c->getFunctionType()]; if (t.empty() || c->isInlineAsm()) return true; for (auto *f : t) if (consumes(f, i)) return true; return false; }
static bool consumedBy(const Value *v, set<const Value *> &seen) {   // stored, released or handed on
	if (!seen.insert(v).second) return false;
	for (auto &u : v->uses()) { auto *in = u.getUser(); if (auto *s = dyn_cast<StoreInst>(in)) { if (s->getValueOperand() == v) { if (isa<AllocaInst>(getUnderlyingObject(s->getPointerOperand()))) { string k = keyOf(s->getPointerOperand()); if (k.find('#') != string::npos && !gtouch.count(k)) continue; } return true; } } else if (isa<PHINode>(in) || isa<SelectInst>(in) || isa<CastInst>(in)) { if (consumedBy(in, seen)) return true; } else if (isa<ReturnInst>(in)) return true;
		else if (auto *c = dyn_cast<CallBase>(in)) { if (c->isArgOperand(&u)) { auto *g = callee(c); if (!g) { if (ptrConsumes(c, c->getArgOperandNo(&u))) return true; continue; } if (consumes(g, c->getArgOperandNo(&u))) return true; } } }
	return false; }
static bool consumes(const Function *F, unsigned i) {
	string n = F->getName().str(); auto f = freeF.find(n); if (f != freeF.end()) return f->second == i; auto r = reallocF.find(n); if (r != reallocF.end()) return r->second == i; if (newF.count(n)) return false;
	if (F->isDeclaration()) return F->isIntrinsic() ? false : false; if (i >= F->arg_size() || !F->getArg(i)->getType()->isPointerTy()) return false; auto k = std::make_pair(F, i); auto it = consMemo.find(k); if (it != consMemo.end()) return it->second; consMemo[k] = 0; set<const Value *> seen; bool r2 = consumedBy(F->getArg(i), seen); consMemo[k] = r2; return r2; }
static void computeTouch() {
	for (bool ch = true; ch;) { ch = false; for (int round = 0; round < 2; round++) { consMemo.clear(); for (auto &F : *M) for (unsigned i = 0; i < F.arg_size(); i++) consumes(&F, i); }
		for (auto &F : *M) for (auto &Bk : F) for (auto &I : Bk) if (auto *l = dyn_cast<LoadInst>(&I)) { if (!l->getType()->isPointerTy()) continue; string k = keyOf(l->getPointerOperand()); if (gtouch.count(k)) continue; set<const Value *> seen; if (consumedBy(l, seen)) { gtouch.insert(k); ch = true; } } else if (auto *mt = dyn_cast<MemTransferInst>(&I)) { if (isa<GlobalVariable>(getUnderlyingObject(mt->getSource()))) continue; auto *n = dyn_cast<ConstantInt>(mt->getLength()); if (n) for (auto &k : sizedKeys(mt, n->getZExtValue())) if (gtouch.insert(k).second) ch = true; } }
	for (auto &F : *M) for (auto &Bk : F) for (auto &I : Bk) if (auto *l = dyn_cast<LoadInst>(&I)) { if (!l->getType()->isPointerTy()) continue; set<const Value *> seen; if (consumedBy(l, seen)) touch[&F].insert(keyOf(l->getPointerOperand())); } else if (auto *mt = dyn_cast<MemTransferInst>(&I)) { auto *so = getUnderlyingObject(mt->getSource()), *dd = getUnderlyingObject(mt->getDest()); if (isa<GlobalVariable>(so) || isa<AllocaInst>(so) && !isa<Argument>(dd)) continue; auto *n = dyn_cast<ConstantInt>(mt->getLength()); if (!n) touch[&F].insert("elem"); else for (auto &k : sizedKeys(mt, n->getZExtValue())) touch[&F].insert(k); }
	for (bool ch = true; ch;) { ch = false; for (auto &F : *M) { size_t n = touch[&F].size(), m = indirect.size(); for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = callee(c); if (g) { if (freeF.count(g->getName().str()) || newF.count(g->getName().str()) || reallocF.count(g->getName().str())) continue; if (g != &F) { auto s = touch[g]; touch[&F].insert(s.begin(), s.end()); } for (auto &a : c->args()) if (auto *fa = dyn_cast<Function>(a->stripPointerCasts())) { auto s = touch[fa]; touch[&F].insert(s.begin(), s.end()); } if (indirect.count(g)) indirect.insert(&F); } else if (!isa<Argument>(c->getCalledOperand())) { for (auto *t : byType[c->getFunctionType()]) { auto s = touch[t]; touch[&F].insert(s.begin(), s.end()); } } } if (touch[&F].size() != n || indirect.size() != m) ch = true; } }
}
static bool touches(const Function *g, const string &k) { auto &t = touch[g]; return k == "*" ? !t.empty() : t.count(k) > 0; }
static bool ignores(const Function *F, unsigned i) { if (F->isDeclaration() || i >= F->arg_size()) return false; for (auto *u : F->getArg(i)->users()) if (!isa<ICmpInst>(u) && !(isa<Instruction>(u) && isa<DbgInfoIntrinsic>(u))) return false; return true; }

// ---------------------------------------------------------------- an object along the paths
static bool freshPtr(const CallBase *c);
struct OWalk : Walk {
	const Instruction *birth = nullptr; bool sum = false, slot = false, argHeld = false; set<Cell> kept; std::function<void(const Instruction *, const char *)> onLeak, onBad;
	OWalk(const Function *f) : Walk(f) { onUse = noUse; onRet = noRet; onLeak = [](const Instruction *, const char *) {}; onBad = [](const Instruction *, const char *) {}; }
	bool isLocal(int n) { auto &d = ndv[n]; return !d.base && d.ssa && isa<AllocaInst>(d.ssa); }
	bool isArg(int n) { auto &d = ndv[n]; return argHeld && !d.base && d.ssa && isa<Argument>(d.ssa); }
	bool isHeap(int n) { auto &d = ndv[n]; if (d.base || d.havoc || !d.ssa || n == tracked) return false; auto *c = dyn_cast<CallBase>(d.ssa); if (!c) return false; auto *g = callee(c); if (!g) return freshPtr(c); return g && (newF.count(g->getName().str()) || fresh.count(g)); }
	vector<std::pair<Cell, string>> held(const Env &e) { vector<std::pair<Cell, string>> v; for (auto &x : e.m) if (x.second.b.node == tracked) v.push_back({x.first, x.second.key}); return v; }
	static bool named(int n, const void *by) { for (; n; n = ndv[n].base) if (ndv[n].havoc == by) return true; return false; }
	void gone(Env &e, const Instruction *in) { e.st = GONE; if (auto *d = getenv("OWNG")) if (nameOf(F) == d) errs() << "gone " << nameOf(F) << " obj " << (ndv[tracked].ssa && isa<Instruction>(ndv[tracked].ssa) ? loc(cast<Instruction>(ndv[tracked].ssa)) : "arg") << " at " << loc(in) << "\n"; }
	bool done(Env &e) { return e.st == GONE && !sum; }
	bool event(const BasicBlock *b, const Instruction *in, Env &e) override {
		if (e.st == GONE) { if (!sum) return true; return false; } if (isa<DbgInfoIntrinsic>(in) || isa<PHINode>(in)) return false;
		if (e.st == FREED && named(tracked, in)) { gone(e, in); return done(e); }
		if (in == birth && e.st == OWNED) { if (held(e).empty()) { bool ref = false; for (auto &x : e.b) if (x.second.node == tracked) ref = true; if (!ref) onLeak(in, "lost when it is made again"); } nEnds++; return true; }
		if (auto *s = dyn_cast<StoreInst>(in)) { B v = eval(e, s->getValueOperand()), p = eval(e, s->getPointerOperand());
			if (e.st == FREED) { if (p.node == tracked) { onBad(in, "written through"); return true; } return false; }
			bool hv = false; for (auto &h : held(e)) if (h.first.first == v.node && !isLocal(v.node)) hv = true;
			if (v.node == tracked || hv) { bool local = p.node && isLocal(p.node), heap = p.node && (isHeap(p.node) || isArg(p.node)); if (p.node == tracked) {} else if (hv || !(local || heap)) { if (!(hv && local)) { gone(e, in); return done(e); } } else if (v.off) { gone(e, in); return done(e); } }
			auto hs = held(e); vector<pair<Cell, MV>> keep; for (auto &h : hs) if (!(h.first.first == p.node && h.first.second == p.off)) keep.push_back({h.first, e.m[h.first]}); if (!exec(e, in)) return true; for (auto &k : keep) e.m[k.first] = k.second; from(b, in->getNextNode(), e); return true; }
		if (auto *l = dyn_cast<LoadInst>(in)) { if (e.st == FREED) { B p = eval(e, l->getPointerOperand()); if (p.node == tracked) { onBad(in, "read through"); return true; } } return false; }
		if (auto *c = dyn_cast<CallBase>(in)) return callEvent(b, c, e);
		if (isa<InsertValueInst>(in) || isa<PtrToIntInst>(in)) for (auto &o : in->operands()) if (o->getType()->isPointerTy() && eval(e, o.get()).node == tracked && e.st == OWNED) { if (isa<PtrToIntInst>(in) && in->hasOneUse() && isa<BinaryOperator>(*in->user_begin()) && cast<BinaryOperator>(*in->user_begin())->getOpcode() == Instruction::Sub) continue; gone(e, in); return done(e); }
		return false; }
	void go(const BasicBlock *b, const CallBase *c, Env e, const vector<pair<Cell, string>> &hs, bool lose, int st, Val ret, bool same) {
		if (st == FREED && (ment(tracked, c) || named(tracked, c))) { nEnds++; return; } vector<pair<Cell, MV>> keep; auto *f = callee(c); auto writes = [&](const string &k) { if (k == "*" || k == "elem") return true; if (f) return f->isDeclaration() || modset[f].count(k) > 0; for (auto *t : byType[c->getFunctionType()]) if (modset[t].count(k)) return true; return byType[c->getFunctionType()].empty(); }; if (e.st != GONE) for (auto &h : hs) if (kept.count(h.first) || !writes(h.second)) keep.push_back({h.first, e.m[h.first]});
		if (!exec(e, c)) return; for (auto &k : keep) e.m[k.first] = k.second; if (st == OWNED && e.st != GONE) for (auto &h : hs) { auto i = e.m.find(h.first); if (i == e.m.end() || i->second.b.node != tracked) { if (!lose) { Env y; if (getenv("OWNG")) errs() << "lost " << h.second << " " << (f ? nameOf(f) : "?") << "\n"; gone(y, c); st = GONE; } } }
		if (e.st != GONE || st == GONE) e.st = st; if (same) { B x; x.node = tracked; e.b[c] = x; } else if (ret.k) { B x; x.v = ret; if (ret.k != 1) x.node = ssaNode(c); e.b[c] = x; if (ret.k != 1) fact(e, ssaNode(c), ret); }
		if (done(e)) return; from(b, c->getNextNode(), std::move(e)); }
	bool callEvent(const BasicBlock *b, const CallBase *c, Env &e) {
		kept.clear();
		auto *f = callee(c); string n = f ? f->getName().str() : "";
		vector<B> args; for (auto &a : c->args()) args.push_back(eval(e, a.get()));
		if (f && f->isIntrinsic()) { if (auto *mi = dyn_cast<MemIntrinsic>(c)) { B d = eval(e, mi->getDest()), s; if (auto *mt = dyn_cast<MemTransferInst>(mi)) s = eval(e, mt->getSource());
				if (e.st == FREED) { if (d.node == tracked) { onBad(c, "written through"); return true; } if (s.node == tracked) { onBad(c, "read through"); return true; } return false; }
				for (auto &h : held(e)) if (h.first.first == s.node || h.first.first == d.node) { gone(e, c); if (done(e)) return true; }
				auto hs = held(e); vector<pair<Cell, MV>> keep; for (auto &h : hs) keep.push_back({h.first, e.m[h.first]}); if (!exec(e, c)) return true; for (auto &k : keep) e.m[k.first] = k.second; from(b, c->getNextNode(), e); return true; } return false; }
		if (f && f->doesNotReturn()) return true;
		if (e.st == FREED) { for (unsigned i = 0; i < args.size(); i++) if (args[i].node == tracked && c->getArgOperand(i)->getType()->isPointerTy() && !(f && ignores(f, i))) { bool rel = f && ((freeF.count(n) && freeF[n] == i) || (!f->isDeclaration() && [&] { auto &s = summary(f, i); return !s.empty() && std::all_of(s.begin(), s.end(), [](const Out &o) { return o.st == FREED; }); }())); if (f && (n == "fprintf" || n == "printf")) continue; onBad(c, rel ? "released again" : f ? ("passed to " + nameOf(f) + "()").c_str() : "passed to a function"); return true; } return false; }
		auto hs = held(e); int direct = -1, via = -1, cnt = 0;
		for (unsigned i = 0; i < args.size(); i++) { if (!args[i].node || !c->getArgOperand(i)->getType()->isPointerTy()) continue; if (args[i].node == tracked) { direct = i; cnt++; } else if (!isLocal(args[i].node)) for (auto &h : hs) if (h.first.first == args[i].node) { via = i; cnt++; break; } }
		if (!f) { for (auto *t : constTargetsOf(c)) (void) t; if (cnt) { bool k = false; for (unsigned i = 0; i < args.size(); i++) if (args[i].node && c->getArgOperand(i)->getType()->isPointerTy() && ((int) i == direct || (int) i == via || cnt > 1) && ptrConsumes(c, i)) k = true; if (k) { gone(e, c); return done(e); } } for (auto &h : hs) for (unsigned i = 0; i < args.size(); i++) if (args[i].node == h.first.first) { bool all = true; for (auto *t : byType[c->getFunctionType()]) if (touches(t, h.second)) all = false; if (!all || byType[c->getFunctionType()].empty()) { gone(e, c); return done(e); } } go(b, c, e, hs, false, e.st, Val(), false); return true; }
		bool prim = freeF.count(n) || reallocF.count(n) || newF.count(n);
		if (cnt > 1) { // both to one function
			gone(e, c); if (done(e)) return true; go(b, c, e, hs, false, GONE, Val(), false); return true; }
		if (freeF.count(n)) { unsigned a = freeF[n]; if (direct == (int) a) { go(b, c, e, hs, true, FREED, Val(), false); return true; }
			if (via == (int) a) { Env x = e; for (auto &h : hs) if (h.first.first == args[a].node) x.m.erase(h.first); go(b, c, x, {}, true, OWNED, Val(), false); return true; }
			// something else is released: this object, if it is kept in memory and that was read from memory of the same kind
			if (a < args.size() && args[a].v.k != 1) { bool plain = args[a].node && (isHeap(args[a].node) || isLocal(args[a].node)); if (!plain) { string k = loadedKey(c->getArgOperand(a)); for (auto &h : hs) if (h.second == k || k == "*" || h.second == "*") { gone(e, c); break; } if (done(e)) return true; } }
			go(b, c, e, hs, false, e.st, Val(), false); return true; }
		if (reallocF.count(n)) { unsigned a = reallocF[n]; if (direct == (int) a) { go(b, c, e, hs, true, FREED, NZ(), false); Env x = e; go(b, c, x, hs, true, OWNED, C(0), false); return true; }
			if (via == (int) a) { gone(e, c); if (done(e)) return true; } go(b, c, e, hs, false, e.st, Val(), false); return true; }
		if (newF.count(n) || f->isDeclaration()) { bool keep = false; if (f->isDeclaration() && !prim) for (auto &h : hs) for (auto &x : args) if (x.node == h.first.first && isLocal(x.node) && n == "qsort") keep = false; go(b, c, e, hs, true, e.st, Val(), false); return true; }
		// memory of this function the callee is given, and may take the object from
		for (auto &h : hs) { bool given = false; if (isLocal(h.first.first)) { for (unsigned i = 0; i < args.size(); i++) if (args[i].node && (rootOf(args[i].node) == ndv[h.first.first].ssa)) given = true; for (auto &x : e.m) if (x.second.b.node && rootOf(x.second.b.node) == ndv[h.first.first].ssa && !ndv[x.second.b.node].base) given = true; } else given = true; bool tch = touches(f, h.second); for (auto &a : c->args()) if (auto *fa = dyn_cast<Function>(a->stripPointerCasts())) if (touches(fa, h.second)) tch = true; if (given && tch && f) { bool k = false; for (auto &o : outSlots[f]) if (o.arg < args.size() && args[o.arg].node == h.first.first && args[o.arg].off + o.off == h.first.second) k = true; if (k) { kept.insert(h.first); continue; } } if (given && tch) { if (getenv("OWNG")) errs() << "touch " << h.second << "\n"; gone(e, c); if (done(e)) return true; break; } }
		if (e.st == OWNED && cnt == 1) { int a = direct >= 0 ? direct : via; auto os = summary(f, a); if (direct >= 0 && args[a].off) { bool only = true; for (auto &o : os) if (o.st != OWNED) only = false; if (!only) os = {Out{GONE, Val(), false}}; }
			// results that do not tell what became of it
			auto overlap = [](const Val &x, const Val &y) { if (!x.k || !y.k) return true; if (x.k == 1 && y.k == 1) return x.c == y.c; if (x.k == 1) return x.c != 0; if (y.k == 1) return y.c != 0; return true; };
			for (auto &o : os) { int st = o.st; bool same = o.same; for (auto &p : os) if (&p != &o && p.st != o.st && !p.same && !o.same && overlap(p.ret, o.ret)) st = GONE; 
				Env x = e; bool lose = false; if (direct < 0) { if (st == FREED) { st = OWNED; lose = true; for (auto &h : hs) if (h.first.first == args[a].node) x.m.erase(h.first); } else if (st == OWNED) lose = false; if (same) same = false; }
				if (st == GONE && !sum) { Env y = e; gone(y, c); nEnds++; continue; } go(b, c, x, hs, lose, st, o.ret, same); }
			return true; }
		go(b, c, e, hs, false, e.st, Val(), false); return true; }
	static vector<const Function *> constTargetsOf(const CallBase *) { return {}; }
	static string loadedKey(const Value *v) { set<const Value *> seen; std::deque<const Value *> q{v}; string k; while (!q.empty()) { auto *x = q.front(); q.pop_front(); if (!seen.insert(x).second) continue; x = x->stripPointerCasts(); if (auto *l = dyn_cast<LoadInst>(x)) { string n = keyOf(l->getPointerOperand()); if (!k.empty() && k != n) return "*"; k = n; } else if (auto *p = dyn_cast<PHINode>(x)) for (auto &o : p->incoming_values()) q.push_back(o.get()); else if (auto *s = dyn_cast<SelectInst>(x)) { q.push_back(s->getTrueValue()); q.push_back(s->getFalseValue()); } } return k; }
};
static const set<Out> &summary(const Function *F, unsigned i) {
	auto k = std::make_pair(F, i); static const set<Out> gone{Out{GONE, Val(), false}}, own{Out{OWNED, Val(), false}}; auto it = sums.find(k); if (it != sums.end()) return it->second; if (F->isDeclaration() || !consumes(F, i)) return own; if (i >= F->arg_size()) return gone; static const set<Out> none; if (!act.insert(k).second) return none;
	set<Out> out;
	OWalk w(F); w.sum = true; w.cap = 1500; w.tracked = ssaNode(F->getArg(i)); Env e; e.st = OWNED; e.f[w.tracked] = NZ();
	w.onRet = [&](const ReturnInst *r, const Env &x, Val v) { v.t = false; if (v.k == 3) v = NZ(); bool same = false; int st = x.st; if (r->getReturnValue() && r->getReturnValue()->getType()->isPointerTy()) { B b = w.eval(x, r->getReturnValue()); if (b.node == w.tracked) { same = !b.off; if (b.off) st = GONE; } for (auto &h : w.held(x)) if (h.first.first == b.node) st = GONE; } if (st == OWNED) for (auto &h : w.held(x)) if (!w.isLocal(h.first.first)) st = GONE; if (same) v = NZ(); out.insert(Out{st, v, same}); };
	w.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w.run(); nSteps += w.steps; nSum++;
	if (w.over) { nLean++; out.clear(); auto ret = w.onRet; OWalk &w1 = *new OWalk(F); w1.sum = true; w1.lean = true; w1.cap = 8000; w1.tracked = w.tracked; w1.onRet = ret; w1.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w1.run(); nSteps += w1.steps; w.over = w1.over; delete &w1; }
	if (w.over) { nSumOver++; bool c = consumes(F, i); out = c ? gone : own; }
	act.erase(k); return sums[k] = out; }

// ---------------------------------------------------------------- new objects
static bool allFresh(const CallBase *c, const set<const Function *> &also = {}) { auto i = byType.find(c->getFunctionType()); if (i == byType.end() || i->second.empty()) return false; for (auto *t : i->second) if (!fresh.count(t) && !also.count(t)) return false; return true; }
static bool freshPtr(const CallBase *c) { return c->getType()->isPointerTy() && !c->isInlineAsm() && allFresh(c); }
static bool isNew(const CallBase *c) { auto *g = callee(c); if (!g) return c->getType()->isPointerTy() && !c->isInlineAsm() && allFresh(c); string n = g->getName().str(); return newF.count(n) || fresh.count(g); }
static const char slotTag[64] = {}; static const set<Slot> &nullSlots(const Function *F);
static void births(const Function *F, const CallBase *c, bool &returned, bool report, const Slot *sl = nullptr, set<Slot> *found = nullptr, const vector<Env> *seeds0 = nullptr) {
	auto once = [&](const vector<Env> *seeds, map<string, Rep> &out, bool &over, bool lean) {
		out.clear(); OWalk w(F); w.lean = lean; if (lean) w.cap = 20000; w.birth = c; w.tracked = sl ? mk(c, 0, 1 + sl->arg * 4096 + sl->off, slotTag) : ssaNode(c); w.slot = sl; w.argHeld = found; string what = callee(c) ? nameOf(callee(c)) : "a function called through a pointer";
		auto rep = [&](const Instruction *at, const char *how, const char *rule) { Rep r{rule, fileOf(F), nameOf(F), loc(c), what, string(how) + " at " + loc(at)}; out[r.rule + "|" + r.file + "|" + r.fn + "|" + r.what + "|" + (string(rule) == "leak" ? "" : how)] = r; };
		w.onLeak = [&](const Instruction *at, const char *how) { rep(at, how, "leak"); };
		w.onBad = [&](const Instruction *at, const char *how) { rep(at, how, "use"); };
		w.onRet = [&](const ReturnInst *r, const Env &x, Val v) { nEnds++; if (x.st != OWNED) return; if (r->getReturnValue() && r->getReturnValue()->getType()->isPointerTy()) { B b = w.eval(x, r->getReturnValue()); if (b.node == w.tracked) { returned = true; return; } } if (found) for (auto &h : w.held(x)) if (w.isArg(h.first.first)) { auto *a = cast<Argument>(ndv[h.first.first].ssa); if (v.k == 3) v = NZ(); v.t = false; found->insert(Slot{a->getArgNo(), h.first.second, h.second, v}); } for (auto &h : w.held(x)) if (!w.isLocal(h.first.first)) return; rep(r, sl ? "left in memory of the function, and not released when it returns" : "not released when the function returns", "leak"); };
		auto start = [&](Env e) { if (sl) { B a = w.eval(e, c->getArgOperand(sl->arg)); if (!a.node || !(w.isLocal(a.node) || w.isHeap(a.node) || w.isArg(a.node))) return; Cell k{a.node, a.off + sl->off}; { auto i = e.m.find(k); if (i != e.m.end()) { auto &p = i->second.b; bool null = p.v.k == 1 && !p.v.c; if (!null && (p.v.k || (p.node && rootOf(p.node) && isa<Argument>(rootOf(p.node))))) return; if (null && sl->ret.k == 1 && (sl->ret.c == 0 || sl->ret.c == -1) && !nullSlots(callee(c)).count(*sl)) return; } } if (!w.exec(e, c)) return; for (auto i = e.m.begin(); i != e.m.end();) if (i->second.b.node == w.tracked) i = e.m.erase(i); else ++i; MV m; m.b.node = w.tracked; m.key = sl->key; m.own = false; e.m[k] = m; Walk::cellKey[k] = sl->key; Val rv = sl->ret; if (!rv.k && c->getType()->isIntegerTy()) rv = C(1); /* a result that is not one constant: one of success */ if (rv.k) { B x; x.v = rv; if (x.v.k != 1) { x.node = ssaNode(c); w.fact(e, x.node, x.v); } e.b[c] = x; } e.st = OWNED; e.f[w.tracked] = NZ(); if (auto *in = c->getNextNode()) w.from(c->getParent(), in, std::move(e)); w.run(); return; }
			w.redefine(e, c); for (auto i = e.m.begin(); i != e.m.end();) if (i->second.b.node == w.tracked) i = e.m.erase(i); else ++i; e.st = OWNED; e.f[w.tracked] = NZ(); if (auto *in = c->getNextNode()) w.from(c->getParent(), in, std::move(e)); w.run(); };
		if (seeds) for (auto &s : *seeds) start(s); else start(w.seed(c)); nSteps += w.steps; over = w.over; };
	map<string, Rep> out; bool over; once(seeds0, out, over, false); if (over) { nLean++; once(seeds0, out, over, true); } if (over && report) { nBirthOver++; overs.push_back("new " + nameOf(F) + " " + loc(c)); }
	if (!report) return; (sl ? nSlot : nBirth)++;
	bool sure = !sl; if (!out.empty()) for (int lean = 0; lean < 2; lean++) { Walk w0(F); w0.lean = lean; if (lean) w0.cap = 20000; w0.target = c; w0.onRet = noRet; w0.onUse = noUse; w0.from(&F->getEntryBlock(), &F->getEntryBlock().front(), Env()); w0.run(); nSteps += w0.steps; if (w0.over) continue; map<string, Rep> o2; bool ov2; once(&w0.hits, o2, ov2, lean); if (!ov2) { out = o2; sure = true; break; } }
	if (sure) for (auto &r : out) reps[r.first] = r.second; }
// the same, when that memory holds a null pointer
static const set<Slot> &nullSlots(const Function *F) {
	static map<const Function *, set<Slot>> memo; auto it = memo.find(F); if (it != memo.end()) return it->second; memo[F]; set<Slot> found; bool r = false; Env e; for (auto &x : outSlots[F]) { MV m; m.b.v = C(0); m.key = x.key; m.own = false; e.m[{ssaNode(F->getArg(x.arg)), x.off}] = m; }
	for (auto &Bk : *F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = callee(c); if (!g || g == F || !(isNew(c) || outSlots.count(g))) continue; Walk w0(F); w0.target = c; w0.onRet = noRet; w0.onUse = noUse; w0.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w0.run(); if (w0.over) return memo[F] = outSlots[F]; if (w0.hits.empty()) continue;
		if (isNew(c)) births(F, c, r, false, nullptr, &found, &w0.hits); else for (auto &sl : outSlots[g]) if (sl.arg < c->arg_size()) births(F, c, r, false, &sl, &found, &w0.hits); }
	return memo[F] = found; }
static set<const Function *> cand; static bool onlyFresh(const Function *F) {
	bool bad = false; set<const Value *> seen; std::deque<const Value *> q; for (auto &Bk : *F) if (auto *r = dyn_cast<ReturnInst>(Bk.getTerminator())) q.push_back(r->getReturnValue());
	while (!q.empty()) { auto *v = q.front(); q.pop_front(); if (!seen.insert(v).second) continue; if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) q.push_back(o.get()); continue; } if (auto *s = dyn_cast<SelectInst>(v)) { q.push_back(s->getTrueValue()); q.push_back(s->getFalseValue()); continue; } if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) continue; if (auto *c = dyn_cast<CallBase>(v)) { auto *g = callee(c); if (isNew(c) || (g ? cand.count(g) > 0 : allFresh(c, cand))) continue; if (g && reallocF.count(g->getName().str())) continue; } return false; }
	return true; }
static void findFresh() {
	for (auto &F : *M) if (!F.isDeclaration() && F.getReturnType()->isPointerTy()) cand.insert(&F); for (bool ch = true; ch;) { ch = false; for (auto i = cand.begin(); i != cand.end();) if (!onlyFresh(*i)) { i = cand.erase(i); ch = true; } else ++i; }
	for (bool ch = true; ch;) { ch = false; for (auto &F : *M) { if (F.isDeclaration() || !F.getReturnType()->isPointerTy() || fresh.count(&F) || newF.count(F.getName().str()) || reallocF.count(F.getName().str())) continue; if (!cand.count(&F)) continue; bool ret = false; for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) if (isNew(c) && !ret) births(&F, c, ret, false); if (ret) { fresh.insert(&F); ch = true; } } sums.clear(); }
	for (bool ch = true; ch;) { ch = false; for (auto &F : *M) { if (F.isDeclaration() || newF.count(F.getName().str()) || reallocF.count(F.getName().str()) || freeF.count(F.getName().str())) continue; bool ptr = false; for (auto &a : F.args()) if (a.getType()->isPointerTy()) ptr = true; if (!ptr) continue; set<Slot> &o = outSlots[&F]; size_t n = o.size(); bool r = false;
		for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = callee(c); if (g == &F) continue; if (isNew(c)) births(&F, c, r, false, nullptr, &o); if (!g) continue; auto so = outSlots.find(g); if (so != outSlots.end()) for (auto sl : set<Slot>(so->second)) if (sl.arg < c->arg_size() && isa<Argument>(getUnderlyingObject(c->getArgOperand(sl.arg)))) births(&F, c, r, false, &sl, &o); }
		if (o.size() != n) ch = true; } sums.clear(); }
}
// ---------------------------------------------------------------- released objects
static void release(const Function *F, const CallBase *c, unsigned a, const set<Out> &os) {
	nRel++; for (int lean = 0; lean < 2; lean++) { map<string, Rep> rs; bool over = false;
		Walk w0(F); w0.lean = lean; if (lean) w0.cap = 20000; w0.target = c; w0.onRet = noRet; w0.onUse = noUse; w0.from(&F->getEntryBlock(), &F->getEntryBlock().front(), Env()); w0.run(); nSteps += w0.steps; if (w0.over) { if (!lean) { nLean++; continue; } w0.hits = {w0.seed(c)}; }
		map<pair<int, Out>, vector<Env>> by; for (auto &h : w0.hits) { B p = w0.eval(h, c->getArgOperand(a)); if (!p.node || p.off || p.v.k == 1) continue; for (auto &o : os) if (o.st == FREED) by[{p.node, o}].push_back(h); }
		for (auto &g : by) { auto &o = g.first.second; OWalk w(F); w.lean = lean; w.tracked = g.first.first; if (lean) w.cap = 20000; w.onBad = [&](const Instruction *at, const char *how) { Rep r{"use", fileOf(F), nameOf(F), loc(c), nameOf(callee(c)), string(how) + " at " + loc(at)}; rs["use|" + r.file + "|" + r.fn + "|" + r.what + "|" + how] = r; };
			for (auto &h : g.second) { Env e = h; e.f[w.tracked] = NZ(); w.go(c->getParent(), c, e, {}, true, FREED, o.ret, false); w.run(); } nSteps += w.steps; if (w.over) over = true; }
		if (over && !lean) { nLean++; continue; } if (over) { nRelOver++; overs.push_back("free " + nameOf(F) + " " + loc(c)); }
		for (auto &r : rs) reps[r.first] = r.second; break; } }
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic er; auto Mp = parseIRFile(argv[1], er, X); if (!Mp) { er.print("own", errs()); return 2; } M = Mp.get(); DL = &M->getDataLayout(); inferNoReturn(*M); inlineParts(*M);
	{ std::ifstream f(argv[3]); string l; while (std::getline(f, l)) { std::istringstream s(l); string k, a; unsigned n = 0; s >> k >> a >> n; if (k == "new") newF.insert(a); else if (k == "free") freeF[a] = n; else if (k == "realloc") reallocF[a] = n; else if (k == "consume") consumers.push_back({a, n}); } }
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA_; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA_); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA_, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA_); }
	Walk::nullDeref = [](const Function *, unsigned) { return false; }; Walk::flagIn = [](const Function *, const set<std::tuple<unsigned, int64_t, Val>> &) { return Val(); };
	auto T0 = time(nullptr); computeMod(); computeTouch(); findFresh(); if (getenv("OWNT")) errs() << "fresh " << time(nullptr) - T0 << "\n"; auto prim = [&](const string &n) { return newF.count(n) || freeF.count(n) || reallocF.count(n); };
	for (auto &F : *M) { if (F.isDeclaration() || prim(F.getName().str())) continue; auto T1 = time(nullptr); struct TT { const Function *f; time_t t; ~TT() { if (getenv("OWNT") && time(nullptr) - t > 3) errs() << nameOf(f) << " " << time(nullptr) - t << "\n"; } } tt{&F, T1}; for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = callee(c); bool r = false; if (!g) { if (isNew(c)) births(&F, c, r, true); continue; } string n = g->getName().str();
		if (isNew(c)) births(&F, c, r, true); if (outSlots.count(g)) for (auto &sl : outSlots[g]) if (sl.arg < c->arg_size()) { auto *u = getUnderlyingObject(c->getArgOperand(sl.arg)); if (!isa<Argument>(u) && !isa<GlobalValue>(u)) births(&F, c, r, true, &sl); }
		if (freeF.count(n)) release(&F, c, freeF[n], {Out{FREED, Val(), false}}); else if (reallocF.count(n)) release(&F, c, reallocF[n], {Out{FREED, NZ(), false}});
		else if (!g->isDeclaration() && !newF.count(n)) for (unsigned i = 0; i < c->arg_size() && i < g->arg_size(); i++) if (c->getArgOperand(i)->getType()->isPointerTy() && consumes(g, i)) { auto os = summary(g, i); bool f = false, amb = false; for (auto &o : os) { if (o.st == FREED) f = true; for (auto &p : os) if (p.st != o.st && (!p.ret.k || !o.ret.k || (p.ret.k == 1 && o.ret.k == 1 ? p.ret.c == o.ret.c : (p.ret.k != 1 || p.ret.c) && (o.ret.k != 1 || o.ret.c)))) amb = true; } if (f && !amb) release(&F, c, i, os); } } }
	J::Array cons; for (auto &k : consumers) { auto *F = M->getFunction(k.first); J::Array os; if (F && !F->isDeclaration()) for (auto &o : summary(F, k.second)) os.push_back(J::Object{{"st", o.st}, {"ret", o.ret.k == 1 ? (o.ret.c == 0 ? "zero" : "value") : o.ret.k ? "value" : "unknown"}, {"same", o.same}}); cons.push_back(J::Object{{"fn", k.first}, {"arg", k.second}, {"defined", F && !F->isDeclaration()}, {"where", F && F->getSubprogram() ? fileOf(F) + ":" + std::to_string(F->getSubprogram()->getLine()) : ""}, {"outcomes", std::move(os)}}); }
	J::Array out; for (auto &r : reps) out.push_back(J::Object{{"rule", r.second.rule}, {"file", r.second.file}, {"fn", r.second.fn}, {"where", r.second.where}, {"what", r.second.what}, {"detail", r.second.detail}}); J::Array fr; for (auto *f : fresh) fr.push_back(nameOf(f)); J::Array ov; for (auto &s : overs) ov.push_back(s);
	if (auto *d = getenv("OWND")) for (auto &s : sums) { if (nameOf(s.first.first).find(d) == string::npos) continue; errs() << nameOf(s.first.first) << ":" << s.first.second << " consumes " << consumes(s.first.first, s.first.second); for (auto &o : s.second) errs() << " {st " << o.st << " ret " << (int) o.ret.k << ":" << o.ret.c << (o.same ? " same" : "") << "}"; errs() << "\n"; }
	if (getenv("OWNO")) for (auto &o : outSlots) for (auto &x : o.second) errs() << nameOf(o.first) << " arg " << x.arg << "+" << x.off << " " << x.key << " ret " << (int) x.ret.k << ":" << x.ret.c << "\n";
	if (auto *d = getenv("OWNC")) for (auto &F : *M) if (nameOf(&F) == d) for (auto &Bk : F) for (auto &I : Bk) for (auto &u : I.operands()) if (isa<Argument>(u)) { if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = callee(c); errs() << loc(&I) << " call " << (g ? nameOf(g) : "?") << " " << (g && c->isArgOperand(&u) ? consumes(g, c->getArgOperandNo(&u)) : -1) << "\n"; } else if (isa<StoreInst>(I) && cast<StoreInst>(I).getValueOperand() == u) errs() << loc(&I) << " store " << keyOf(cast<StoreInst>(I).getPointerOperand()) << " " << gtouch.count(keyOf(cast<StoreInst>(I).getPointerOperand())) << "\n"; }
	if (auto *d = getenv("OWND")) for (auto &F : *M) if (nameOf(&F).find(d) != string::npos) for (unsigned i = 0; i < F.arg_size(); i++) if (consumes(&F, i)) errs() << nameOf(&F) << " consumes " << i << "\n";
	J::Array fs; for (auto &s : sums) { bool f = false; for (auto &o : s.second) if (o.st == FREED) f = true; if (f) fs.push_back(nameOf(s.first.first) + ":" + std::to_string(s.first.second)); }
	std::error_code ec; raw_fd_ostream O(argv[2], ec); O << J::Value(J::Object{{"consumers", std::move(cons)}, {"reports", std::move(out)}, {"fresh", std::move(fr)}, {"overs", std::move(ov)}, {"frees", std::move(fs)}, {"births", nBirth}, {"slots", nSlot}, {"birthover", nBirthOver}, {"releases", nRel}, {"releaseover", nRelOver}, {"summaries", nSum}, {"sumover", nSumOver}, {"steps", nSteps}, {"ends", nEnds}, {"lean", nLean}}) << "\n"; return 0;
}
