// drops: which members a destructor releases on every path, and the loops in which it releases the elements of a member.
//   drops LIB.bc OUT.json SPEC
// SPEC: "free FUNC ARG" (what releases), "realloc FUNC ARG", "dtor FUNC" (a destructor; "dtor *" every function whose name says that it is one)
#include <set>
#include <vector>
#include "noret.h"
#include "walk.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
static map<string, unsigned> freeF, reallocF; static set<string> dtors;
static void noUse(const Instruction *, const char *, const Function *) {}
static void noRet(const ReturnInst *, const Env &, Val) {}
struct Chain { vector<int64_t> offs; int64_t tagOff = -1, tag = 0; bool operator<(const Chain &o) const { return std::tie(offs, tagOff, tag) < std::tie(o.offs, o.tagOff, o.tag); } };
struct Res { bool all = true; string where; bool over = false; };
static map<std::tuple<const Function *, unsigned, Chain>, Res> memo; static int64_t nSteps = 0, nWalks = 0;
static const Res &rel(const Function *F, unsigned i, const Chain &c);
struct DWalk : Walk {
	vector<int> ns; Chain ch;
	DWalk(const Function *f, unsigned i, const Chain &c) : Walk(f), ch(c) { onUse = noUse; ns.push_back(ssaNode(f->getArg(i))); for (auto o : c.offs) ns.push_back(mk(nullptr, ns.back(), o, nullptr)); tracked = ns.back(); cap = 3000;
		// what hangs under different members is different: a call that is not given the block does not change it
		spares = [this](const Cell &x, const vector<B> &args) { for (unsigned k = 0; k < ns.size(); k++) { for (auto &a : args) if (a.node == ns[k]) return false; if (x.first == ns[k]) return true; } return false; }; }
	bool event(const BasicBlock *, const Instruction *in, Env &e) override {
		if (isa<PtrToIntInst>(in) && eval(e, in->getOperand(0)).node == tracked) e.st = 3;   // a pointer whose bits are looked at
		if (auto *s = dyn_cast<StoreInst>(in)) { B v = eval(e, s->getValueOperand()); if (v.node == tracked) { B p = eval(e, s->getPointerOperand()); auto *r = p.node ? rootOf(p.node) : nullptr; if (!(r && isa<AllocaInst>(r) && !ndv[p.node].base)) return true; } return false; }
		auto *c = dyn_cast<CallBase>(in); if (!c || isa<DbgInfoIntrinsic>(in)) return false; auto *f = callee(c); if (!f) { for (auto &a : c->args()) if (a->getType()->isPointerTy() && eval(e, a.get()).node == tracked) return true; return false; }
		string n = f->getName().str(); auto prim = [&](map<string, unsigned> &m) { auto i = m.find(n); return i != m.end() && i->second < c->arg_size() && eval(e, c->getArgOperand(i->second)).node == tracked; }; if (prim(freeF) || prim(reallocF)) return true; if (freeF.count(n) || reallocF.count(n) || f->isDeclaration()) return false;
		for (unsigned i = 0; i < c->arg_size() && i < f->arg_size(); i++) { if (!c->getArgOperand(i)->getType()->isPointerTy()) continue; B a = eval(e, c->getArgOperand(i)); if (!a.node) continue;
			for (unsigned k = 0; k < ns.size(); k++) if (a.node == ns[k]) { Chain x; x.offs.assign(ch.offs.begin() + k, ch.offs.end()); if (a.off) { if (x.offs.empty() || x.offs[0] < a.off) continue; x.offs[0] -= a.off; } if (!k && ch.tagOff >= a.off) { x.tagOff = ch.tagOff - a.off; x.tag = ch.tag; } if (f == F && x.offs.empty()) return true; /* handed to the destructor itself */ if (rel(f, i, x).all) return true; } }
		// a callee that gives a member new contents
		if (!benign(f->getName())) for (unsigned k = 0; k < ch.offs.size(); k++) { auto ck = cellKey.find({ns[k], ch.offs[k]}); if (ck != cellKey.end() && modset[f].count(ck->second)) { bool given = false; for (auto &a : c->args()) if (a->getType()->isPointerTy()) { int an = eval(e, a.get()).node; for (unsigned j = 0; j <= k; j++) if (an == ns[j]) given = true; } if (given) e.st = 3; } }
		return false; }
};
static const Res &rel(const Function *F, unsigned i, const Chain &c) {
	auto k = std::make_tuple(F, i, c); auto it = memo.find(k); if (it != memo.end()) return it->second; memo[k] = Res(); if (F->isDeclaration()) { memo[k].all = false; return memo[k]; }
	Res r; DWalk w(F, i, c); Env e; for (auto n : w.ns) e.f[n] = NZ(); if (c.tagOff >= 0) { int tn = mk(nullptr, w.ns[0], c.tagOff, nullptr); e.f[tn] = C(c.tag); }
	w.onRet = [&](const ReturnInst *in, const Env &x, Val) { if (x.st == 3) return; if (r.all) { r.all = false; r.where = loc(in); } };
	w.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w.run(); nSteps += w.steps; nWalks++; if (w.over) r.over = true; memo[k] = r; return memo[k]; }

// ---------------------------------------------------------------- the members of an argument, by the debug information
struct Mem { string name; vector<int64_t> offs; }; struct Tag { int64_t off; string name; vector<pair<string, int64_t>> items; };
static const DIType *strip(const DIType *t) { while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { auto g = d->getTag(); if (g == dwarf::DW_TAG_typedef || g == dwarf::DW_TAG_const_type || g == dwarf::DW_TAG_volatile_type) t = d->getBaseType(); else break; } return t; }
static void members(const DICompositeType *ct, const string &pre, int64_t base, vector<int64_t> via, int depth, vector<Mem> &out, vector<Tag> *tags, set<const DIType *> seen) {
	if (!seen.insert(ct).second) return;
	for (auto *el : ct->getElements()) { auto *m = dyn_cast<DIDerivedType>(el); if (!m || m->getTag() != dwarf::DW_TAG_member) continue; int64_t off = base + m->getOffsetInBits() / 8; string nm = pre + (m->getName().empty() ? "" : m->getName().str());
		auto *t = strip(m->getBaseType()); if (auto *c = dyn_cast_or_null<DICompositeType>(t)) { if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) members(c, nm + (nm.empty() ? "" : "."), off, via, depth, out, tags, seen);
			else if (c->getTag() == dwarf::DW_TAG_enumeration_type && tags) { Tag g{off, nm, {}}; for (auto *x : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(x)) g.items.push_back({en->getName().str(), en->getValue().getSExtValue()}); tags->push_back(g); } }
		else if (auto *p = dyn_cast_or_null<DIDerivedType>(t)) { if (p->getTag() != dwarf::DW_TAG_pointer_type) continue; auto *to = strip(p->getBaseType()); if (isa_and_nonnull<DISubroutineType>(to)) continue; auto v = via; v.push_back(off); out.push_back({nm, v});
			if (depth < 3) if (auto *c = dyn_cast_or_null<DICompositeType>(to)) if (c->getTag() == dwarf::DW_TAG_structure_type) members(c, nm + "->", 0, v, depth + 1, out, nullptr, seen); } } }

// ---------------------------------------------------------------- loops
static bool releasing(const Function *F, set<const Function *> &seen) { if (freeF.count(F->getName().str())) return true; if (F->isDeclaration() || !seen.insert(F).second) return false; for (auto &Bk : *F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = callee(c)) if (releasing(g, seen)) return true; return false; }
static bool dead(const BasicBlock *b, int d = 0) { if (isa<UnreachableInst>(b->getTerminator())) return true; if (d > 4) return false; if (auto *u = b->getSingleSuccessor()) return dead(u, d + 1); return false; }
static const Value *peel(const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; }
static bool dependsOn(const Value *v, const Value *on, set<const Value *> &seen) { if (v == on) return true; if (!seen.insert(v).second) return false; if (auto *in = dyn_cast<Instruction>(v)) { if (isa<PHINode>(in)) return false; for (auto &o : in->operands()) if (dependsOn(o.get(), on, seen)) return true; } return false; }
static J::Array loops(const Function *F) {
	J::Array out; auto &FF = *const_cast<Function *>(F); DominatorTree DT(FF); LoopInfo LI(DT);
	for (auto *L : LI.getLoopsInPreorder()) { J::Array bad; const CallBase *site = nullptr; vector<const CallBase *> sites;
		// a release of something that the loop's own variables reach
		vector<const PHINode *> ph; for (auto &p : L->getHeader()->phis()) ph.push_back(&p);
		for (auto *b : L->blocks()) { if (LI.getLoopFor(b) != L && LI.getLoopFor(b)->getHeader() == nullptr) continue; for (auto &I : *b) if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = callee(c); set<const Function *> s1; if (!g || !releasing(g, s1)) continue; for (auto &a : c->args()) for (auto *p : ph) { set<const Value *> s2; if (a->getType()->isPointerTy() && !isa<Constant>(a.get()) && dependsOn(a.get(), p, s2)) { site = c; if (sites.empty() || sites.back() != c) sites.push_back(c); } } } }
		if (!site) continue; int exits = 0; const BranchInst *ex = nullptr; SmallVector<std::pair<BasicBlock *, BasicBlock *>, 8> ee; L->getExitEdges(ee);
		for (auto &x : ee) if (!dead(x.second)) { exits++; if (auto *br = dyn_cast<BranchInst>(x.first->getTerminator())) if (br->isConditional()) ex = br; }
		string kind = "other"; const PHINode *iv = nullptr; int64_t start = 0, step = 0; bool hasStart = false;
		if (exits == 1 && ex) { auto *ic = dyn_cast<ICmpInst>(ex->getCondition()); if (ic) { auto *a = peel(ic->getOperand(0)), *b = peel(ic->getOperand(1)); if (!isa<PHINode>(a) && isa<PHINode>(b)) std::swap(a, b);
			bool strict = ic->getPredicate() != CmpInst::ICMP_ULE && ic->getPredicate() != CmpInst::ICMP_UGE && ic->getPredicate() != CmpInst::ICMP_SLE && ic->getPredicate() != CmpInst::ICMP_SGE, ahead = false;
			for (int t = 0; t < 2; t++, std::swap(a, b)) if (auto *o = dyn_cast<BinaryOperator>(a)) if (o->getOpcode() == Instruction::Add) if (auto *p = dyn_cast<PHINode>(peel(o->getOperand(0)))) if (auto *ci = dyn_cast<ConstantInt>(o->getOperand(1))) if (p->getParent() == L->getHeader() && L->getLoopLatch() && peel(p->getIncomingValueForBlock(L->getLoopLatch())) != o && ci->getSExtValue() >= (strict ? 1 : 2)) { ahead = true; a = p; break; }
			if (auto *p = dyn_cast<PHINode>(a)) if (p->getParent() == L->getHeader()) { iv = p; if (p->getType()->isIntegerTy()) { kind = "index"; auto *pre = L->getLoopPredecessor(), *lat = L->getLoopLatch(); if (pre) if (auto *ci = dyn_cast<ConstantInt>(p->getIncomingValueForBlock(pre))) { hasStart = true; start = ci->getSExtValue(); }
				if (lat) if (auto *o = dyn_cast<BinaryOperator>(peel(p->getIncomingValueForBlock(lat)))) if (auto *ci = dyn_cast<ConstantInt>(o->getOperand(1))) step = o->getOpcode() == Instruction::Add ? ci->getSExtValue() : o->getOpcode() == Instruction::Sub ? -ci->getSExtValue() : 0;
				if (hasStart && step > 0) { if (start != 0) bad.push_back("begins at " + std::to_string(start)); if (step != 1) bad.push_back("goes on by " + std::to_string(step));
					if (ahead) bad.push_back("stops short of the number of elements");
					if (strict) if (auto *o = dyn_cast<BinaryOperator>(b)) if (auto *ci = dyn_cast<ConstantInt>(o->getOperand(1))) if ((o->getOpcode() == Instruction::Sub && ci->getSExtValue() > 0) || (o->getOpcode() == Instruction::Add && ci->getSExtValue() < 0) || o->getOpcode() == Instruction::LShr || o->getOpcode() == Instruction::UDiv || o->getOpcode() == Instruction::And) bad.push_back("stops short of the number of elements"); } }
				else kind = "list"; } } }
		// what decides whether an element is released: the element, and nothing else
		for (auto *site : sites) for (auto *b : L->blocks()) { auto *br = dyn_cast<BranchInst>(b->getTerminator()); if (!br || !br->isConditional() || b == site->getParent()) continue; bool leaves = false; for (auto *s : br->successors()) if (!L->contains(s)) leaves = true; if (leaves) continue;
			auto around = [&](const BasicBlock *from, bool via) { set<const BasicBlock *> seen; vector<const BasicBlock *> st{from}; while (!st.empty()) { auto *x = st.back(); st.pop_back(); if (!L->contains(x) || !seen.insert(x).second) continue; if (x == site->getParent()) { if (via) return true; continue; } if (x == L->getHeader()) { if (!via) return true; continue; } for (auto *s : successors(x)) st.push_back(s); } return false; };
			bool can = false, not_ = false; for (auto *s : br->successors()) { if (around(s, true)) can = true; if (!around(s, true)) not_ = true; } if (!can || !not_) continue;
			std::function<bool(const Value *, set<const Value *> &)> ofElem = [&](const Value *v, set<const Value *> &seen) { if (!seen.insert(v).second) return false; auto *in = dyn_cast<Instruction>(v); if (!in) return false; if (auto *ld = dyn_cast<LoadInst>(in)) { for (auto *p : ph) { set<const Value *> s2; if (dependsOn(ld->getPointerOperand(), p, s2)) return true; } }
				if (auto *p = dyn_cast<PHINode>(in)) { for (auto *q : ph) if (p == q && p->getType()->isPointerTy()) return true; return !L->contains(p) ? false : p->getParent() != L->getHeader(); } if (isa<CallBase>(in)) { for (auto *p : ph) { set<const Value *> s2; if (dependsOn(in, p, s2)) return true; } return false; } for (auto &o : in->operands()) if (ofElem(o.get(), seen)) return true; return false; };
			set<const Value *> s3; if (!ofElem(br->getCondition(), s3)) bad.push_back("passes over some for a reason that is not the element's own"); }
		if (exits > 1) bad.push_back("may end before the last element");
		out.push_back(J::Object{{"where", loc(site)}, {"fn", nameOf(F)}, {"file", fileOf(F)}, {"kind", kind}, {"exits", exits}, {"bad", std::move(bad)}}); }
	return out; }
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic er; auto Mp = parseIRFile(argv[1], er, X); if (!Mp) { er.print("drops", errs()); return 2; } M = Mp.get(); DL = &M->getDataLayout(); inferNoReturn(*M); inlineParts(*M);
	{ std::ifstream f(argv[3]); string l; while (std::getline(f, l)) { std::istringstream s(l); string k, a; unsigned n = 0; s >> k >> a >> n; if (k == "free") freeF[a] = n; else if (k == "realloc") reallocF[a] = n; else if (k == "dtor") dtors.insert(a); } }
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA_; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA_); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA_, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA_); }
	Walk::nullDeref = [](const Function *, unsigned) { return false; }; Walk::flagIn = [](const Function *, const set<std::tuple<unsigned, int64_t, Val>> &) { return Val(); }; computeMod();
	auto isDtor = [&](const Function *F) { string n = nameOf(F); if (dtors.count(n)) return true; if (!dtors.count("*")) return false; for (auto *w : {"free", "finali", "destroy", "delete", "dispose", "clear", "release"}) if (n.find(w) != string::npos) return true; return false; };
	J::Array obl, lps; set<const Function *> reach; std::deque<const Function *> q;
	for (auto &F : *M) { if (F.isDeclaration() || freeF.count(F.getName().str()) || !F.getSubprogram() || !isDtor(&F)) continue; set<const Function *> s; if (!releasing(&F, s)) continue; if (reach.insert(&F).second) q.push_back(&F);
		auto ta = F.getSubprogram()->getType()->getTypeArray(); unsigned np = 0; for (unsigned i = 1; i < ta.size() && i - 1 < F.arg_size(); i++) { auto *p = dyn_cast_or_null<DIDerivedType>(strip(ta[i])); if (!p || p->getTag() != dwarf::DW_TAG_pointer_type) continue; auto *c = dyn_cast_or_null<DICompositeType>(strip(p->getBaseType())); if (!c || !F.getArg(i - 1)->getType()->isPointerTy()) continue;
			vector<Mem> ms; vector<Tag> tags; members(c, "", 0, {}, 1, ms, &tags, {});
			auto emit = [&](const string &name, const string &tag, const Chain &ch) { auto &r = rel(&F, i - 1, ch); obl.push_back(J::Object{{"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"static", F.hasLocalLinkage()}, {"arg", (int64_t) (i - 1)}, {"type", c->getName().str()}, {"member", name}, {"tag", tag}, {"all", r.all && !r.over}, {"over", r.over}, {"where", r.where}}); return r.all; };
			emit("", "", Chain());
			for (auto &m : ms) { Chain ch; ch.offs = m.offs; if (emit(m.name, "", ch)) continue; for (auto &t : tags) for (auto &x : t.items) { Chain d = ch; d.tagOff = t.off; d.tag = x.second; emit(m.name, t.name + "=" + x.first, d); } } } }
	while (!q.empty()) { auto *F = q.front(); q.pop_front(); for (auto &x : loops(F)) lps.push_back(x); for (auto &Bk : *F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = callee(c)) if (!g->isDeclaration() && !freeF.count(g->getName().str())) { set<const Function *> s; if (releasing(g, s) && reach.insert(g).second) q.push_back(g); } }
	std::error_code ec; raw_fd_ostream O(argv[2], ec); O << J::Value(J::Object{{"members", std::move(obl)}, {"loops", std::move(lps)}, {"steps", nSteps}, {"walks", nWalks}}); return 0; }
