// stale: pointers into a block that a call, or the function itself, may have moved.
//   stale LIB.bc OUT.json SPEC        SPEC: "free FUNC ARG", "realloc FUNC ARG"
// For every function: which blocks, named by a chain of members from its parameters, it releases and puts another in the place of. Then, in each function, a
// forward dataflow over the pointers loaded from such members and what is computed from them: fresh, released, moved. A use of a moved one is reported.
#include <set>
#include <vector>
#include "noret.h"
#include "walk.h"
static map<string, unsigned> freeF, reallocF;
// ---- expressions: the name of a pointer by where it was loaded from
struct X { char k; int a; int64_t c; const Value *v; bool operator<(const X &o) const { return std::tie(k, a, c, v) < std::tie(o.k, o.a, o.c, o.v); } };
static vector<X> xs(1); static map<X, int> xi; static vector<set<const Value *>> leaves(1); static vector<int> depth(1, 0);
static int mkx(char k, int a, int64_t c, const Value *v) { if (k == 'O') { if (!c) return a; if (xs[a].k == 'O') { c += xs[a].c; a = xs[a].a; if (!c) return a; } } X x{k, a, c, v}; auto i = xi.find(x); if (i != xi.end()) return i->second; xs.push_back(x); set<const Value *> l; if (a) l = leaves[a]; if (v && !isa<Constant>(v)) l.insert(v); leaves.push_back(l); depth.push_back((a ? depth[a] : 0) + 1); return xi[x] = xs.size() - 1; }
static map<const Value *, int> xof;
static int ex(const Value *v) { auto i = xof.find(v); if (i != xof.end()) return i->second; int r = 0;
	if (auto *g = dyn_cast<GEPOperator>(v)) { APInt o(64, 0); MapVector<Value *, APInt> var; if (g->collectOffset(*DL, 64, var, o)) { int b = ex(g->getPointerOperand()); for (auto &p : var) b = mkx('I', b, p.second.getSExtValue(), p.first); r = mkx('O', b, o.getSExtValue(), nullptr); } }
	else if (auto *l = dyn_cast<LoadInst>(v)) { if (l->getType()->isPointerTy()) r = mkx('L', ex(l->getPointerOperand()), 0, nullptr); }
	else if (auto *b = dyn_cast<BitCastOperator>(v)) r = ex(b->getOperand(0));
	if (!r || depth[r] > 14) r = mkx('V', 0, 0, v); return xof[v] = r; }
// a chain from a parameter: offsets between loads
struct Ch { unsigned p; vector<int64_t> o; bool operator<(const Ch &x) const { return std::tie(p, o) < std::tie(x.p, x.o); } };
static bool chainOf(int e, Ch &c) { vector<int64_t> r; int64_t off = 0; while (true) { auto &x = xs[e]; if (x.k == 'O') { off += x.c; e = x.a; } else if (x.k == 'L') { r.push_back(off); off = 0; e = x.a; } else if (x.k == 'V') { auto *a = dyn_cast<Argument>(x.v); if (!a) return false; r.push_back(off); c.p = a->getArgNo(); c.o.assign(r.rbegin(), r.rend()); return r.size() <= 5; } else return false; } }
static int apply(int e, const vector<int64_t> &o) { for (unsigned i = 0; i < o.size(); i++) { if (i) e = mkx('L', e, 0, nullptr); e = mkx('O', e, o[i], nullptr); } return e; }   // an address or a pointer
struct Sum { set<Ch> rel, st, repl, ret; };   // blocks released; cells stored to; cells whose block is released and which are stored to; cells into whose block the result points
static map<const Function *, Sum> sum;
static bool prim(const string &n, unsigned &a) { auto i = freeF.find(n); if (i == freeF.end()) { i = reallocF.find(n); if (i == reallocF.end()) return false; } a = i->second; return true; }
static vector<const Function *> targets(const CallBase *c) { if (auto *f = callee(c)) return {f}; return {}; }
// what a call does, in the caller's names
static void effects(const CallBase *c, vector<int> &rel, vector<int> &st, vector<int> &repl) { for (auto *f : targets(c)) { unsigned a; if (prim(f->getName().str(), a)) { if (a < c->arg_size()) rel.push_back(ex(c->getArgOperand(a))); continue; } auto i = sum.find(f); if (i == sum.end()) continue;
	auto go = [&](const set<Ch> &s, vector<int> &out) { for (auto &x : s) if (x.p < c->arg_size() && c->getArgOperand(x.p)->getType()->isPointerTy()) out.push_back(apply(ex(c->getArgOperand(x.p)), x.o)); }; go(i->second.rel, rel); go(i->second.st, st); go(i->second.repl, repl); } }
typedef map<const Value *, set<int>> Org;
// the expressions of the loads a pointer comes from (flow insensitive)
static void results(const CallBase *c, set<int> &o) { if (!c->getType()->isPointerTy()) return; for (auto *f : targets(c)) { auto i = sum.find(f); if (i == sum.end()) continue; for (auto &x : i->second.ret) if (x.p < c->arg_size()) o.insert(mkx('L', apply(ex(c->getArgOperand(x.p)), x.o), 0, nullptr)); } }
static int64_t nLoads = 0;
static Org origins(const Function &F) { Org org; bool c2 = true; for (auto &Bk : F) for (auto &I : Bk) { if (isa<LoadInst>(&I) && I.getType()->isPointerTy()) { org[&I].insert(ex(&I)); nLoads++; } else if (auto *c = dyn_cast<CallBase>(&I)) { set<int> o; results(c, o); if (!o.empty()) org[&I] = o; } }
	while (c2) { c2 = false; for (auto &Bk : F) for (auto &I : Bk) { vector<const Value *> ops; if (auto *g = dyn_cast<GetElementPtrInst>(&I)) ops = {g->getPointerOperand()}; else if (auto *p = dyn_cast<PHINode>(&I)) { if (p->getType()->isPointerTy()) for (auto &o : p->incoming_values()) ops.push_back(o.get()); } else if (auto *se = dyn_cast<SelectInst>(&I)) { if (I.getType()->isPointerTy()) ops = {se->getTrueValue(), se->getFalseValue()}; } size_t n = org.count(&I) ? org[&I].size() : 0; for (auto *o : ops) { auto i = org.find(o); if (i != org.end()) { auto cp = i->second; org[&I].insert(cp.begin(), cp.end()); } } if (org.count(&I) && org[&I].size() != n) c2 = true; } }
	return org; }
int main(int argc, char **argv) {
	LLVMContext LX; SMDiagnostic er; auto Mp = parseIRFile(argv[1], er, LX); if (!Mp) { er.print("stale", errs()); return 2; } M = Mp.get(); DL = &M->getDataLayout(); inferNoReturn(*M); inlineParts(*M);
	{ std::ifstream f(argv[3]); string l; while (std::getline(f, l)) { std::istringstream s(l); string k, a; unsigned n = 0; s >> k >> a >> n; if (k == "free") freeF[a] = n; else if (k == "realloc") reallocF[a] = n; } }
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA_; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA_); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA_, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA_); }
	bool ch = true; int rounds = 0; while (ch && rounds++ < 20) { ch = false; for (auto &F : *M) { if (F.isDeclaration()) continue; unsigned pa; if (prim(F.getName().str(), pa)) continue; auto &s = sum[&F]; size_t n = s.rel.size() + s.st.size() + s.repl.size() + s.ret.size();
		for (auto &Bk : F) for (auto &I : Bk) { if (auto *x = dyn_cast<StoreInst>(&I)) { if (x->getValueOperand()->getType()->isPointerTy()) { Ch c; if (chainOf(ex(x->getPointerOperand()), c)) s.st.insert(c); } }
			else if (auto *c = dyn_cast<CallBase>(&I)) { vector<int> r, t, p; effects(c, r, t, p); Ch q; for (auto e : r) if (chainOf(e, q)) s.rel.insert(q); for (auto e : t) if (chainOf(e, q)) s.st.insert(q); for (auto e : p) if (chainOf(e, q)) s.repl.insert(q); } }
		if (F.getReturnType()->isPointerTy()) { Org org = origins(F); for (auto &Bk : F) if (auto *r = dyn_cast<ReturnInst>(Bk.getTerminator())) { auto i = org.find(r->getReturnValue()); if (i != org.end()) for (auto e : i->second) { Ch c; if (chainOf(e, c) && c.o.size() > 1 && c.o.back() == 0) { c.o.pop_back(); s.ret.insert(c); } } } }
		// released what the cell held, and stored to the cell
		for (auto &c : s.st) { Ch b = c; b.o.push_back(0); if (s.rel.count(b)) s.repl.insert(c); }
		if (s.rel.size() + s.st.size() + s.repl.size() + s.ret.size() != n) ch = true; } }
	nLoads = 0; J::Array out, summ; int64_t nCalls = 0, nFn = 0, nUses = 0;
	for (auto &F : *M) { if (F.isDeclaration()) continue; unsigned pa; if (prim(F.getName().str(), pa)) continue;
		// is there anything here that moves a block?
		map<const CallBase *, std::tuple<vector<int>, vector<int>, vector<int>>> eff; bool any = false; for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) { vector<int> r, t, p; effects(c, r, t, p); if (!r.empty() || !p.empty()) any = true; if (!p.empty()) nCalls++; if (!r.empty() || !t.empty() || !p.empty()) eff[c] = {r, t, p}; }
		if (!any) continue; nFn++;
		typedef map<const Value *, pair<char, const Instruction *>> St; map<const BasicBlock *, St> in; std::deque<const BasicBlock *> q; set<const BasicBlock *> seen; q.push_back(&F.getEntryBlock()); in[&F.getEntryBlock()]; set<pair<const Instruction *, const Value *>> done;
		// origin: the loaded pointer a value is computed from
		std::function<const Value *(const Value *, int)> dummy;
		auto rd = [&](St &s, const Value *v) -> pair<char, const Instruction *> { auto i = s.find(v); return i == s.end() ? pair<char, const Instruction *>{0, nullptr} : i->second; };
		Org org = origins(F);
		auto report = [&](const Instruction *I, const Value *v, const char *how, const Instruction *by) { if (!done.insert({I, v}).second) return; string nm; if (auto *c = dyn_cast_or_null<CallBase>(by)) { if (auto *f = callee(c)) nm = nameOf(f); } out.push_back(J::Object{{"where", loc(I)}, {"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"how", how}, {"by", nm}, {"at", by ? loc(by) : ""}}); };
		while (!q.empty()) { auto *b = q.front(); q.pop_front(); St s = in[b];
			for (auto &I : *b) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
				auto use = [&](const Value *v, const char *how) { nUses++; auto x = rd(s, v); if (x.first == 3) report(&I, v, how, x.second); };
				// redefinition of a name: what was loaded by way of it is not what it names now
				if (!I.getType()->isVoidTy()) { vector<const Value *> drop; for (auto &x : s) if (x.second.first && x.second.first < 3) { for (auto e : org[x.first]) if (leaves[e].count(&I)) { drop.push_back(x.first); break; } } for (auto *d : drop) s.erase(d); s.erase(&I); }
				auto cell = [&](int addr, bool moved, const Instruction *by, const Value *keep) { int l = mkx('L', addr, 0, nullptr); vector<const Value *> drop; for (auto &x : s) { if (!x.second.first || x.second.first == 3) continue; auto &o = org[x.first]; bool sub = false; for (auto e : o) for (int t = e; t; t = xs[t].a) if (t == l) sub = true; if (!sub) continue; if (o.count(l) && (moved || x.second.first == 2)) { if (x.first != keep) x.second = {3, by}; } else drop.push_back(x.first); } for (auto *d : drop) s.erase(d); };
				if (auto *l = dyn_cast<LoadInst>(&I)) { use(l->getPointerOperand(), "read through"); if (l->getType()->isPointerTy()) s[&I] = {1, nullptr}; }
				else if (auto *st = dyn_cast<StoreInst>(&I)) { use(st->getPointerOperand(), "written through"); auto *val = st->getValueOperand(); if (val->getType()->isPointerTy()) { int a = ex(st->getPointerOperand()); bool same = org.count(val) && org[val].count(mkx('L', a, 0, nullptr)); if (!same) cell(a, false, &I, nullptr); } }
				else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { auto x = rd(s, g->getPointerOperand()); if (x.first) s[&I] = x; }
				else if (auto *se = dyn_cast<SelectInst>(&I)) { auto x = rd(s, se->getTrueValue()), y = rd(s, se->getFalseValue()); if (y.first > x.first) x = y; if (x.first) s[&I] = x; }
				else if (auto *mi = dyn_cast<MemIntrinsic>(&I)) { use(mi->getDest(), "written through"); if (auto *mt = dyn_cast<MemTransferInst>(mi)) use(mt->getSource(), "read through"); }
				else if (auto *c = dyn_cast<CallBase>(&I)) { auto *f = callee(c); if (f && f->isIntrinsic()) continue; for (auto &a : c->args()) if (a->getType()->isPointerTy()) use(a.get(), "passed on"); auto e = eff.find(c); if (e != eff.end()) {
					for (auto r : std::get<0>(e->second)) for (auto &x : s) if (x.second.first == 1 && org[x.first].count(r)) x.second = {2, c};
					for (auto p : std::get<2>(e->second)) cell(p, true, c, nullptr);
					for (auto t : std::get<1>(e->second)) { bool isR = false; for (auto p : std::get<2>(e->second)) if (p == t) isR = true; if (!isR) cell(t, false, c, nullptr); } }
					if (org.count(c)) s[c] = {1, nullptr}; } }
			for (auto *n : successors(b)) { St o = s; vector<pair<const Value *, pair<char, const Instruction *>>> ph; for (auto &p : n->phis()) { auto x = rd(s, p.getIncomingValueForBlock(b)); ph.push_back({&p, x}); }
				for (auto &p : n->phis()) { vector<const Value *> drop; for (auto &x : o) if (x.second.first < 3) for (auto e : org[x.first]) if (leaves[e].count(&p)) { drop.push_back(x.first); break; } for (auto *d : drop) o.erase(d); }
				for (auto &x : ph) { if (x.second.first) o[x.first] = x.second; else o.erase(x.first); }
				auto &t = in[n]; bool grew = seen.insert(n).second; for (auto &x : o) { auto &y = t[x.first]; if (x.second.first > y.first) { y = x.second; grew = true; } } if (grew) q.push_back(n); } } }
	for (auto &x : sum) for (auto &c : x.second.repl) { string o; for (auto k : c.o) o += (o.empty() ? "" : ",") + std::to_string(k); summ.push_back(nameOf(x.first) + " " + std::to_string(c.p) + " " + o); }
	std::error_code ec; raw_fd_ostream O(argv[2], ec); O << J::Value(J::Object{{"reports", std::move(out)}, {"movers", std::move(summ)}, {"loads", nLoads}, {"calls", nCalls}, {"functions", nFn}, {"uses", nUses}}); return 0; }
