// over: a member's block replaced by another while nothing else holds it.
//   over LIB.bc OUT.json SPEC        SPEC: "free FUNC ARG", "realloc FUNC ARG"
// Every load of a member that some function releases, in a function that also stores to such a member, is followed along every path with what it held:
// released, put somewhere else, or given back, or lost when the member is given another value.
#include <set>
#include <vector>
#include "noret.h"
#include "walk.h"
static map<string, unsigned> freeF, reallocF; static map<const Function *, set<unsigned>> rels, moves; /* arguments released; arguments reallocated, the result being the block */
static void noUse(const Instruction *, const char *, const Function *) {}
static const Value *strip(const Value *v) { while (true) { if (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); else return v; } }
struct OW : Walk {
	int base; int64_t off; const LoadInst *L; const Instruction *lost = nullptr; int rnode = 0; vector<std::tuple<const Instruction *, const Instruction *, bool>> out;
	bool same(int n) { return n && (n == tracked || (ndv[n].base == base && ndv[n].off == off && ndv[n].havoc)); }   // or what a call may have put there since
	OW(const LoadInst *l) : Walk(l->getFunction()), L(l) { onUse = noUse; cap = 3000; }
	// st: 0 held by the member alone, 1 replaced, 2 replaced by an unchecked reallocation of it, 3 seen to
	bool event(const BasicBlock *, const Instruction *in, Env &e) override {
		if (e.st == 3) return true;
		if (in == L) { if (e.st == 1 || e.st == 2) { for (auto &x : e.b) if (x.first != L && x.second.node == tracked) return true; for (auto &x : e.m) if (x.second.b.node == tracked) return true; out.push_back({lost, in, e.st == 2}); } return true; }
		if (isa<PtrToIntInst>(in) && eval(e, in->getOperand(0)).node == tracked) return true;
		if (auto *s = dyn_cast<StoreInst>(in)) { B v = eval(e, s->getValueOperand()), p = eval(e, s->getPointerOperand()); bool cell = p.node == base && p.off == off;
			if (cell && e.st == 0) { if (same(v.node)) return true; Val k = known(e, tracked); if (k.k == 1) return true; lost = in; e.st = rnode && v.node == rnode && v.v.k != 2 && known(e, rnode).k != 2 ? 2 : 1; if (rnode && v.node == rnode && e.st == 1) return true; if (e.st == 2) { out.push_back({in, nullptr, true}); return true; } return false; }
			if (v.node == tracked) return true; return false; }
		if (auto *mt = dyn_cast<MemTransferInst>(in)) { B s = eval(e, mt->getSource()), d = eval(e, mt->getDest()); if (s.node == base && e.st == 0) return true; if (d.node == base) return true; return false; }
		if (auto *c = dyn_cast<CallBase>(in)) { if (isa<DbgInfoIntrinsic>(in)) return false; auto *f = callee(c); for (unsigned i = 0; i < c->arg_size(); i++) { if (!c->getArgOperand(i)->getType()->isPointerTy()) continue; B a = eval(e, c->getArgOperand(i)); if (a.node == base && base && f && !f->isDeclaration() && a.off <= off) { /* the callee may see to it */ if (modset[f].count(key)) return true; }
				if (!same(a.node)) continue; if (!f) return true; if (rels[f].count(i)) return true; if (moves[f].count(i)) { rnode = ssaNode(c); rc = c; } } return false; }
		return false; }
	string key; const CallBase *rc = nullptr;
};
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic er; auto Mp = parseIRFile(argv[1], er, X); if (!Mp) { er.print("over", errs()); return 2; } M = Mp.get(); DL = &M->getDataLayout(); inferNoReturn(*M); inlineParts(*M);
	{ std::ifstream f(argv[3]); string l; while (std::getline(f, l)) { std::istringstream s(l); string k, a; unsigned n = 0; s >> k >> a >> n; if (k == "free") freeF[a] = n; else if (k == "realloc") reallocF[a] = n; } }
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA_; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA_); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA_, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA_); }
	Walk::nullDeref = [](const Function *, unsigned) { return false; }; Walk::flagIn = [](const Function *, const set<std::tuple<unsigned, int64_t, Val>> &) { return Val(); }; computeMod();
	for (auto &F : *M) { string n = F.getName().str(); if (freeF.count(n)) rels[&F].insert(freeF[n]); if (reallocF.count(n)) moves[&F].insert(reallocF[n]); }
	bool ch = true; while (ch) { ch = false; for (auto &F : *M) { if (F.isDeclaration() || freeF.count(F.getName().str()) || reallocF.count(F.getName().str())) continue; for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = callee(c)) for (unsigned i = 0; i < c->arg_size(); i++) { auto *v = strip(c->getArgOperand(i)); vector<const Value *> vs{v}; if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) vs.push_back(strip(o.get())); for (auto *w : vs) { auto *a = dyn_cast<Argument>(w); if (!a) continue;
			if (rels[g].count(i) && rels[&F].insert(a->getArgNo()).second) ch = true;
			if (moves[g].count(i)) { bool ret = false; for (auto *u : c->users()) if (isa<ReturnInst>(u)) ret = true; else if (auto *p = dyn_cast<PHINode>(u)) for (auto *u2 : p->users()) if (isa<ReturnInst>(u2)) ret = true; if (ret ? moves[&F].insert(a->getArgNo()).second : rels[&F].insert(a->getArgNo()).second) ch = true; } } } } }
	// members some function releases
	map<string, string> owning; for (auto &F : *M) for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = callee(c)) for (unsigned i = 0; i < c->arg_size(); i++) if (rels[g].count(i) || moves[g].count(i)) if (auto *l = dyn_cast<LoadInst>(strip(c->getArgOperand(i)))) { string k = keyOf(l->getPointerOperand()); if (k != "*" && k != "elem" && !isa<AllocaInst>(getUnderlyingObject(l->getPointerOperand()))) owning[k] = nameOf(&F); }
	J::Array out, mem; for (auto &x : owning) mem.push_back(x.first + " (" + x.second + ")"); int64_t nL = 0, nS = 0, nOver = 0, nSteps = 0; set<std::tuple<const Instruction *, bool>> seen;
	for (auto &F : *M) { if (F.isDeclaration()) continue; set<string> stored; for (auto &Bk : F) for (auto &I : Bk) if (auto *s = dyn_cast<StoreInst>(&I)) { string k = keyOf(s->getPointerOperand()); if (owning.count(k) && s->getValueOperand()->getType()->isPointerTy()) { stored.insert(k); nS++; } } if (stored.empty()) continue;
		for (auto &Bk : F) for (auto &I : Bk) if (auto *l = dyn_cast<LoadInst>(&I)) { string k = keyOf(l->getPointerOperand()); if (!stored.count(k) || !l->getType()->isPointerTy() || isa<AllocaInst>(getUnderlyingObject(l->getPointerOperand()))) continue; nL++;
			OW w(l); w.key = k; Env e = w.seed(l); if (!w.exec(e, l)) continue; B v = w.eval(e, l), p = w.eval(e, l->getPointerOperand()); if (!v.node || v.off || v.v.k == 1) continue; w.tracked = v.node; w.base = p.node; w.off = p.off; e.f[v.node] = NZ(); e.st = 0;
			w.onRet = [&](const ReturnInst *r, const Env &x, Val) { if (x.st != 1 && x.st != 2) return; if (r->getReturnValue()) { B b = w.eval(x, r->getReturnValue()); if (b.node == w.tracked) return; } Val kv = w.known(x, w.tracked); if (kv.k == 1) return; w.out.push_back({w.lost, r, x.st == 2}); };
			w.startAfter(l, e); nSteps += w.steps; if (w.over) nOver++;
			for (auto &x : w.out) { auto *s = std::get<0>(x); if (!seen.insert({s, std::get<2>(x)}).second) continue; out.push_back(J::Object{{"where", loc(s)}, {"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"member", k}, {"load", loc(l)}, {"end", std::get<1>(x) ? loc(std::get<1>(x)) : ""}, {"unchecked", std::get<2>(x)}}); } } }
	std::error_code ec; raw_fd_ostream O(argv[2], ec); O << J::Value(J::Object{{"reports", std::move(out)}, {"members", std::move(mem)}, {"loads", nL}, {"stores", nS}, {"over", nOver}, {"steps", nSteps}}); return 0; }
