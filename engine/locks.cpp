// locks: which mutexes are held where, in every calling context, for code run by threads.
//   locks MODULE.bc OUT.json
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <deque>
#include <functional>
using namespace llvm;
using std::map; using std::set; using std::vector; using std::string; using std::pair;
namespace J = llvm::json;
typedef set<const Value *> LS;      // mutexes held
typedef set<LS> States;
static string loc(const Instruction *I) { if (auto &d = I->getDebugLoc()) return d->getFilename().str() + ":" + std::to_string(d.getLine()); return ""; }
static const GlobalVariable *global(const Value *v) {
	for (;;) { v = v->stripPointerCasts(); if (auto *g = dyn_cast<GEPOperator>(v)) { v = g->getPointerOperand(); continue; } break; }
	return dyn_cast<GlobalVariable>(v);
}
struct Ctx { const Function *F; LS in; bool thr; bool operator<(const Ctx &o) const { return std::tie(F, in, thr) < std::tie(o.F, o.in, o.thr); } };
static Module *M; static J::Array out; static set<string> seen; static map<const Function *, int> ctxCount;
static void rep(const Instruction *I, string kind, string what, string msg) {
	string k = loc(I) + kind + what; if (!seen.insert(k).second) return;
	out.push_back(J::Object{{"where", loc(I)}, {"fn", I->getFunction()->getName().str()}, {"kind", kind}, {"what", what}, {"msg", msg}});
}
static map<Ctx, States> summ; static set<Ctx> done, active; static bool changed;
struct Acc { const Instruction *I; LS held; bool thr; bool write; };
static map<const GlobalVariable *, vector<Acc>> acc;
static map<const Instruction *, pair<States, States>> ats;   // [0] outside threads, [1] in threads
static vector<const Function *> taken;
static int isLock(StringRef n) { if (n == "pthread_mutex_lock" || n == "mtx_lock" || n == "pthread_spin_lock") return 1; if (n == "pthread_mutex_unlock" || n == "mtx_unlock" || n == "pthread_spin_unlock") return -1; return 0; }
static string names(const LS &l) { string s; for (auto *v : l) s += (s.empty() ? "" : ",") + v->getName().str(); return s.empty() ? "none" : s; }
static const Value *lockId(const Value *v) { if (auto *g = global(v)) return g; return v->stripPointerCasts(); }

static States analyse(Ctx c) {
	if (active.count(c) || done.count(c)) return summ[c];
	active.insert(c); ctxCount[c.F]++;
	map<const BasicBlock *, States> in; in[&c.F->getEntryBlock()] = {c.in}; std::deque<const BasicBlock *> wl{&c.F->getEntryBlock()}; States ex;
	set<const BasicBlock *> visited;
	while (!wl.empty()) {
		auto *b = wl.front(); wl.pop_front(); visited.insert(b); States s = in[b]; bool dead = false;
		for (auto &I : *b) {
			auto &A = c.thr ? ats[&I].second : ats[&I].first; A.insert(s.begin(), s.end());
			if (auto *cb = dyn_cast<CallBase>(&I)) {
				if (isa<IntrinsicInst>(cb)) continue;
				vector<const Function *> tg; bool ext = false; auto *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
				if (F) { 
					int k = isLock(F->getName());
					if (k) { const Value *id = lockId(cb->getArgOperand(0)); States n; for (auto l : s) {
							if (k > 0) { if (l.count(id)) rep(cb, "twice", id->getName().str(), "locks " + id->getName().str() + ", which may already be held"); l.insert(id); }
							else { if (!l.count(id)) rep(cb, "unheld", id->getName().str(), "unlocks " + id->getName().str() + ", which may not be held"); l.erase(id); } n.insert(l); } s = n; continue; }
					if (F->isDeclaration()) { ext = true; for (auto &a : cb->args()) if (auto *t = dyn_cast<Function>(a->stripPointerCasts())) if (!t->isDeclaration() && F->getName() != "pthread_create" && F->getName() != "atexit") tg.push_back(t); }
					else tg.push_back(F);
				} else if (!cb->isInlineAsm()) { for (auto *t : taken) if (t->getFunctionType() == cb->getFunctionType()) tg.push_back(t); ext = true; }
				if (!tg.empty()) { States n; if (ext) n = s; for (auto *t : tg) for (auto &l : s) { auto r = analyse({t, l, c.thr}); n.insert(r.begin(), r.end()); } s = n; }
				if (F && F->doesNotReturn()) { dead = true; break; }
			}
			if (isa<ReturnInst>(I)) ex.insert(s.begin(), s.end());
		}
		if (dead) continue;
		for (auto *n : successors(b)) { auto &d = in[n]; size_t k = d.size(); d.insert(s.begin(), s.end()); if (d.size() != k || !visited.count(n)) wl.push_back(n); }
	}
	active.erase(c); done.insert(c);
	if (summ[c] != ex) { summ[c] = ex; changed = true; }
	return ex;
}
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic e; auto Mp = parseIRFile(argv[1], e, X); if (!Mp) { e.print("locks", errs()); return 2; } M = Mp.get();
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager CG; ModuleAnalysisManager MA;
	  PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA); }
	// thread entry functions: what reaches the third argument of pthread_create
	set<const Function *> entries; set<const Value *> seenV; vector<const CallBase *> creates; vector<const CallBase *> joins;
	std::function<void(const Value *)> trace = [&](const Value *v) {
		v = v->stripPointerCasts(); if (!seenV.insert(v).second) return;
		if (auto *F = dyn_cast<Function>(v)) { entries.insert(F); return; }
		if (auto *a = dyn_cast<Argument>(v)) { for (auto *u : a->getParent()->users()) if (auto *cb = dyn_cast<CallBase>(u)) if (cb->getCalledOperand() == a->getParent()) trace(cb->getArgOperand(a->getArgNo())); return; }
		if (auto *p = dyn_cast<PHINode>(v)) { for (auto &x : p->incoming_values()) trace(x); return; }
		if (auto *s = dyn_cast<SelectInst>(v)) { trace(s->getTrueValue()); trace(s->getFalseValue()); return; }
		if (auto *l = dyn_cast<LoadInst>(v)) { if (auto *g = global(l->getPointerOperand())) { if (g->hasInitializer()) { std::function<void(const Constant *)> w = [&](const Constant *k) { if (auto *F = dyn_cast<Function>(k->stripPointerCasts())) { entries.insert(F); return; } for (auto &o : k->operands()) if (auto *kk = dyn_cast<Constant>(&*o)) w(kk); }; w(g->getInitializer()); }
				for (auto *u : g->users()) if (auto *st = dyn_cast<StoreInst>(u)) trace(st->getValueOperand()); return; } }
		for (auto &F : *M) if (F.hasAddressTaken() && F.arg_size() == 1 && !F.isDeclaration()) entries.insert(&F);
	};
	for (auto &F : *M) { if (!F.isDeclaration() && F.hasAddressTaken()) taken.push_back(&F); for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *t = cb->getCalledFunction()) {
		if (t->getName() == "pthread_create") { creates.push_back(cb); trace(cb->getArgOperand(2)); } if (t->getName() == "pthread_join") joins.push_back(cb); } }
	for (int r = 0; r < 20; r++) { changed = false; done.clear();
		for (auto *F : entries) if (!F->isDeclaration()) analyse({F, LS(), true});
		for (auto &F : *M) if (!F.isDeclaration() && F.getName() == "main") analyse({&F, LS(), false});
		if (!changed) break; }
	int64_t nacc = 0, nlock = 0, nglob = 0; set<const Function *> thrF; for (auto &k : summ) if (k.first.thr) thrF.insert(k.first.F);
	// exits
	for (auto &k : summ) {
		const Ctx &c = k.first; bool entry = entries.count(c.F) && c.thr && c.in.empty();
		const Instruction *ret = nullptr; for (auto &B : *c.F) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) ret = r; if (!ret) continue;
		if (k.second.size() > 1 || (entry && k.second.size() == 1 && *k.second.begin() != c.in)) {
			// name a return reached in a state other than the others
			set<string> d; for (auto &l : k.second) d.insert(names(l)); string s; for (auto &x : d) s += (s.empty() ? "" : " or ") + x;
			rep(ret, "exit", "", string("returns with different mutexes held: ") + s + " (entered with " + names(c.in) + ")");
		} else if (!entry && k.second.size() == 1 && c.thr) {
			// a function may take or release a lock for its caller only if that is all it does with it; mutual consistency is checked in the caller
		}
	}
	// shared globals: written in thread context
	map<const GlobalVariable *, vector<const Instruction *>> A, W;
	for (auto &p : ats) {
		auto *I = p.first; if (p.second.second.empty()) continue; const Value *ptr = nullptr; bool w = false;
		if (auto *l = dyn_cast<LoadInst>(I)) ptr = l->getPointerOperand(); else if (auto *s = dyn_cast<StoreInst>(I)) { ptr = s->getPointerOperand(); w = true; }
		else if (auto *r = dyn_cast<AtomicRMWInst>(I)) { continue; }
		else if (auto *m = dyn_cast<MemIntrinsic>(I)) { ptr = m->getRawDest(); w = true; }
		if (!ptr) continue; auto *g = global(ptr); if (!g || g->isThreadLocal() || g->isConstant()) continue;
		A[g].push_back(I); if (w) W[g].push_back(I);
	}
	// a global whose address a thread passes to a call counts as written there
	for (auto &p : ats) { if (p.second.second.empty()) continue; if (auto *cb = dyn_cast<CallBase>(p.first)) { if (isa<DbgInfoIntrinsic>(cb)) continue; auto *F = cb->getCalledFunction(); if (F && isLock(F->getName())) continue; for (auto &a : cb->args()) if (a->getType()->isPointerTy()) if (auto *g = global(a)) if (!g->isConstant() && !g->isThreadLocal() && !g->getName().starts_with(".str") && !g->getName().starts_with("__")) { A[g].push_back(cb); } } }
	for (auto &p : W) {
		auto *g = p.first; nglob++;
		map<const Value *, int> votes; for (auto *I : A[g]) for (auto &l : ats[I].second) for (auto *m : l) votes[m]++;
		const Value *best = nullptr; for (auto &v : votes) if (!best || v.second > votes[best]) best = v.first;
		for (auto *I : A[g]) { nacc++; for (auto &l : ats[I].second) if (!best || !l.count(best)) { rep(I, "unlocked", g->getName().str(), string("a worker thread ") + (isa<LoadInst>(I) ? "reads " : "writes ") + g->getName().str() + " without holding " + (best ? best->getName().str() : string("any mutex"))); break; } }
		// memory reached through the shared pointer
		if (best) for (auto *I : A[g]) if (auto *ld = dyn_cast<LoadInst>(I)) if (ld->getType()->isPointerTy()) {
			// detached: the pointer is replaced in the global before the mutex is released
			bool detached = false; { set<const Instruction *> vis; std::deque<const Instruction *> q{ld->getNextNode()};
				while (!q.empty() && !detached) { const Instruction *x = q.front(); q.pop_front(); bool stop = false;
					for (; x; x = x->getNextNode()) { if (!vis.insert(x).second) { stop = true; break; } if (auto *s = dyn_cast<StoreInst>(x)) if (global(s->getPointerOperand()) == g) { detached = true; break; }
						bool held = false; for (auto &l : ats[x].second) if (l.count(best)) held = true; if (!held) { stop = true; break; }
						if (x->isTerminator()) { for (unsigned i = 0; i < x->getNumSuccessors(); i++) q.push_back(&x->getSuccessor(i)->front()); break; } }
					(void) stop; } }
			if (detached) continue;
			std::deque<const Value *> q{ld}; set<const Value *> vs;
			while (!q.empty()) { auto *v = q.front(); q.pop_front(); if (!vs.insert(v).second) continue;
				for (auto *u : v->users()) { auto *ui = dyn_cast<Instruction>(u); if (!ui) continue; if (isa<GetElementPtrInst>(ui) || isa<PHINode>(ui)) { q.push_back(ui); continue; }
					const Value *pp = isa<LoadInst>(ui) ? cast<LoadInst>(ui)->getPointerOperand() : isa<StoreInst>(ui) ? cast<StoreInst>(ui)->getPointerOperand() : nullptr; if (pp != v) continue; nacc++;
					for (auto &l : ats[ui].second) if (!l.count(best)) { rep(ui, "unlocked", "*" + g->getName().str(), "a worker thread uses memory that " + g->getName().str() + " points to without holding " + best->getName().str()); break; } } }
		}
	}
	// code outside the threads, while they run
	// (between pthread_create and the regular end of the loop that joins them all)
	auto reach = [&](const Instruction *a, const Instruction *b) { // b reachable from after a, in one function
		if (a->getFunction() != b->getFunction()) return false; set<const BasicBlock *> vis; std::deque<const BasicBlock *> q;
		if (a->getParent() == b->getParent() && a->comesBefore(b)) return true;
		for (auto *s : successors(a->getParent())) q.push_back(s);
		while (!q.empty()) { auto *x = q.front(); q.pop_front(); if (!vis.insert(x).second) continue; if (x == b->getParent()) return true; for (auto *s : successors(x)) q.push_back(s); } return false; };
	for (auto &F : *M) {
		if (F.isDeclaration()) continue; bool any = false; for (auto *c : creates) if (c->getFunction() == &F) any = true; if (!any) continue;
		DominatorTree dt(F); LoopInfo li(dt); vector<BasicBlockEdge> ends; 
		for (auto *j : joins) if (j->getFunction() == &F) { auto *l = li.getLoopFor(j->getParent());
			if (l) { auto *h = l->getHeader(), *t = l->getLoopLatch(); for (auto *x : {h, t}) if (x) for (auto *s : successors(x)) if (!l->contains(s)) ends.push_back(BasicBlockEdge(x, s)); } }
		for (auto &B : F) for (auto &I : B) {
			const Value *ptr = nullptr; if (auto *l = dyn_cast<LoadInst>(&I)) ptr = l->getPointerOperand(); else if (auto *s = dyn_cast<StoreInst>(&I)) ptr = s->getPointerOperand(); if (!ptr) continue;
			auto *g = global(ptr); if (!g || !W.count(g)) continue; nacc++;
			bool live = false; for (auto *c : creates) if (reach(c, &I)) live = true; if (!live) continue;
			bool joined = false; for (auto &e : ends) if (dt.dominates(e, &B)) joined = true; for (auto *j : joins) if (j->getFunction() == &F && !li.getLoopFor(j->getParent()) && dt.dominates(j, &I)) joined = true; if (joined) continue;
			bool held = !ats[&I].first.empty(); for (auto &l : ats[&I].first) if (l.empty()) held = false;
			if (!held) rep(&I, "unlocked", g->getName().str(), "reads or writes " + g->getName().str() + " while worker threads may still be running, without their mutex");
		}
	}
	for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *t = cb->getCalledFunction()) if (isLock(t->getName())) nlock++;
	J::Array en; for (auto *F : entries) en.push_back(F->getName().str()); J::Array gl; for (auto &p : W) gl.push_back(p.first->getName().str()); J::Array tf; for (auto *F : thrF) tf.push_back(F->getName().str());
	std::error_code ec; raw_fd_ostream O(argv[2], ec);
	O << J::Value(J::Object{{"entries", std::move(en)}, {"globals", std::move(gl)}, {"threadfns", std::move(tf)}, {"accesses", nacc}, {"lockops", nlock}, {"contexts", (int64_t) summ.size()}, {"reports", std::move(out)}}) << "\n"; return 0;
}
