// carry: on every successful path after an event, was there a call that carries each kind of metadata?
//   carry LIB.bc OUT.json SPEC
// SPEC: "op FUNC", "event FUNC" (call), "writer KIND FUNC ARG" (ARG: index of the state argument, or -1), "reader KIND FUNC"
#include <set>
#include <vector>
#include "noret.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <deque>
#include <fstream>
#include <sstream>
#include <functional>
using namespace llvm;
using std::map; using std::set; using std::vector; using std::string; using std::pair;
namespace J = llvm::json;
static Module *M; static set<string> events; static map<string, map<string, int>> writers; static map<string, set<string>> readers; static vector<string> ops; static set<string> okzero; static bool always = false;
static string loc(const Instruction *I) { if (auto &d = I->getDebugLoc()) return d->getFilename().str() + ":" + std::to_string(d.getLine()); return ""; }
static string fileOf(const Function *F) { return F->getSubprogram() ? F->getSubprogram()->getFilename().str() : ""; }
static const Function *callee(const CallBase *c) { return dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); }
// functions a call may run that are known at the call: the callee and functions passed to it
static vector<const Function *> targets(const CallBase *c) { vector<const Function *> v; if (auto *f = callee(c)) v.push_back(f); for (auto &a : c->args()) if (auto *f = dyn_cast<Function>(a->stripPointerCasts())) v.push_back(f); return v; }
static map<pair<const Function *, string>, bool> mayMemo; static set<pair<const Function *, string>> mayAct;
static bool mayWrite(const Function *F, const string &k, int depth = 0) {
	if (writers[k].count(F->getName().str())) return true; if (F->isDeclaration() || depth > 8) return false;
	auto key = std::make_pair(F, k); auto i = mayMemo.find(key); if (i != mayMemo.end()) return i->second; if (!mayAct.insert(key).second) return false;
	bool r = false; for (auto &B : *F) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) for (auto *t : targets(c)) if (!r && (t->hasLocalLinkage() || writers[k].count(t->getName().str())) && mayWrite(t, k, depth + 1)) r = true;
	mayAct.erase(key); return mayMemo[key] = r;
}
struct FA { DominatorTree dt; LoopInfo li; FA(Function &F) : dt(F), li(dt) {} };
static map<const Function *, FA *> fas; static FA &fa(const Function *F) { auto &f = fas[F]; if (!f) f = new FA(*const_cast<Function *>(F)); return *f; }
static bool carries(const Function *F, const string &k, int depth);
static bool isCarry(const Instruction *I, const string &k, int depth) {
	auto *c = dyn_cast<CallBase>(I); if (!c) return false;
	for (auto *t : targets(c)) { if (writers[k].count(t->getName().str())) return true;
		if (t->hasLocalLinkage() && mayWrite(t, k)) { if (carries(t, k, depth + 1)) return true; } }
	return false;
}
static bool readsKind(const Value *v, const string &k, int d = 0) {
	if (d > 6) return false; if (auto *c = dyn_cast<CallBase>(v)) { auto *f = callee(c); if (f && readers[k].count(f->getName().str())) return true; }
	if (auto *i = dyn_cast<Instruction>(v)) { if (isa<LoadInst>(i) || isa<AllocaInst>(i)) return false; for (auto &o : i->operands()) if (readsKind(o, k, d + 1)) return true; }
	return false;
}
// The function's return value as the path decides it: phis are followed as their blocks are entered, and branches that test a value leave what it was.
enum Z : char { U, ZERO, NZ };
struct Web { vector<const Value *> vals; map<const Value *, int> idx; map<pair<const Value *, int64_t>, int> cells; };
// a fixed place in a local variable
static bool cellOf(const Value *p, pair<const Value *, int64_t> &c) {
	const DataLayout &D = M->getDataLayout(); APInt off(D.getIndexTypeSizeInBits(p->getType()), 0); auto *b = p->stripAndAccumulateConstantOffsets(D, off, true); if (!isa<AllocaInst>(b)) return false; c = {b, off.getSExtValue()}; return true;
}
static const Value *tested(const Value *c, bool &trueIsNZ); static const Value *strip(const Value *v); static bool readsKind(const Value *v, const string &k, int d);
static Web webOf(const Function *F, const string &k) {
	Web w; std::deque<const Value *> q; auto add = [&](const Value *v) { if (isa<Constant>(v) || !w.idx.insert({v, (int) w.vals.size()}).second) return; w.vals.push_back(v); q.push_back(v); };
	for (auto &B : *F) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) if (r->getReturnValue()) add(r->getReturnValue());
	for (auto &B : *F) if (auto *br = dyn_cast<BranchInst>(B.getTerminator())) if (br->isConditional() && readsKind(br->getCondition(), k, 0)) { bool nz; add(strip(tested(br->getCondition(), nz))); }
	while (!q.empty() && w.vals.size() < 24) { auto *v = q.front(); q.pop_front(); if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) add(o.get()); else if (auto *z = dyn_cast<CastInst>(v)) add(z->getOperand(0)); }
	vector<const Value *> vs = w.vals; for (auto *v : vs) if (auto *l = dyn_cast<LoadInst>(v)) { pair<const Value *, int64_t> c; if (cellOf(l->getPointerOperand(), c) && !w.cells.count(c)) { w.cells[c] = w.vals.size(); w.vals.push_back(nullptr); } }
	return w;
}
static Z zOf(const Value *v, const Web &w, const vector<Z> &st) {
	if (auto *ci = dyn_cast<ConstantInt>(v)) return ci->isZero() || (ci->isMinusOne() && ci->getBitWidth() > 1) ? ZERO : NZ; if (isa<ConstantPointerNull>(v)) return ZERO; if (isa<UndefValue>(v)) return ZERO; if (isa<Constant>(v)) return NZ;
	if (auto *l = dyn_cast<LoadInst>(v)) { pair<const Value *, int64_t> c; if (cellOf(l->getPointerOperand(), c)) { auto j = w.cells.find(c); if (j != w.cells.end()) return st[j->second]; } }
	auto i = w.idx.find(v); if (i == w.idx.end()) return U; if (auto *c = dyn_cast<CastInst>(v)) { Z z = zOf(c->getOperand(0), w, st); if (z != U) return z; } return st[i->second];
}
// the value an icmp with zero (or -1) tests, and which side means "not zero"
static const Value *tested(const Value *c, bool &trueIsNZ) {
	trueIsNZ = true; for (int d = 0; d < 6; d++) {
		if (auto *z = dyn_cast<CastInst>(c)) { c = z->getOperand(0); continue; }
		if (auto *s = dyn_cast<SelectInst>(c)) { auto *t = dyn_cast<ConstantInt>(s->getTrueValue()), *f = dyn_cast<ConstantInt>(s->getFalseValue()); if (t && f && t->isZero() != f->isZero()) { if (t->isZero()) trueIsNZ = !trueIsNZ; c = s->getCondition(); continue; } }
		if (auto *i = dyn_cast<ICmpInst>(c)) { auto *k = dyn_cast<Constant>(i->getOperand(1)); auto p = i->getPredicate(); if (k && k->isNullValue() && (p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_SGT)) { c = i->getOperand(0); continue; } if (k && k->isOneValue() && (p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_SLT)) { trueIsNZ = !trueIsNZ; c = i->getOperand(0); continue; }
			if (!k || !(k->isNullValue() || k->isAllOnesValue()) || !i->isEquality()) return c; if (i->getPredicate() == ICmpInst::ICMP_EQ) trueIsNZ = !trueIsNZ; c = i->getOperand(0); continue; }
		if (auto *b = dyn_cast<BinaryOperator>(c)) if (b->getOpcode() == Instruction::Xor && isa<ConstantInt>(b->getOperand(1)) && cast<ConstantInt>(b->getOperand(1))->isOne()) { trueIsNZ = !trueIsNZ; c = b->getOperand(0); continue; }
		return c; }
	return c;
}
// a comparison with a constant that does not tell none from some
static bool constCmp(const Value *v) { auto *c = dyn_cast<CmpInst>(v); return c && (isa<Constant>(c->getOperand(0)) || isa<Constant>(c->getOperand(1))); }
static const Value *strip(const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; }
// the same question asked again
static bool sameCall(const Value *v, const Instruction *from) {
	auto *a = dyn_cast<CallBase>(v); auto *b = dyn_cast_or_null<CallBase>(from); if (!a || !b || a->arg_size() != b->arg_size() || a->getCalledOperand() != b->getCalledOperand()) return false;
	for (unsigned i = 0; i < a->arg_size(); i++) if (strip(a->getArgOperand(i)) != strip(b->getArgOperand(i))) return false;
	return true;
}
// is there a path from after `from` (or the entry) to a successful return that carries nothing of kind k? returns the return's location
static string uncarried(const Function *F, const Instruction *from, const string &k, int depth) {
	auto &a = fa(F); set<const Loop *> carryLoops; set<const Instruction *> carry;
	for (auto &B : *F) for (auto &I : B) if (isCarry(&I, k, depth)) { carry.insert(&I); for (auto *l = a.li.getLoopFor(&B); l; l = l->getParentLoop()) if (!from || !l->contains(from->getParent())) carryLoops.insert(l); }
	Web w = webOf(F, k); typedef pair<pair<const BasicBlock *, const BasicBlock *>, vector<Z>> St; set<St> vis; std::deque<St> q;
	set<const Value *> evArgs; if (auto *c = dyn_cast_or_null<CallBase>(from)) for (auto &o : c->args()) if (!isa<Constant>(o)) evArgs.insert(strip(o));
	map<const BasicBlock *, const BasicBlock *> parent;
	// 0 stop, 1 continue, 2 reached success
	auto scan = [&](const BasicBlock *b, const Instruction *start, vector<Z> &st) -> int {
		for (auto *l = a.li.getLoopFor(b); l; l = l->getParentLoop()) if (carryLoops.count(l)) return 0;
		for (const Instruction *I = start; I; I = I->getNextNode()) {
			if (carry.count(I)) return 0;
			if (auto *c = dyn_cast<CallBase>(I)) if (auto *f = callee(c)) if (f->doesNotReturn()) return 0;
			if (auto *c = dyn_cast<CallBase>(I)) if (!c->isLifetimeStartOrEnd()) for (auto &o : c->args()) for (auto &cl : w.cells) if (o->getType()->isPointerTy() && getUnderlyingObject(o.get()) == cl.first.first) st[cl.second] = U;
			if (auto *sr = dyn_cast<StoreInst>(I)) { pair<const Value *, int64_t> c; if (cellOf(sr->getPointerOperand(), c)) { auto j = w.cells.find(c); if (j != w.cells.end()) st[j->second] = zOf(sr->getValueOperand(), w, st); } }
			if (auto *br = dyn_cast<BranchInst>(I)) if (br->isConditional() && readsKind(br->getCondition(), k)) { bool nz; auto *v = tested(br->getCondition(), nz); if (isa<CmpInst>(v) && !constCmp(v)) return 0; }
			if (isa<UnreachableInst>(I)) return 0;
			if (auto *r = dyn_cast<ReturnInst>(I)) { if (!r->getReturnValue()) return 2; Z z = zOf(r->getReturnValue(), w, st); return okzero.count(F->getName().str()) ? (z == NZ ? 0 : 2) : (z == ZERO ? 0 : 2); }
		}
		return 1; };
	auto push = [&](const BasicBlock *b, vector<Z> st) {
		auto *t = b->getTerminator(); auto *br = dyn_cast<BranchInst>(t);
		for (unsigned si = 0; si < t->getNumSuccessors(); si++) {
			auto *s = t->getSuccessor(si); vector<Z> n = st;
			if (br && br->isConditional()) { bool nz; auto *v = tested(br->getCondition(), nz); bool isNZ = (si == 0) == nz; v = strip(v);
				if ((evArgs.count(v) || (!always && sameCall(v, from))) && !isNZ) continue;
				Z z = zOf(v, w, n); if ((z == NZ && !isNZ) || (z == ZERO && isNZ)) continue; if (!isNZ && z == U && readsKind(br->getCondition(), k) && !constCmp(v)) continue;
				auto i = w.idx.find(v); if (i != w.idx.end()) n[i->second] = isNZ ? NZ : ZERO;
				if (auto *l = dyn_cast<LoadInst>(v)) { pair<const Value *, int64_t> c; if (cellOf(l->getPointerOperand(), c)) { auto j = w.cells.find(c); if (j != w.cells.end()) n[j->second] = isNZ ? NZ : ZERO; } } }
			vector<Z> m = n; for (auto &p : s->phis()) { auto i = w.idx.find(&p); if (i != w.idx.end()) m[i->second] = zOf(p.getIncomingValueForBlock(b), w, n); }
			if (vis.size() < 200000 && vis.insert({{s, b}, m}).second) q.push_back({{s, b}, m}); } };
	vector<Z> st0(w.vals.size(), U); if (from) { auto i = w.idx.find(from); if (i != w.idx.end()) st0[i->second] = NZ; }
	const BasicBlock *b0 = from ? from->getParent() : &F->getEntryBlock(); int r = scan(b0, from ? from->getNextNode() : &b0->front(), st0); if (r == 2) return loc(b0->getTerminator()); if (r == 1) push(b0, st0);
	while (!q.empty()) { auto s = q.front(); q.pop_front(); auto *b = s.first.first, *p = s.first.second; vector<Z> cur = s.second; int r = scan(b, &b->front(), cur); if (r == 2) return loc(p->getTerminator()).empty() ? loc(b->getTerminator()) : loc(p->getTerminator()); if (r == 1) push(b, cur); }
	return "";
}
static map<pair<const Function *, string>, bool> carMemo; static set<pair<const Function *, string>> carAct;
static bool carries(const Function *F, const string &k, int depth) {
	if (depth > 6) return true; auto key = std::make_pair(F, k); auto i = carMemo.find(key); if (i != carMemo.end()) return i->second; if (!carAct.insert(key).second) return true;
	bool r = uncarried(F, nullptr, k, depth).empty(); carAct.erase(key); return carMemo[key] = r;
}
static int64_t nev = 0, nwr = 0;
struct Dirty { const Instruction *ev; string ret; };
// does this copy move struct fsm_state objects?
static bool ofStates(const CallBase *c) {
	const Value *v = c->getArgOperand(0); for (int d = 0; d < 8; d++) { v = strip(v);
		if (auto *g = dyn_cast<GetElementPtrInst>(v)) { auto *t = dyn_cast<StructType>(g->getSourceElementType()); if (t && t->hasName() && t->getName() == "struct.fsm_state" && g->getNumIndices() == 1) return true; v = g->getPointerOperand(); continue; }
		if (auto *l = dyn_cast<LoadInst>(v)) { auto *g = dyn_cast<GetElementPtrInst>(l->getPointerOperand()); if (!g) return false; auto *t = dyn_cast<StructType>(g->getSourceElementType()); if (!t || !t->hasName() || t->getName() != "struct.fsm" || g->getNumIndices() != 2) return false;
			auto *ci = dyn_cast<ConstantInt>(g->getOperand(2)); return ci && ci->isZero(); }
		return false; }
	return false;
}
static map<pair<const Function *, string>, vector<Dirty>> dirtyMemo; static set<pair<const Function *, string>> dirAct;
static vector<Dirty> dirty(const Function *F, const string &k, int depth = 0) {
	auto key = std::make_pair(F, k); auto i = dirtyMemo.find(key); if (i != dirtyMemo.end()) return i->second; if (depth > 6 || !dirAct.insert(key).second) return {};
	vector<Dirty> out;
	for (auto &B : *F) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) {
		auto *f = callee(c); if (!f) continue; bool ev = false; const Instruction *inner = nullptr; string n = f->getName().str(); if (f->isIntrinsic()) n = isa<MemTransferInst>(c) ? "memcpy" : "";
		if (events.count(n)) ev = n == "memcpy" ? ofStates(c) : !(c->arg_size() > 0 && isa<Constant>(c->getArgOperand(c->arg_size() - 1)) && cast<Constant>(c->getArgOperand(c->arg_size() - 1))->isNullValue());
		else for (auto *t : targets(c)) if (t->hasLocalLinkage() && !t->isDeclaration() && fileOf(t) == fileOf(F)) { auto d = dirty(t, k, depth + 1); if (!d.empty()) { ev = true; inner = d[0].ev; } }
		if (!ev) continue; nev++; 
		string r = uncarried(F, c, k, 0); if (!r.empty()) out.push_back({inner ? inner : c, r});
	}
	dirAct.erase(key); return dirtyMemo[key] = out;
}
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic e; auto Mp = parseIRFile(argv[1], e, X); if (!Mp) { e.print("carry", errs()); return 2; } M = Mp.get(); inferNoReturn(*M); inlineParts(*M);
	{ std::ifstream f(argv[3]); string l; while (std::getline(f, l)) { std::istringstream s(l); string k, a, b; int n = -1; s >> k >> a >> b >> n; if (k == "op") { ops.push_back(a); if (b == "okzero") okzero.insert(a); } else if (k == "event") { events.insert(a); if (b == "always") always = true; } else if (k == "writer") writers[a][b] = n; else if (k == "reader") readers[a].insert(b); } }
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA_; CGSCCAnalysisManager CG; ModuleAnalysisManager MA;
	  PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA_); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA_, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA_); }
	J::Array out, missing, args;
	for (auto &w : writers) for (auto &f : w.second) if (!M->getFunction(f.first)) missing.push_back(f.first);
	for (auto &o : ops) {
		auto *F = M->getFunction(o); if (!F || F->isDeclaration()) { missing.push_back(o); continue; }
		for (auto &w : writers) {
			int64_t before = nev; auto d = dirty(F, w.first);
			J::Array ds; for (auto &x : d) ds.push_back(J::Array{loc(x.ev), x.ev->getFunction()->getName().str(), x.ret});
			out.push_back(J::Object{{"op", o}, {"kind", w.first}, {"events", nev - before}, {"may", mayWrite(F, w.first)}, {"dirty", std::move(ds)}});
		}
		// where does the state given to each writer come from?
		set<const Function *> seen; std::deque<const Function *> q{F}; 
		while (!q.empty()) { auto *G = q.front(); q.pop_front(); if (!seen.insert(G).second) continue;
			for (auto &B : *G) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) {
				for (auto *t : targets(c)) if (t->hasLocalLinkage() && !t->isDeclaration() && fileOf(t) == fileOf(F)) q.push_back(t);
				auto *f = callee(c); if (!f) continue;
				for (auto &w : writers) { auto wi = w.second.find(f->getName().str()); if (wi == w.second.end() || wi->second < 0 || (unsigned) wi->second >= c->arg_size()) continue; nwr++;
					const Value *v = c->getArgOperand(wi->second); while (isa<CastInst>(v)) v = cast<CastInst>(v)->getOperand(0);
					string src = isa<Argument>(v) ? "param" : "other"; if (auto *l = dyn_cast<LoadInst>(v)) { auto *o = getUnderlyingObject(l->getPointerOperand()); if (isa<AllocaInst>(o) && o == l->getPointerOperand()) for (auto *u : o->users()) if (auto *uc = dyn_cast<CallBase>(u)) if (auto *uf = callee(uc)) if (readers[w.first].count(uf->getName().str())) src = "read"; } args.push_back(J::Object{{"op", o}, {"kind", w.first}, {"fn", G->getName().str()}, {"cb", G->hasAddressTaken() && G != F}, {"src", src}, {"where", loc(c)}, {"argno", isa<Argument>(v) ? (int64_t) cast<Argument>(v)->getArgNo() : -1}}); } } }
	}
	// a state number held from before a removal, which may renumber that state, and stored or returned after it without a comparison
	J::Array held; int64_t removals = 0;
	if (auto *RS = M->getFunction("fsm_removestate")) for (auto &F : *M) if (!F.isDeclaration() && &F != RS) for (auto &B : F) for (auto &I : B) {
		auto *c = dyn_cast<CallBase>(&I); if (!c || callee(c) != RS || c->arg_size() < 2) continue; removals++; auto &a = fa(&F);
		set<const BasicBlock *> after; std::deque<const BasicBlock *> q; for (auto *n : successors(&B)) if (after.insert(n).second) q.push_back(n);
		while (!q.empty()) { auto *x = q.front(); q.pop_front(); for (auto *n : successors(x)) if (after.insert(n).second) q.push_back(n); }
		auto later = [&](const Instruction *x) { if (x->getParent() == &B) { for (auto *y = I.getNextNode(); y; y = y->getNextNode()) if (y == x) return true; return after.count(&B) > 0; } return after.count(x->getParent()) > 0; };
		auto *ty = c->getArgOperand(1)->getType();
		for (auto &Y : F) for (auto &J_ : Y) { const Value *v = nullptr; if (auto *st = dyn_cast<StoreInst>(&J_)) v = st->getValueOperand(); else if (auto *r = dyn_cast<ReturnInst>(&J_)) v = r->getReturnValue();
			if (!v || v->getType() != ty || isa<Constant>(v) || isa<CallBase>(v) || strip(v) == strip(c->getArgOperand(1)) || !later(&J_)) continue; auto *vi = dyn_cast<Instruction>(v); if (!isa<Argument>(v) && !(vi && a.dt.dominates(vi, &I))) continue;
			bool cmp = false; for (auto *u : v->users()) { if (auto *k = dyn_cast<ICmpInst>(u)) cmp |= later(k); if (isa<CastInst>(u)) for (auto *uu : u->users()) if (auto *k = dyn_cast<ICmpInst>(uu)) cmp |= later(k); }
			if (!cmp) held.push_back(J::Object{{"fn", F.getName().str()}, {"where", loc(&J_)}, {"removal", loc(c)}}); } }
	std::error_code ec; raw_fd_ostream O(argv[2], ec);
	O << J::Value(J::Object{{"ops", std::move(out)}, {"missing", std::move(missing)}, {"args", std::move(args)}, {"held", std::move(held)}, {"removals", removals}, {"events", nev}, {"writes", nwr}}) << "\n"; return 0;
}
