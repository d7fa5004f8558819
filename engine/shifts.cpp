// shifts: a block moved within an array (memmove with source and destination in one array) ends where the array's elements end
//   shifts LIB.bc OUT.json
// Source offset + length, less the array's base, is written as a sum of terms; when it is one count times the element's size, nothing may be left over.
#include <set>
#include <vector>
#include "noret.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Constants.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::map; using std::set; using std::vector; using std::string;
namespace J = llvm::json;
static const DataLayout *DL;
static string loc(const Instruction *I) { if (auto &d = I->getDebugLoc()) return d->getFilename().str() + ":" + std::to_string(d.getLine()); return ""; }
static string uid(const Value *v) { char b[32]; snprintf(b, sizeof b, "%p", (const void *) v); return b; }
struct Lin { map<string, int64_t> t; int64_t c = 0; void add(const Lin &o, int64_t k) { for (auto &x : o.t) if ((t[x.first] += x.second * k) == 0) t.erase(x.first); c += o.c * k; } };
static map<string, const LoadInst *> loads; // an atom that is loaded
static Lin lin(const Value *v, int d = 0);
// where a pointer points, as text: the same place reached twice has the same text
static string place(const Value *p, int d = 0) {
	Lin l = lin(p, d); string s; for (auto &x : l.t) s += x.first + "*" + std::to_string(x.second) + "+"; return s + std::to_string(l.c);
}
static Lin atom(const string &k) { Lin l; l.t[k] = 1; return l; }
static Lin lin(const Value *v, int d) {
	Lin l; if (d > 24) return atom(uid(v));
	if (auto *c = dyn_cast<ConstantInt>(v)) { l.c = c->getSExtValue(); return l; }
	if (isa<CastInst>(v)) return lin(cast<CastInst>(v)->getOperand(0), d + 1);
	if (auto *b = dyn_cast<BinaryOperator>(v)) {
		auto *k = dyn_cast<ConstantInt>(b->getOperand(1)); auto *k0 = dyn_cast<ConstantInt>(b->getOperand(0));
		switch (b->getOpcode()) {
		case Instruction::Add: l = lin(b->getOperand(0), d + 1); l.add(lin(b->getOperand(1), d + 1), 1); return l;
		case Instruction::Sub: l = lin(b->getOperand(0), d + 1); l.add(lin(b->getOperand(1), d + 1), -1); return l;
		case Instruction::Mul: if (k) { l.add(lin(b->getOperand(0), d + 1), k->getSExtValue()); return l; } if (k0) { l.add(lin(b->getOperand(1), d + 1), k0->getSExtValue()); return l; } break;
		case Instruction::Shl: if (k && k->getZExtValue() < 32) { l.add(lin(b->getOperand(0), d + 1), 1LL << k->getZExtValue()); return l; } break;
		default: break; } return atom(uid(v)); }
	if (auto *g = dyn_cast<GEPOperator>(v)) {
		MapVector<Value *, APInt> vo; APInt co(64, 0); if (g->collectOffset(*DL, 64, vo, co)) { l = lin(g->getPointerOperand(), d + 1); for (auto &x : vo) l.add(lin(x.first, d + 1), x.second.getSExtValue()); l.c += co.getSExtValue(); return l; } return atom(uid(v)); }
	if (auto *ld = dyn_cast<LoadInst>(v)) { string k = "[" + place(ld->getPointerOperand(), d + 1) + "]"; loads[k] = ld; return atom(k); }
	if (auto *p = dyn_cast<PHINode>(v)) { if (p->getNumIncomingValues() == 1) return lin(p->getIncomingValue(0), d + 1); }
	return atom(uid(v));
}
// the pointer an element's address is counted from, and the size of an element
static const Value *baseOf(const Value *p, int64_t &sz) {
	for (int d = 0; d < 12; d++) { if (isa<CastInst>(p)) { p = cast<CastInst>(p)->getOperand(0); continue; }
		if (auto *g = dyn_cast<GEPOperator>(p)) { if (!isa<StructType>(g->getSourceElementType()) || g->getNumIndices() == 1 || !g->hasAllConstantIndices()) { auto *t = g->getResultElementType(); if (t->isSized() && !sz) sz = DL->getTypeAllocSize(t).getFixedValue(); } if (g->getNumIndices() > 1 && g->hasAllConstantIndices() && isa<StructType>(g->getSourceElementType())) return p; p = g->getPointerOperand(); continue; }
		return p; }
	return p;
}
int main(int, char **argv) {
	LLVMContext X; SMDiagnostic e; auto M = parseIRFile(argv[1], e, X); if (!M) { e.print("shifts", errs()); return 2; } DL = &M->getDataLayout();
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager CG; ModuleAnalysisManager MA;
	  PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA); }
	J::Array out; int64_t all = 0;
	for (auto &F : *M) { if (F.isDeclaration()) continue; DominatorTree dt(F);
		for (auto &B : F) for (auto &I : B) { auto *m = dyn_cast<MemMoveInst>(&I); if (!m) continue; all++;
			int64_t sz = 0, z2 = 0; auto *sb = baseOf(m->getRawSource(), sz), *db = baseOf(m->getRawDest(), z2); loads.clear();
			string st = "aside"; int64_t over = 0;
			if (place(sb) == place(db)) {
				Lin E = lin(m->getRawSource()); E.add(lin(m->getLength()), 1); E.add(lin(sb), -1); if (!sz) sz = z2;
				if (E.t.size() == 1 && E.t.begin()->second > 0 && (sz == 0 || E.t.begin()->second == sz)) {
					sz = E.t.begin()->second; auto i = loads.find(E.t.begin()->first); bool changed = false;
					if (E.c % sz == 0) { over = E.c / sz; st = over == 0 ? "exact" : "off"; }
					// the count may have been changed already, for the move that follows
					if (over && i != loads.end()) { string p = place(i->second->getPointerOperand()); for (auto &Y : F) for (auto &S : Y) if (auto *s = dyn_cast<StoreInst>(&S)) if (place(s->getPointerOperand()) == p && dt.dominates(s, m)) changed = true; }
					else if (over) changed = true;
					if (over && changed) st = "aside"; }
			} else st = "apart";
			out.push_back(J::Object{{"fn", F.getName().str()}, {"file", F.getSubprogram() ? F.getSubprogram()->getFilename().str() : ""}, {"where", loc(m)}, {"state", st}, {"over", over}}); } }
	// a fresh block stored in a member, and integers stored in the other members of the same object
	J::Array caps;
	for (auto &F : *M) { if (F.isDeclaration()) continue; DominatorTree dt(F); std::set<string> once;
		for (auto &B : F) for (auto &I : B) { auto *c = dyn_cast<CallBase>(&I); auto *f = c ? c->getCalledFunction() : nullptr; if (!f) continue; auto n = f->getName();
			int from = n == "f_malloc" || n == "f_calloc" ? 1 : n == "f_realloc" ? 2 : n == "realloc" ? 1 : n == "malloc" || n == "calloc" ? 0 : -1; if (from < 0 || (unsigned) from >= c->arg_size()) continue;
			loads.clear(); Lin L = lin(c->getArgOperand(from)); if (n.ends_with("calloc")) { Lin K = lin(c->getArgOperand(from + 1)); Lin P; if (K.t.empty()) P.add(L, K.c); else if (L.t.empty()) P.add(K, L.c); else continue; L = P; }
			std::set<const Value *> same{c}; for (int r = 0; r < 3; r++) for (auto &Y : F) for (auto &S : Y) if (auto *p = dyn_cast<PHINode>(&S)) { for (auto &o : p->incoming_values()) if (same.count(o.get())) same.insert(p); }
			for (auto &Y : F) for (auto &S : Y) { auto *s = dyn_cast<StoreInst>(&S); if (!s || !same.count(s->getValueOperand())) continue; auto *g = dyn_cast<GEPOperator>(s->getPointerOperand()); if (!g || !isa<StructType>(g->getSourceElementType()) || g->getNumIndices() < 2 || !g->hasAllConstantIndices()) continue;
				string obj = place(g->getPointerOperand()), sn = cast<StructType>(g->getSourceElementType())->getName().str(); auto fi = cast<ConstantInt>(g->getOperand(2))->getZExtValue();
				for (auto &Z : F) for (auto &T : Z) { auto *t = dyn_cast<StoreInst>(&T); if (!t || !t->getValueOperand()->getType()->isIntegerTy() || t->getValueOperand()->getType()->isIntegerTy(1)) continue; auto *h = dyn_cast<GEPOperator>(t->getPointerOperand()); if (!h || h->getSourceElementType() != g->getSourceElementType() || h->getNumIndices() != g->getNumIndices() || !h->hasAllConstantIndices() || place(h->getPointerOperand()) != obj) continue;
					if (!dt.dominates(c, t) && !dt.dominates(t, c)) continue;
					auto qi = cast<ConstantInt>(h->getOperand(2))->getZExtValue(); loads.clear(); Lin L2 = lin(c->getArgOperand(from)); string q = place(t->getPointerOperand()); bool reads = false; for (auto &l : loads) if (place(l.second->getPointerOperand()) == q) reads = true; if (reads && dt.dominates(t, c)) continue;
					Lin V = lin(t->getValueOperand()); if (V.t.empty() && V.c == 0) continue;
					int64_t k = 0; if (V.t.empty()) { if (L.t.empty() && V.c && L.c % V.c == 0) k = L.c / V.c; } else { auto v = V.t.begin(); auto l = L.t.find(v->first); if (l != L.t.end() && v->second && l->second % v->second == 0) k = l->second / v->second; }
					bool exact = false; if (k > 0) { Lin D = L; D.add(V, -k); exact = D.t.empty() && D.c == 0; }
					J::Object vt, lt; for (auto &x : V.t) vt[x.first] = x.second; for (auto &x : L.t) lt[x.first] = x.second;
					string key = loc(c) + loc(t); if (!once.insert(key).second) continue;
					caps.push_back(J::Object{{"fn", F.getName().str()}, {"file", F.getSubprogram() ? F.getSubprogram()->getFilename().str() : ""}, {"where", loc(t)}, {"alloc", loc(c)}, {"pair", sn + "." + std::to_string(fi) + "/" + std::to_string(qi)}, {"k", k}, {"exact", exact}, {"vc", V.c}, {"lc", L.c}, {"v", std::move(vt)}, {"l", std::move(lt)}}); } } } }
	std::error_code ec; raw_fd_ostream O(argv[2], ec); O << J::Value(J::Object{{"shifts", std::move(out)}, {"moves", all}, {"caps", std::move(caps)}}) << "\n"; return 0;
}
