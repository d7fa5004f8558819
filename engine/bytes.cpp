// bytes: where do sign-extended bytes go?   bytes MODULE.bc OUT.json EXEMPT
// A value is "signed byte" if it comes from widening an 8-bit value with its sign (and the original is a plain char: lines listed in EXEMPT,
// "file:line", are 8-bit numbers by design). The property follows such values through SSA, calls and returns and reports uses that depend on the
// bits above the low eight, unless the value is known to be 0..127 there.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Analysis/ValueTracking.h"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <fstream>
#include <deque>
using namespace llvm;
using std::map; using std::set; using std::vector; using std::string;
namespace J = llvm::json;

static set<string> exempt; static const DataLayout *DL;
static string base(StringRef p) { return p.str(); }
static string loc(const Instruction *I) { if (auto &d = I->getDebugLoc()) return d->getFilename().str() + ":" + std::to_string(d.getLine()); return ""; }
static string fnOf(const Instruction *I) {
	if (auto *l = I->getDebugLoc().get()) if (auto *s = dyn_cast_or_null<DILocalScope>(l->getScope())) if (auto *sp = s->getSubprogram()) return sp->getName().str();
	return I->getFunction()->getName().str();
}
static const set<string> okExt = {"strchr", "strrchr", "memchr", "memset", "fputc", "putc", "putchar", "_IO_putc", "memrchr", "ungetc", "putchar_unlocked", "fputc_unlocked", "putc_unlocked"};
static const set<string> ctype = {"isalnum", "isalpha", "isblank", "iscntrl", "isdigit", "isgraph", "islower", "isprint", "ispunct", "isspace", "isupper", "isxdigit", "toupper", "tolower", "isascii", "toascii"};
static bool signedVar(const Instruction *I) { return exempt.count(loc(I)); }

// the narrow value a chain of extensions and truncations starts from
static const Value *root(const Value *v) { for (;;) { if (auto *c = dyn_cast<CastInst>(v)) { if (isa<SExtInst>(c) || isa<ZExtInst>(c) || isa<TruncInst>(c)) { v = c->getOperand(0); continue; } } if (auto *f = dyn_cast<FreezeInst>(v)) { v = f->getOperand(0); continue; } return v; } }
static bool samev(const Value *a, const Value *b) {
	a = root(a); b = root(b); if (a == b) return true;
	auto *la = dyn_cast<LoadInst>(a), *lb = dyn_cast<LoadInst>(b);
	if (la && lb) {
		const Value *p = la->getPointerOperand(), *q = lb->getPointerOperand(); if (p == q) return true;
		auto *ga = dyn_cast<GetElementPtrInst>(p), *gb = dyn_cast<GetElementPtrInst>(q);
		if (ga && gb && ga->getNumOperands() == gb->getNumOperands() && ga->getSourceElementType() == gb->getSourceElementType()) { for (unsigned i = 0; i < ga->getNumOperands(); i++) if (root(ga->getOperand(i)) != root(gb->getOperand(i))) return false; return true; }
		return false;
	}
	return false;
}
// does the truth (want) of cond imply that v, an 8-bit quantity, is 0..127 ?
static bool implies(const Value *cond, bool want, const Value *v, int depth = 0) {
	if (depth > 6) return false;
	if (auto *c = dyn_cast<ICmpInst>(cond)) {
		auto p = want ? c->getPredicate() : c->getInversePredicate(); const Value *a = c->getOperand(0), *b = c->getOperand(1);
		if (isa<ConstantInt>(a)) { std::swap(a, b); p = ICmpInst::getSwappedPredicate(p); }
		auto *k = dyn_cast<ConstantInt>(b); if (!k) return false;
		// (x & m) with a table lookup: a ctype test on the same byte implies ASCII in the C locale only for its unsigned conversion
		if (auto *bo = dyn_cast<BinaryOperator>(a)) if (p == ICmpInst::ICMP_NE && k->isZero() && bo->getOpcode() == Instruction::And) {
			const Value *t = bo->getOperand(0); while (auto *z = dyn_cast<CastInst>(t)) t = z->getOperand(0);
			if (auto *l = dyn_cast<LoadInst>(t)) if (auto *g = dyn_cast<GetElementPtrInst>(l->getPointerOperand())) return samev(g->getOperand(g->getNumOperands() - 1), v);
		}
		if (auto *cb = dyn_cast<CallBase>(a)) if (p == ICmpInst::ICMP_NE && k->isZero() && cb->getCalledFunction() && ctype.count(cb->getCalledFunction()->getName().str())) return samev(cb->getArgOperand(0), v);
		const Value *x = a; int64_t off = 0;
		if (auto *bo = dyn_cast<BinaryOperator>(a)) if (auto *kk = dyn_cast<ConstantInt>(bo->getOperand(1))) { if (bo->getOpcode() == Instruction::Sub) { x = bo->getOperand(0); off = kk->getSExtValue(); } else if (bo->getOpcode() == Instruction::Add) { x = bo->getOperand(0); off = -kk->getSExtValue(); } }
		if (!samev(x, v)) return false;
		int64_t s = k->getSExtValue() ; 
		switch (p) {
		case ICmpInst::ICMP_EQ: return s + off >= 0 && s + off <= 127;
		case ICmpInst::ICMP_SGT: return s + off >= -1;
		case ICmpInst::ICMP_SGE: return s + off >= 0;
		case ICmpInst::ICMP_ULT: return s > 0 && off >= 0 && s + off <= 128;
		case ICmpInst::ICMP_ULE: return s >= 0 && off >= 0 && s + off <= 127;
		default: return false;
		}
	}
	if (auto *bo = dyn_cast<BinaryOperator>(cond)) { if (bo->getType()->isIntegerTy(1)) { if (bo->getOpcode() == Instruction::And && want) return implies(bo->getOperand(0), true, v, depth + 1) || implies(bo->getOperand(1), true, v, depth + 1); if (bo->getOpcode() == Instruction::Xor) return implies(bo->getOperand(0), !want, v, depth + 1); } }
	if (auto *ph = dyn_cast<PHINode>(cond)) {   // a && b: phi(false, b)
		bool any = false;
		for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
			const Value *x = ph->getIncomingValue(i);
			if (auto *k = dyn_cast<ConstantInt>(x)) { if (k->isOne() != want) continue; 
				// reached by this edge: the branch of the predecessor decides
				auto *br = dyn_cast<BranchInst>(ph->getIncomingBlock(i)->getTerminator()); if (br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1) && implies(br->getCondition(), br->getSuccessor(0) == ph->getParent(), v, depth + 1)) { any = true; continue; }
				return false; }
			any = true;
			if (implies(x, want, v, depth + 1)) continue;
			// or the block computing x is itself guarded
			const BasicBlock *b = ph->getIncomingBlock(i); bool g = false;
			for (int n = 0; b && n < 4 && !g; n++) { auto *pr = b->getSinglePredecessor(); if (!pr) break; if (auto *br = dyn_cast<BranchInst>(pr->getTerminator())) if (br->isConditional() && implies(br->getCondition(), br->getSuccessor(0) == b, v, depth + 1)) g = true; b = pr; }
			if (!g) return false;
		}
		return any;
	}
	if (auto *f = dyn_cast<FreezeInst>(cond)) return implies(f->getOperand(0), want, v, depth + 1);
	return false;
}
static map<const Function *, DominatorTree *> DTs;
static DominatorTree &DT(const Function *F) { auto &d = DTs[F]; if (!d) d = new DominatorTree(const_cast<Function &>(*F)); return *d; }
static bool domGuard(const BasicBlock *at, const Value *v) {
	auto &dt = DT(at->getParent());
	for (auto &b : *at->getParent()) {
		if (auto *br = dyn_cast<BranchInst>(b.getTerminator())) {
			if (!br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) continue;
			for (int i = 0; i < 2; i++) { BasicBlockEdge e(&b, br->getSuccessor(i)); if (dt.dominates(e, at) && implies(br->getCondition(), i == 0, v)) return true; }
		} else if (auto *sw = dyn_cast<SwitchInst>(b.getTerminator())) {
			if (!samev(sw->getCondition(), v)) continue;
			for (auto &c : sw->cases()) {
				int n = 0; bool pos = true; for (auto &c2 : sw->cases()) if (c2.getCaseSuccessor() == c.getCaseSuccessor()) { n++; auto k = c2.getCaseValue()->getSExtValue(); if (k < 0 || k > 127) pos = false; }
				if (!pos || sw->getDefaultDest() == c.getCaseSuccessor()) continue;
				if (c.getCaseSuccessor() == at || dt.dominates(c.getCaseSuccessor(), at)) { bool only = true; for (auto *pp : predecessors(c.getCaseSuccessor())) if (pp != &b) only = false; if (only) return true; }
			}
		}
	}
	return false;
}
// guarded at a use: by domination, for phis by the incoming block
static bool guarded(const Value *v, const Instruction *user, const Use *u) {
	const BasicBlock *at = user->getParent();
	if (auto *ph = dyn_cast<PHINode>(user)) { at = ph->getIncomingBlock(*u); auto *br = dyn_cast<BranchInst>(at->getTerminator()); if (br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1) && implies(br->getCondition(), br->getSuccessor(0) == ph->getParent(), v)) return true; }
	return domGuard(at, v);
}
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic e; auto M = parseIRFile(argv[1], e, X); if (!M) { e.print("bytes", errs()); return 2; } DL = &M->getDataLayout();
	{ std::ifstream f(argv[3]); string l; while (std::getline(f, l)) exempt.insert(l); }
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager CG; ModuleAnalysisManager MA;
	  PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); FP.addPass(EarlyCSEPass(true)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA); }
	set<const Value *> T; std::deque<const Value *> wl; map<const Value *, const Instruction *> from;
	int64_t nsrc = 0, nuse = 0;
	auto add = [&](const Value *v, const Instruction *src) { if (T.insert(v).second) { from[v] = src; wl.push_back(v); } };
	for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (auto *s = dyn_cast<SExtInst>(&I)) if (s->getSrcTy()->isIntegerTy(8) && !signedVar(&I)) {
		// a value formed from an unsigned quantity known small is not a byte of input
		nsrc++; add(s, s);
	}
	J::Array out; set<string> seen; map<string, int64_t> kinds;
	auto rep = [&](const Instruction *I, const Value *v, string kind, string detail) {
		auto *src = from[v]; string k = loc(I) + kind + detail; if (!seen.insert(k).second) return;
		out.push_back(J::Object{{"where", loc(I)}, {"fn", fnOf(I)}, {"kind", kind}, {"detail", detail}, {"src", src ? loc(src) : ""}});
	};
	set<const Function *> retT;
	while (!wl.empty()) {
		const Value *v = wl.front(); wl.pop_front(); auto *src = from[v];
		for (auto &u : v->uses()) {
			auto *I = dyn_cast<Instruction>(u.getUser()); if (!I) continue; nuse++;
			if (isa<DbgInfoIntrinsic>(I)) continue;
			if (isa<TruncInst>(I)) { if (I->getType()->getIntegerBitWidth() > 8) add(I, src); continue; }
			bool g = guarded(v, I, &u);
			if (g) continue;
			if (isa<SExtInst>(I) || isa<ZExtInst>(I) || isa<FreezeInst>(I) || isa<SelectInst>(I) || isa<PHINode>(I)) {
				if (auto *s = dyn_cast<SelectInst>(I)) if (s->getCondition() == v) continue;
				add(I, src); continue; }
			if (isa<GetElementPtrInst>(I)) { if (u.getOperandNo() == 0) continue; rep(I, v, "index", ""); continue; }
			if (auto *c = dyn_cast<ICmpInst>(I)) {
				const Value *o = c->getOperand(u.getOperandNo() ? 0 : 1);
				if (T.count(o)) { if (c->isRelational()) { auto *r1 = root(v); (void) r1; rep(I, v, "order", "two signed bytes"); } continue; }
				if (auto *k = dyn_cast<ConstantInt>(o)) {
					int64_t n = k->getSExtValue();
					if (c->isEquality()) { if (n > 127) rep(I, v, "compare", "with " + std::to_string(n)); else if (n < 0 && n >= -1) rep(I, v, "compare", "with -1, which is also byte 0xFF"); continue; }
					auto p = u.getOperandNo() ? c->getSwappedPredicate() : c->getPredicate();
					if (p == ICmpInst::ICMP_SGT || p == ICmpInst::ICMP_SGE) { if (n >= 127 + (p == ICmpInst::ICMP_SGE)) rep(I, v, "compare", "with " + std::to_string(n)); else {
							// lower bound: fine on its own only if bytes above 0x7F are meant to be out
						} continue; }
					if (p == ICmpInst::ICMP_SLT || p == ICmpInst::ICMP_SLE) {
						if (n <= 0) { continue; }
						// c < 0x20 || ...: bytes above 0x7F are taken for control characters
						if (n > 127) { rep(I, v, "compare", "with " + std::to_string(n)); continue; }
						rep(I, v, "compare", "below " + std::to_string(n)); continue;
					}
					rep(I, v, "compare", "unsigned"); continue;
				}
				// against a widened unsigned byte, or a value of another origin
				if (auto *z = dyn_cast<ZExtInst>(o)) if (z->getSrcTy()->isIntegerTy(8)) { rep(I, v, "compare", "with an unsigned byte"); continue; }
				rep(I, v, "compare", "with a wider value"); continue;
			}
			if (auto *sw = dyn_cast<SwitchInst>(I)) { for (auto &c : sw->cases()) { int64_t n = c.getCaseValue()->getSExtValue(); if (n > 127) rep(I, v, "compare", "case " + std::to_string(n)); } continue; }
			if (auto *bo = dyn_cast<BinaryOperator>(I)) {
				const Value *o = bo->getOperand(u.getOperandNo() ? 0 : 1); auto *k = dyn_cast<ConstantInt>(o);
				switch (bo->getOpcode()) {
				case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: rep(I, v, "shift", ""); continue;
				case Instruction::And: if (k && k->getValue().isNonNegative() && k->getSExtValue() <= 255) continue; if (k) add(I, src); else if (auto *z = dyn_cast<ZExtInst>(o)) { if (z->getSrcTy()->isIntegerTy(8)) continue; } continue;
				case Instruction::Add: case Instruction::Sub: if (k) add(I, src); continue;
				case Instruction::Or: { // assembling a wider value from bytes
					if (!k) { auto *oi = dyn_cast<BinaryOperator>(o); if (oi && oi->getOpcode() == Instruction::Shl) rep(I, v, "assemble", ""); } else add(I, src); continue; }
				case Instruction::URem: case Instruction::SRem: case Instruction::UDiv: case Instruction::SDiv: rep(I, v, "divide", ""); continue;
				default: continue;
				}
			}
			if (auto *st = dyn_cast<StoreInst>(I)) {
				if (u.getOperandNo() != 0) continue;
				rep(I, v, "store", "to " + std::to_string(v->getType()->getIntegerBitWidth()) + " bits"); continue;
			}
			if (auto *r = dyn_cast<ReturnInst>(I)) {
				auto *F = r->getFunction(); bool taken = F->hasAddressTaken();
				if (taken) rep(I, v, "return", "through a function pointer");
				if (retT.insert(F).second) for (auto *fu : F->users()) if (auto *cb = dyn_cast<CallBase>(fu)) if (cb->getCalledOperand() == F) add(cb, src);
				if (!taken && F->hasExternalLinkage() && F->use_empty()) rep(I, v, "return", "to the caller of a public function");
				continue;
			}
			if (auto *cb = dyn_cast<CallBase>(I)) {
				if (!cb->isArgOperand(&u)) { continue; }
				unsigned n = cb->getArgOperandNo(&u); auto *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
				if (F && F->isIntrinsic()) continue;
				if (!F) { if (cb->isInlineAsm()) continue; rep(I, v, "argument", "of a call through a pointer"); continue; }
				string fn = F->getName().str();
				if (!F->isDeclaration()) { if (n < F->arg_size()) add(F->getArg(n), src); continue; }
				if (okExt.count(fn)) continue;
				if (ctype.count(fn)) { rep(I, v, "ctype", fn); continue; }
				static const map<string, int> fmt = {{"printf", 0}, {"fprintf", 1}, {"sprintf", 1}, {"snprintf", 2}, {"dprintf", 1}, {"__fprintf_chk", 2}};
				auto fi = fmt.find(fn);
				if (fi != fmt.end()) {
					StringRef s; if (cb->arg_size() > (unsigned) fi->second && getConstantStringInfo(cb->getArgOperand(fi->second), s)) {
						unsigned a = fi->second + 1; bool bad = false; string conv = "?";
						for (size_t i = 0; i < s.size(); i++) { if (s[i] != '%') continue; i++; if (i < s.size() && s[i] == '%') continue;
							while (i < s.size() && !isalpha((unsigned char) s[i])) { if (s[i] == '*') { if (a == n) { bad = true; conv = "*"; } a++; } i++; }
							string len; while (i < s.size() && strchr("hlLqjzt", s[i])) len += s[i++];
							if (i >= s.size()) break; if (a == n) { conv = string(1, s[i]); bad = !(s[i] == 'c' || len == "hh"); } a++; }
						if (bad) rep(I, v, "format", "%" + conv);
						continue;
					}
					rep(I, v, "format", "unknown"); continue;
				}
				rep(I, v, "argument", "of " + fn); continue;
			}
		}
	}
	std::error_code ec; raw_fd_ostream O(argv[2], ec);
	O << J::Value(J::Object{{"sources", nsrc}, {"uses", nuse}, {"reports", std::move(out)}}) << "\n"; return 0;
}
