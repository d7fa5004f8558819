// layout: do the readers of bytecode take each field from the bits its writer put it in?   layout OUT.json MODULE.bc...
// Bit provenance: every integer is a vector of bits, each a constant, a bit of a source value, or unknown. A writer builds an instruction word from
// sources shifted and or-ed together; a reader takes words apart. Nothing is executed: the bits are followed through SSA.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <functional>
using namespace llvm;
using std::map; using std::set; using std::vector; using std::string;
namespace J = llvm::json;

static const DataLayout *DL;
static string loc(const Instruction *I) { if (auto &d = I->getDebugLoc()) return d->getFilename().str() + ":" + std::to_string(d.getLine()); return ""; }
static J::Array reports, fieldsOut; static map<string, int> counts;
static void report(const string &fn, const string &key, const Instruction *at, const string &text) {
	static set<string> seen; if (!seen.insert(fn + key + text).second) return;
	reports.push_back(J::Object{{"fn", fn}, {"key", key}, {"where", loc(at)}, {"text", text}});
}

struct Bit { int k = 3; const Value *v = nullptr; int b = 0; bool operator==(const Bit &o) const { return k == o.k && (k != 2 || (v == o.v && b == o.b)); } };
typedef vector<Bit> BV;
static BV kst(unsigned w, uint64_t n) { BV r(w); for (unsigned i = 0; i < w; i++) r[i].k = i < 64 ? (n >> i) & 1 : 0; return r; }

struct Eval {
	std::function<bool(const Value *)> src; std::function<int(const Value *)> width;   // what is a source; how many of its bits may be set
	bool leaves = false;                                                              // take anything not understood for a source
	bool overlap = false; int overlapBit = 0; map<const Value *, BV> memo; set<const Value *> busy;
	BV source(const Value *V, unsigned w) { BV r(w); int n = width ? width(V) : w; for (unsigned i = 0; i < w; i++) { if ((int) i < n) { r[i].k = 2; r[i].v = V; r[i].b = i; } else r[i].k = 0; } return r; }
	BV operator()(const Value *V) {
		unsigned w = V->getType()->isIntegerTy() ? V->getType()->getIntegerBitWidth() : 0; if (!w || w > 128) return BV();
		auto it = memo.find(V); if (it != memo.end()) return it->second;
		if (auto *c = dyn_cast<ConstantInt>(V)) return kst(w, c->getValue().getLimitedValue() & (w >= 64 ? ~0ULL : (1ULL << w) - 1));
		if (!busy.insert(V).second) return BV(w);
		BV r = calc(V, w); busy.erase(V); return memo[V] = r;
	}
	BV calc(const Value *V, unsigned w) {
		if (src && src(V)) return source(V, w);
		BV top(w);
		if (auto *c = dyn_cast<CastInst>(V)) {
			if (!c->getOperand(0)->getType()->isIntegerTy()) return leaves ? source(V, w) : top;
			BV a = (*this)(c->getOperand(0)); if (a.empty()) return leaves ? source(V, w) : top;
			if (isa<TruncInst>(c)) { auto *x = c->getOperand(0); if (leaves && (isa<LoadInst>(x) || isa<PHINode>(x) || isa<SelectInst>(x) || isa<Argument>(x))) return source(V, w); a.resize(w); return a; }
			if (isa<ZExtInst>(c)) { Bit z; z.k = 0; a.resize(w, z); return a; }
			if (isa<SExtInst>(c)) { Bit s = a.back(); a.resize(w, s); return a; }
		}
		if (auto *f = dyn_cast<FreezeInst>(V)) return (*this)(f->getOperand(0));
		if (auto *o = dyn_cast<BinaryOperator>(V)) {
			BV a = (*this)(o->getOperand(0)), b = (*this)(o->getOperand(1)); unsigned op = o->getOpcode(); auto *kc = dyn_cast<ConstantInt>(o->getOperand(1));
			Bit z; z.k = 0;
			if ((op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) && kc && kc->getZExtValue() < w) {
				unsigned n = kc->getZExtValue(); BV r(w);
				for (unsigned i = 0; i < w; i++) r[i] = op == Instruction::Shl ? (i < n ? z : a[i - n]) : (i + n < w ? a[i + n] : op == Instruction::AShr ? a[w - 1] : z);
				return r;
			}
			if ((op == Instruction::Mul || op == Instruction::UDiv || op == Instruction::URem) && kc && kc->getValue().isPowerOf2()) {
				unsigned n = kc->getValue().logBase2(); BV r(w);
				for (unsigned i = 0; i < w; i++) r[i] = op == Instruction::Mul ? (i < n ? z : a[i - n]) : op == Instruction::UDiv ? (i + n < w ? a[i + n] : z) : i < n ? a[i] : z;
				return r;
			}
			if ((op == Instruction::SDiv || op == Instruction::SRem) && kc && kc->getValue().isPowerOf2() && a[w - 1].k == 0) {      // never negative
				unsigned n = kc->getValue().logBase2(); BV r(w);
				for (unsigned i = 0; i < w; i++) r[i] = op == Instruction::SDiv ? (i + n < w ? a[i + n] : z) : i < n ? a[i] : z;
				return r;
			}
			if (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Add) {
				BV r(w); bool ok = true;
				for (unsigned i = 0; i < w; i++) {
					Bit x = a[i], y = b[i]; if (x.k < 2) std::swap(x, y);      // y is a constant if either is
					if (op == Instruction::And) { r[i] = y.k == 0 ? z : y.k == 1 ? x : x == y ? x : Bit(); }
					else if (y.k == 0) r[i] = x;
					else if (x.k == 0) r[i] = y;
					else if (op == Instruction::Or && y.k == 1) r[i].k = 1;
					else if (op == Instruction::Or && x == y && x.k == 2) r[i] = x;
					else { if (op == Instruction::Add) { ok = false; break; } if (op == Instruction::Or && x.k == 2 && y.k == 2) { overlap = true; overlapBit = i; } r[i] = Bit(); }
				}
				if (ok) return r;
			}
		}
		if (auto *p = dyn_cast<PHINode>(V)) { if (!leaves) { BV r; for (auto &x : p->incoming_values()) { if (x.get() == p) continue; BV a = (*this)(x); if (r.empty()) r = a; else if (r != a) return top; } return r.empty() ? top : r; } }
		return leaves ? source(V, w) : top;
	}
};

// ---- structure members by name, through the debug information
struct Mod {
	Module *M; map<string, const DICompositeType *> types;
	Mod(Module *m) : M(m) { DebugInfoFinder f; f.processModule(*m); for (auto *t : f.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (!c->getName().empty() && c->getElements().size()) types[(c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "") + c->getName().str()] = c; }
	int member(const string &st, const string &mem) {
		auto *t = types.count(st) ? types[st] : nullptr; auto *T = StructType::getTypeByName(M->getContext(), "struct." + st); if (!t || !T) return -1;
		for (auto *e : t->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) if (d->getName() == mem) return DL->getStructLayout(T)->getElementContainingOffset(d->getOffsetInBits() / 8);
		return -1;
	}
	bool isMember(const Value *P, const string &st, int idx) { auto *g = dyn_cast<GEPOperator>(P); if (!g || idx < 0 || g->getNumIndices() != 2) return false; auto *T = dyn_cast<StructType>(g->getSourceElementType()); if (!T || T->isLiteral() || T->getName() != "struct." + st) return false; auto *k = dyn_cast<ConstantInt>(g->getOperand(2)); return k && (int) k->getZExtValue() == idx; }
	map<string, int64_t> enumOf(const string &n) { map<string, int64_t> r; auto it = types.find("enum " + n); if (it != types.end()) for (auto *e : it->second->getElements()) if (auto *d = dyn_cast<DIEnumerator>(e)) r[d->getName().str()] = d->getValue().getSExtValue(); return r; }
};

// an index as a root and an offset
static std::pair<const Value *, int64_t> addr(const Value *V) {
	int64_t k = 0;
	for (;;) {
		if (auto *c = dyn_cast<CastInst>(V)) { if (isa<ZExtInst>(c) || isa<SExtInst>(c)) { V = c->getOperand(0); continue; } }
		if (auto *o = dyn_cast<BinaryOperator>(V)) { if (auto *c = dyn_cast<ConstantInt>(o->getOperand(1))) { if (o->getOpcode() == Instruction::Add) { k += c->getSExtValue(); V = o->getOperand(0); continue; } if (o->getOpcode() == Instruction::Sub) { k -= c->getSExtValue(); V = o->getOperand(0); continue; } } }
		break;
	}
	return {isa<ConstantInt>(V) ? nullptr : V, isa<ConstantInt>(V) ? k + cast<ConstantInt>(V)->getSExtValue() : k};
}

// the comparison a branch is taken by, whether its first successor is taken where that holds: through values kept for a while, and their tests
static const ICmpInst *cond(const Value *V, bool &yes) {
	yes = true;
	for (int i = 0; i < 16; i++) {
		if (auto *c = dyn_cast<CastInst>(V)) { V = c->getOperand(0); continue; }
		if (auto *f = dyn_cast<FreezeInst>(V)) { V = f->getOperand(0); continue; }
		if (auto *o = dyn_cast<BinaryOperator>(V)) if (o->getOpcode() == Instruction::Xor && o->getType()->isIntegerTy(1)) if (auto *k = dyn_cast<ConstantInt>(o->getOperand(1))) { if (k->isOne()) yes = !yes; V = o->getOperand(0); continue; }
		auto *c = dyn_cast<ICmpInst>(V); if (!c) return nullptr;
		auto *k = dyn_cast<ConstantInt>(c->getOperand(1)); if (c->isEquality() && k && k->isZero()) { const Value *x = c->getOperand(0); while (auto *t = dyn_cast<CastInst>(x)) x = t->getOperand(0);
			if (auto *s = dyn_cast<SelectInst>(x)) { auto *a = dyn_cast<ConstantInt>(s->getTrueValue()), *b = dyn_cast<ConstantInt>(s->getFalseValue()); if (a && b && a->isZero() != b->isZero()) { if (c->getPredicate() == CmpInst::ICMP_EQ) yes = !yes; if (a->isZero()) yes = !yes; V = s->getCondition(); continue; } } }
		auto *z = dyn_cast<CastInst>(c->getOperand(0));
		auto *in = z; while (in) { if (in->getOperand(0)->getType()->isIntegerTy(1)) break; in = dyn_cast<CastInst>(in->getOperand(0)); }
		if (c->isEquality() && k && k->isZero() && in) { if (c->getPredicate() == CmpInst::ICMP_EQ) yes = !yes; V = in->getOperand(0); continue; }
		return c;
	}
	return nullptr;
}

static int64_t maxOf(const Value *V, const BasicBlock *at, const DominatorTree &DT, set<const Value *> &busy) {
	unsigned w = V->getType()->getIntegerBitWidth(); int64_t full = w >= 63 ? INT64_MAX : (1LL << w) - 1, best = full;
	if (auto *c = dyn_cast<ConstantInt>(V)) return c->getValue().getLimitedValue(INT64_MAX);
	if (!busy.insert(V).second) return 0;
	if (auto *z = dyn_cast<ZExtInst>(V)) best = maxOf(z->getOperand(0), at, DT, busy);
	else if (auto *t = dyn_cast<TruncInst>(V)) best = std::min(best, maxOf(t->getOperand(0), at, DT, busy));
	else if (auto *p = dyn_cast<PHINode>(V)) { best = 0; for (auto &x : p->incoming_values()) if (!isa<UndefValue>(x)) best = std::max(best, maxOf(x, at, DT, busy)); }
	else if (auto *s = dyn_cast<SelectInst>(V)) best = std::max(maxOf(s->getTrueValue(), at, DT, busy), maxOf(s->getFalseValue(), at, DT, busy));
	else if (auto *o = dyn_cast<BinaryOperator>(V)) { if (o->getOpcode() == Instruction::And) if (auto *c = dyn_cast<ConstantInt>(o->getOperand(1))) best = std::min<int64_t>(best, c->getZExtValue()); }
	busy.erase(V);
	// what a test that has been passed says
	vector<const Value *> as{V}; for (auto *u : V->users()) if (isa<ZExtInst>(u) || isa<SExtInst>(u)) as.push_back(u);
	for (auto *a : as) for (auto *u : a->users()) if (auto *c = dyn_cast<ICmpInst>(u)) {
		auto *k = dyn_cast<ConstantInt>(c->getOperand(1)); if (!k || c->getOperand(0) != a) continue; int64_t n = k->getSExtValue();
		for (auto &BB : *at->getParent()) if (auto *br = dyn_cast<BranchInst>(BB.getTerminator())) for (int s = 0; s < 2; s++) {
			bool yes; if (!br->isConditional() || cond(br->getCondition(), yes) != c) break;
			auto pr = (s == 0) == yes ? c->getPredicate() : c->getInversePredicate(); int64_t m = full;
			if (pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_SLE) m = n; else if (pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_SLT) m = n - 1; else if (pr == CmpInst::ICMP_EQ) m = n; else continue;
			if (m >= 0 && br->getSuccessor(0) != br->getSuccessor(1) && DT.dominates(BasicBlockEdge(br->getParent(), br->getSuccessor(s)), at)) best = std::min(best, m);
		}
	}
	return best;
}
static int widthOf(int64_t m) { int w = 0; while (w < 63 && (m >> w)) w++; return w; }

struct Field { int lo, w; const Value *v; string role; set<int64_t> consts; };
static void constsOf(const Value *V, set<int64_t> &out, bool &all, set<const Value *> &seen) {
	if (!seen.insert(V).second) return;
	if (auto *c = dyn_cast<ConstantInt>(V)) { out.insert(c->getSExtValue()); return; }
	if (isa<UndefValue>(V)) return;
	if (auto *p = dyn_cast<PHINode>(V)) { for (auto &x : p->incoming_values()) constsOf(x, out, all, seen); return; }
	if (auto *s = dyn_cast<SelectInst>(V)) { constsOf(s->getTrueValue(), out, all, seen); constsOf(s->getFalseValue(), out, all, seen); return; }
	if (auto *c = dyn_cast<CastInst>(V)) if (c->getOperand(0)->getType()->isIntegerTy() && !c->getOperand(0)->getType()->isIntegerTy(1)) { constsOf(c->getOperand(0), out, all, seen); return; }
	all = false;
}
static bool reachesMember(Mod &m, const Value *V, const string &st, int idx, set<const Value *> &seen) {
	if (!seen.insert(V).second) return false;
	if (auto *l = dyn_cast<LoadInst>(V)) return m.isMember(l->getPointerOperand(), st, idx);
	if (auto *c = dyn_cast<CastInst>(V)) return reachesMember(m, c->getOperand(0), st, idx, seen);
	if (auto *p = dyn_cast<PHINode>(V)) { for (auto &x : p->incoming_values()) if (reachesMember(m, x, st, idx, seen)) return true; }
	if (auto *s = dyn_cast<SelectInst>(V)) return reachesMember(m, s->getTrueValue(), st, idx, seen) || reachesMember(m, s->getFalseValue(), st, idx, seen);
	return false;
}

// the constants a value is known to equal, or not to equal, on reaching B: edges of switches and branches above it, by single predecessors
template <class F> static void above(const BasicBlock *B, const DominatorTree &DT, F f) {
	auto *n = DT.getNode(const_cast<BasicBlock *>(B));
	for (; n && n->getIDom(); n = n->getIDom()) {
		auto *d = n->getIDom()->getBlock(); auto *t = d->getTerminator();
		if (auto *s = dyn_cast<SwitchInst>(t)) {
			set<int64_t> ks, all; bool hit = false;
			for (auto &c : s->cases()) { all.insert(c.getCaseValue()->getSExtValue()); if (DT.dominates(c.getCaseSuccessor(), B) && c.getCaseSuccessor() != s->getDefaultDest()) { ks.insert(c.getCaseValue()->getSExtValue()); hit = true; } }
			if (hit) f(s->getCondition(), ks, true); else if (DT.dominates(s->getDefaultDest(), B) && s->getDefaultDest()->getSinglePredecessor()) f(s->getCondition(), all, false);
		} else if (auto *b = dyn_cast<BranchInst>(t)) if (b->isConditional()) { bool yes; if (auto *c = cond(b->getCondition(), yes)) if (auto *k = dyn_cast<ConstantInt>(c->getOperand(1))) if (c->isEquality()) for (int s = 0; s < 2; s++)
			if (b->getSuccessor(0) != b->getSuccessor(1) && DT.dominates(BasicBlockEdge(d, b->getSuccessor(s)), B)) f(c->getOperand(0), set<int64_t>{k->getSExtValue()}, (c->getPredicate() == CmpInst::ICMP_EQ) == ((s == 0) == yes)); }
	}
}

// what the tests passed on the way to a block say of a value: the least and the greatest it can be
static bool number(const Value *V, int64_t &n) {
	if (auto *c = dyn_cast<ConstantInt>(V)) { n = c->getSExtValue(); return true; }
	if (auto *c = dyn_cast<CastInst>(V)) return number(c->getOperand(0), n);
	if (auto *l = dyn_cast<LoadInst>(V)) if (auto *g = dyn_cast<GlobalVariable>(l->getPointerOperand())) if (g->isConstant() && g->hasInitializer()) return number(g->getInitializer(), n);
	return false;
}
static void bounds(std::function<bool(const Value *)> is, const Function &F, const BasicBlock *at, const DominatorTree &DT, int64_t &lo, int64_t &hi) {
	lo = INT64_MIN; hi = INT64_MAX;
	for (auto &B : F) for (auto &I : B) if (auto *c = dyn_cast<ICmpInst>(&I)) {
		auto *x = c->getOperand(0), *y = c->getOperand(1); auto pr = c->getPredicate(); int64_t n; if (number(x, n)) { std::swap(x, y); pr = c->getSwappedPredicate(); } if (!number(y, n)) continue;
		const Value *v = x; while (auto *k = dyn_cast<CastInst>(v)) { if (isa<TruncInst>(k) || is(v)) break; v = k->getOperand(0); } if (!is(v)) continue;
		for (auto &BB : F) if (auto *b = dyn_cast<BranchInst>(BB.getTerminator())) for (int s = 0; s < 2; s++) {
			bool yes; if (!b->isConditional() || cond(b->getCondition(), yes) != c) break;
			if (b->getSuccessor(0) == b->getSuccessor(1) || !DT.dominates(BasicBlockEdge(b->getParent(), b->getSuccessor(s)), at)) continue;
			auto q = (s == 0) == yes ? pr : CmpInst::getInversePredicate(pr);
			switch (q) { case CmpInst::ICMP_SLE: hi = std::min(hi, n); break; case CmpInst::ICMP_SLT: hi = std::min(hi, n - 1); break; case CmpInst::ICMP_SGE: lo = std::max(lo, n); break; case CmpInst::ICMP_SGT: lo = std::max(lo, n + 1); break;
			case CmpInst::ICMP_ULE: hi = std::min(hi, n); lo = std::max<int64_t>(lo, 0); break; case CmpInst::ICMP_ULT: hi = std::min(hi, n - 1); lo = std::max<int64_t>(lo, 0); break; default: break; }
		}
	}
}
static int offsetIn(Mod &m, const string &st, const vector<string> &path) {
	const DIType *t = m.types.count(st) ? m.types[st] : nullptr; int off = 0;
	for (auto &p : path) {
		while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) t = d->getBaseType(); auto *c = dyn_cast_or_null<DICompositeType>(t); if (!c) return -1; const DIDerivedType *f = nullptr;
		for (auto *e : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) if (d->getName() == p) f = d; if (!f) return -1; off += f->getOffsetInBits() / 8; t = f->getBaseType();
	}
	return off;
}
static bool isAt(const Value *P, const string &st, int off) {
	if (off < 0) return false; int64_t o = 0; const Value *q = P; string base;
	while (auto *g = dyn_cast<GEPOperator>(q)) { APInt k(64, 0); if (!g->accumulateConstantOffset(*DL, k)) return false; o += k.getSExtValue(); auto *T = dyn_cast<StructType>(g->getSourceElementType()); base = T && !T->isLiteral() && T->hasName() ? T->getName().str() : ""; q = g->getPointerOperand(); if (base == "struct." + st) break; }
	return base == "struct." + st && o == off;
}
static map<int64_t, int> destSize; static bool sizesKnown;

struct Layout { string ver; unsigned bits = 0; vector<Field> fields; map<int64_t, int> sizes; const Function *fn = nullptr; bool done = false; };
static string range(int lo, int w) { return w == 1 ? "bit " + std::to_string(lo) : "bits " + std::to_string(lo) + " to " + std::to_string(lo + w - 1); }

static void writer(Mod &m, Function &F, const string &ver, int ops, Layout &L) {
	DominatorTree DT(F); set<const Value *> enc;
	for (auto &B : F) for (auto &I : B) if (auto *s = dyn_cast<StoreInst>(&I)) if (m.isMember(s->getPointerOperand(), "dfavm_" + ver, ops) && !isa<Constant>(s->getValueOperand())) enc.insert(s->getValueOperand());
	if (enc.empty()) return;
	auto into = [&](const Value *p) { if (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand(); if (enc.count(p)) return true; if (auto *l = dyn_cast<LoadInst>(p)) return m.isMember(l->getPointerOperand(), "dfavm_" + ver, ops); return false; };
	vector<const StoreInst *> words; const Value *buf = nullptr;
	for (auto &B : F) for (auto &I : B) {
		if (auto *s = dyn_cast<StoreInst>(&I)) { if (s->getValueOperand()->getType()->isIntegerTy() && into(s->getPointerOperand())) words.push_back(s); }
		if (auto *c = dyn_cast<MemTransferInst>(&I)) if (into(c->getRawDest())) buf = c->getRawSource()->stripPointerCasts();
	}
	vector<const StoreInst *> parts;
	if (buf && isa<AllocaInst>(buf)) for (auto &B : F) for (auto &I : B) if (auto *s = dyn_cast<StoreInst>(&I)) {
		auto *p = s->getPointerOperand(); if (p == buf) { words.push_back(s); continue; }
		if (auto *g = dyn_cast<GEPOperator>(p)) if (g->getPointerOperand() == buf) { auto *k = dyn_cast<ConstantInt>(g->getOperand(g->getNumOperands() - 1)); if (k && k->isZero()) words.push_back(s); else if (!k) parts.push_back(s); }
	}
	int cmpIdx = m.member("dfavm_vm_op", "cmp");
	for (auto *s : words) {
		auto *at = s->getParent(); Eval ev; ev.leaves = true; ev.width = [&](const Value *V) { set<const Value *> b; return widthOf(maxOf(V, at, DT, b)); };
		BV bv = ev(s->getValueOperand()); if (bv.empty() || L.done) continue;
		int n = 0; for (auto &b : bv) if (b.k == 2) n++;
		set<const Value *> srcs; for (auto &b : bv) if (b.k == 2) srcs.insert(b.v);
		if (ev.overlap) { report(F.getName().str(), "overlap", s, "two fields of the instruction are put in the same place, at bit " + std::to_string(ev.overlapBit)); return; }
		if (srcs.size() < 3) continue;
		L.ver = ver; L.bits = bv.size(); L.fn = &F; L.done = true;
		for (unsigned i = 0; i < bv.size(); i++) if (bv[i].k == 2) {
			if (!L.fields.empty() && L.fields.back().v == bv[i].v && L.fields.back().lo + L.fields.back().w == (int) i) L.fields.back().w++;
			else L.fields.push_back({(int) i, 1, bv[i].v, "", {}});
		}
		for (auto &f : L.fields) { set<const Value *> a, b; bool all = true; constsOf(f.v, f.consts, all, a); if (all) f.role = "operation?"; else f.consts.clear(); if (reachesMember(m, f.v, "dfavm_vm_op", cmpIdx, b)) f.role = "comparison"; 
			// a field of fewer bits than what was put in it
			int full = ev.width(f.v), have = 0; for (auto &g : L.fields) if (g.v == f.v) have += g.w; if (have < full) report(F.getName().str(), "lost|" + std::to_string(f.lo), s, "a field of " + std::to_string(full) + " bits is put in " + range(f.lo, f.w)); }
		for (int i = L.fields.size() - 1, got = 0; i >= 0; i--) if (L.fields[i].role == "operation?") { L.fields[i].role = got++ ? "" : "operation"; }
		// a number cut down to its field is in the range of it
		for (auto &f : L.fields) {
			std::function<void(const Value *, const BasicBlock *, set<const Value *> &)> go = [&](const Value *V, const BasicBlock *b, set<const Value *> &seen) {
				if (!seen.insert(V).second) return;
				if (auto *ph = dyn_cast<PHINode>(V)) { for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) go(ph->getIncomingValue(i), ph->getIncomingBlock(i), seen); return; }
				auto *t = dyn_cast<TruncInst>(V); if (!t) return; auto *x = t->getOperand(0); int w = V->getType()->getIntegerBitWidth(); if (w != 16) return;
				auto *o = dyn_cast<BinaryOperator>(x); bool sg = o && o->getOpcode() == Instruction::Sub; int64_t lo, hi; bounds([&](const Value *y) { return y == x; }, F, b, DT, lo, hi); counts["numbers cut down to a field"]++;
				if (sg && (lo < -(1LL << (w - 1)) || hi > (1LL << (w - 1)) - 1)) report(F.getName().str(), "cut|" + std::to_string(f.lo), t, "a relative destination is cut down to " + std::to_string(w) + " bits without being known to fit");
			};
			set<const Value *> seen; go(f.v, s->getParent(), seen);
		}
		int dOff = offsetIn(m, "dfavm_vm_op", {"u", "br", "dest"});
		for (auto *p : parts) { int bytes = p->getValueOperand()->getType()->getIntegerBitWidth() / 8; above(p->getParent(), DT, [&](const Value *V, set<int64_t> k, bool eq) { auto *l = dyn_cast<LoadInst>(V); if (eq && l && isAt(l->getPointerOperand(), "dfavm_vm_op", dOff)) for (auto x : k) destSize[x] += bytes; }); }
		// the size of what follows, by the value of the lowest field
		for (auto *p : parts) {
			int bytes = p->getValueOperand()->getType()->getIntegerBitWidth() / 8;
			for (auto &f : L.fields) if (f.lo == 0) {
				// phi inputs that are constants, from blocks the store dominates
				std::function<void(const Value *, set<const Value *> &)> go = [&](const Value *V, set<const Value *> &seen) { if (!seen.insert(V).second) return; if (auto *ph = dyn_cast<PHINode>(V)) for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { auto *x = ph->getIncomingValue(i); if (auto *c = dyn_cast<ConstantInt>(x)) { if (DT.dominates(p->getParent(), ph->getIncomingBlock(i))) L.sizes[c->getSExtValue()] += bytes; } else go(x, seen); } };
				set<const Value *> seen; go(f.v, seen);
			}
		}
		for (auto &f : L.fields) fieldsOut.push_back(J::Object{{"ver", ver}, {"fn", F.getName().str()}, {"lo", f.lo}, {"w", f.w}, {"role", f.role}, {"where", loc(s)}});
	}
}

static void reader(Mod &m, Function &F, const string &ver, int ops, const Layout &L) {
	DominatorTree DT(F); vector<const LoadInst *> loads; string fn = F.getName().str();
	set<const Value *> roots;
	for (auto &B : F) for (auto &I : B) if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) if (auto *v = d->getVariable()) if (v->getArg() && v->getName() == "ops") if (auto *a = d->getVariableLocationOp(0)) if (isa<Argument>(a) && fn.find(ver) != string::npos) roots.insert(a);
	for (auto &B : F) for (auto &I : B) if (auto *l = dyn_cast<LoadInst>(&I)) if (l->getType()->isIntegerTy()) {
		const Value *p = l->getPointerOperand(); if (auto *g = dyn_cast<GEPOperator>(p)) if (g->getNumIndices() == 1) p = g->getPointerOperand();
		bool is = roots.count(p); if (auto *q = dyn_cast<LoadInst>(p)) is |= m.isMember(q->getPointerOperand(), "dfavm_" + ver, ops);
		if (is) loads.push_back(l);
	}
	if (loads.empty()) return;
	const LoadInst *W = nullptr; for (auto *l : loads) { bool all = true; for (auto *k : loads) if (k != l && !DT.dominates(l, k)) all = false; if (all) W = l; }
	if (!W || W->getType()->getIntegerBitWidth() != L.bits) { counts["readers not understood"]++; return; }
	counts["readers"]++;
	set<const Value *> S(loads.begin(), loads.end()); Eval ev; ev.src = [&](const Value *V) { return S.count(V) > 0; };
	set<int> written; for (auto &f : L.fields) for (int i = 0; i < f.w; i++) written.insert(f.lo + i);
	auto bitsOf = [&](const Value *V, set<int> &b) { bool ok = true; BV v = ev(V); for (auto &x : v) { if (x.k == 3) ok = false; if (x.k == 2) { if (x.v != W) ok = false; else if (written.count(x.b)) b.insert(x.b); } } return ok && !b.empty(); };
	auto fieldOf = [&](const Value *V) -> const Field * { set<int> b; if (!V->getType()->isIntegerTy() || V->getType()->isIntegerTy(1) || !bitsOf(V, b)) return nullptr; for (auto &f : L.fields) if (*b.begin() == f.lo && (int) b.size() == f.w && *b.rbegin() == f.lo + f.w - 1) return &f; return nullptr; };
	map<int, bool> part, full; map<int, const Instruction *> partAt;
	map<string, set<int64_t>> named; map<string, int> tests; map<string, bool> sw; map<string, const Instruction *> at;
	for (auto &B : F) for (auto &I : B) {
		set<int> bs; if (!I.getType()->isIntegerTy() || I.getType()->isIntegerTy(1) || !bitsOf(&I, bs)) continue;
		for (auto *u : I.users()) {
			auto *U = dyn_cast<Instruction>(u); if (!U || isa<DbgInfoIntrinsic>(U)) continue;
			set<int> more; if (U->getType()->isIntegerTy() && !U->getType()->isIntegerTy(1) && bitsOf(U, more)) continue;
			if (bs == written && (isa<CallBase>(U) || isa<StoreInst>(U) || isa<PHINode>(U))) { counts["words passed on whole"]++; continue; }
			if (auto *o = dyn_cast<BinaryOperator>(U)) if ((o->getOpcode() == Instruction::And || o->getOpcode() == Instruction::LShr || o->getOpcode() == Instruction::AShr || o->getOpcode() == Instruction::UDiv || o->getOpcode() == Instruction::URem) && isa<ConstantInt>(o->getOperand(1))) continue;  // nothing left of the word
			if (isa<TruncInst>(U)) continue;
			counts["uses of fields"]++;
			int lo = *bs.begin(), hi = *bs.rbegin(); const Field *f = nullptr; for (auto &g : L.fields) if (g.lo <= lo && lo < g.lo + g.w) f = &g;
			bool contiguous = hi - lo + 1 == (int) bs.size();
			// in the value, the field's bits stand in their order, the lowest first, wherever they start
			BV v = ev(&I); int base = -1000; bool order = true; for (int i = 0; i < (int) v.size(); i++) if (v[i].k == 2) { if (base == -1000) base = v[i].b - i; else if (v[i].b - i != base && !(i > 0 && v[i] == v[i - 1])) order = false; }
			bool inplace = base == 0 && lo > 0;
			if (!f || !contiguous || !order || lo != f->lo || hi > f->lo + f->w - 1)
				report(fn, "field|" + std::to_string(lo) + "-" + std::to_string(hi), U, "what is taken from " + range(lo, hi - lo + 1) + " of the instruction is not a field: the writer, " + L.fn->getName().str() + ", has " + (f ? "one at " + range(f->lo, f->w) : "none there"));
			else if (base != f->lo && !(inplace && isa<ICmpInst>(U)))
				report(fn, "place|" + std::to_string(lo), U, "the field at " + range(f->lo, f->w) + " is used without being moved to where its value counts");
			else if (bs.size() < (size_t) f->w) { part[f->lo] = true; if (!partAt.count(f->lo)) partAt[f->lo] = U; }
			else full[f->lo] = true;
			if (f) {
				// signed where it is added, unsigned where it is an index
				bool sx = false; for (int i = 1; i < (int) v.size(); i++) if (v[i].k == 2 && v[i] == v[i - 1]) sx = true;
				if (isa<GetElementPtrInst>(U) && sx) report(fn, "index|" + std::to_string(lo), U, "an index is taken from the instruction with a sign, though the writer counts up from 0");
				if (auto *o = dyn_cast<BinaryOperator>(U)) if (o->getOpcode() == Instruction::Add && L.bits == 32 && f->w == 16 && !sx && v.size() > 16) report(fn, "relative|" + std::to_string(lo), U, "a relative destination is taken from the instruction without its sign");
				if (!f->role.empty()) {
					if (!at.count(f->role)) at[f->role] = U;
					if (auto *s = dyn_cast<SwitchInst>(U)) { sw[f->role] = true; tests[f->role]++; for (auto &c : s->cases()) named[f->role].insert(c.getCaseValue()->getSExtValue()); }
					else if (auto *c = dyn_cast<ICmpInst>(U)) { if (auto *k = dyn_cast<ConstantInt>(c->getOperand(1))) { tests[f->role]++; named[f->role].insert(k->getSExtValue()); } }
				}
			}
		}
	}
	for (auto &p : part) if (!full.count(p.first)) for (auto &f : L.fields) if (f.lo == p.first) report(fn, "part|" + std::to_string(f.lo), partAt[f.lo], "the field at " + range(f.lo, f.w) + " of the instruction is only ever read in part");
	auto en = m.enumOf("dfavm_op_cmp");
	for (auto &f : L.fields) if (!f.role.empty() && named[f.role].size() >= 2) {
		set<int64_t> want = f.consts; if (f.role == "comparison") { want.clear(); for (auto &e : en) want.insert(e.second); }
		string missing; int n = 0; for (auto k : want) if (!named[f.role].count(k)) { n++; string nm = std::to_string(k); if (f.role == "comparison") for (auto &e : en) if (e.second == k) nm = e.first; missing += (n > 1 ? ", " : "") + nm; }
		counts["sets of operations and comparisons compared"]++;
		if (n > (sw[f.role] ? 0 : 1)) report(fn, f.role + "|" + missing, at[f.role], "no case for the " + f.role + " " + missing + ", which " + L.fn->getName().str() + " can write");
	}
	// the meaning of each comparison: the byte at hand against the argument in the instruction
	map<string, CmpInst::Predicate> mean{{"VM_CMP_LT", CmpInst::ICMP_SLT}, {"VM_CMP_LE", CmpInst::ICMP_SLE}, {"VM_CMP_GE", CmpInst::ICMP_SGE}, {"VM_CMP_GT", CmpInst::ICMP_SGT}, {"VM_CMP_EQ", CmpInst::ICMP_EQ}, {"VM_CMP_NE", CmpInst::ICMP_NE}};
	auto fromArg = [&](const Value *V) { BV v = ev(V); bool any = false; for (auto &x : v) { if (x.k == 3) return false; if (x.k == 2) any = true; } return any && v.size() > 1; };
	for (auto &B : F) for (auto &I : B) if (auto *c = dyn_cast<ICmpInst>(&I)) {
		auto *x = c->getOperand(0), *y = c->getOperand(1); if (!x->getType()->isIntegerTy() || isa<ConstantInt>(x) || isa<ConstantInt>(y)) continue;
		bool fx = fromArg(x), fy = fromArg(y); if (fx == fy) continue;
		auto pr = fx ? c->getSwappedPredicate() : c->getPredicate(); if (CmpInst::isUnsigned(pr)) pr = ICmpInst::getSignedPredicate(pr);
		set<int64_t> ks; bool found = false; above(&B, DT, [&](const Value *V, set<int64_t> k, bool eq) { if (found || !eq) return; auto *f = fieldOf(V); if (f && f->role == "comparison") { ks = k; found = true; } });
		if (!found || ks.size() != 1) continue;
		for (auto &e : en) if (e.second == *ks.begin() && mean.count(e.first)) { counts["comparisons judged"]++; if (mean[e.first] != pr) report(fn, "meaning|" + e.first, c, "under " + e.first + " the byte and the argument are compared by " + CmpInst::getPredicateName(pr).str()); }
	}
	// what follows the word: how many bytes, in what order, with what sign
	if (L.sizes.empty()) return;
	for (auto &B : F) for (auto &I : B) {
		if (!I.getType()->isIntegerTy() || I.getType()->getIntegerBitWidth() < 32) continue;
		// the largest value made of operand bytes alone: not part of a larger one
		BV v = ev(&I); set<const Value *> in; bool ok = !v.empty(); for (auto &x : v) { if (x.k == 3) ok = false; if (x.k == 2) in.insert(x.v); } if (!ok || in.empty() || in.count(W)) continue;
		bool last = true; for (auto *u : I.users()) if (auto *U = dyn_cast<Instruction>(u)) if (U->getType()->isIntegerTy() && !U->getType()->isIntegerTy(1)) { BV w = ev(U); bool o2 = !w.empty(); bool some = false; for (auto &x : w) { if (x.k == 3) o2 = false; if (x.k == 2) some = true; } if (o2 && some) last = false; }
		if (!last) continue;
		set<int64_t> is, isnt; above(&B, DT, [&](const Value *V, set<int64_t> k, bool eq) { auto *f = fieldOf(V); if (!f || f->lo != 0) return; if (eq) is.insert(k.begin(), k.end()); else isnt.insert(k.begin(), k.end()); });
		if (is.empty()) { if (isnt.empty()) continue; for (auto &s : L.sizes) if (!isnt.count(s.first)) is.insert(s.first); }
		if (is.size() != 1 || !L.sizes.count(*is.begin())) continue;
		int n = L.sizes.at(*is.begin()); counts["destinations read"]++;
		// an argument of a comparison is one byte without sign, and is not a destination: only the values that reach a phi, a sign test or an addition
		bool dest = false; for (auto *u : I.users()) if (isa<PHINode>(u) || isa<BinaryOperator>(u)) dest = true; if (!dest) continue;
		const Value *root = nullptr; int64_t base = 0; bool good = true; string why;
		for (int i = 0; i < n && good; i++) for (int b = 0; b < 8; b++) {
			if (i * 8 + b >= (int) v.size()) { good = false; break; }
			auto &x = v[i * 8 + b]; if (x.k == 2 && x.v->getType()->getIntegerBitWidth() == (unsigned) n * 8 && x.b == i * 8 + b && (i == 0 || x.v == v[0].v)) continue;      // all of it at once
			if (x.k != 2 || x.b != b) { good = false; why = "byte " + std::to_string(i) + " of the destination does not come from byte " + std::to_string(i) + " after the instruction"; break; }
			auto *l = cast<LoadInst>(x.v); auto *g = dyn_cast<GEPOperator>(l->getPointerOperand()); auto a = g ? addr(g->getOperand(1)) : std::pair<const Value *, int64_t>{nullptr, 0};
			if (i == 0) { root = a.first; base = a.second; } else if (a.first != root || a.second != base + i) { good = false; why = "byte " + std::to_string(i) + " of the destination is read from the wrong place"; break; }
		}
		if (good) for (int i = n * 8; i < (int) v.size(); i++) if (!(v[i] == v[n * 8 - 1])) { good = false; why = v[i].k == 2 ? "the writer gives " + std::to_string(n) + " bytes to the destination, and more are read" : "a relative destination of " + std::to_string(n) + " bytes is read without its sign"; break; }
		if (!good) report(fn, "operand|" + std::to_string(*is.begin()), &I, why.empty() ? "the writer gives " + std::to_string(n) + " bytes to the destination, and fewer are read" : why);
		else counts["destinations judged"]++;
	}
	// the length of what follows, as a power of two of the field
	for (auto &B : F) for (auto &I : B) if (auto *o = dyn_cast<BinaryOperator>(&I)) if (o->getOpcode() == Instruction::Shl) if (auto *k = dyn_cast<ConstantInt>(o->getOperand(0))) { auto *f = fieldOf(o->getOperand(1)); if (f && f->lo == 0) for (auto &s : L.sizes) if ((k->getSExtValue() << s.first) != s.second) report(fn, "skip|" + std::to_string(s.first), &I, "a branch not taken skips " + std::to_string(k->getSExtValue() << s.first) + " bytes of destination, and the writer gives it " + std::to_string(s.second)); }
}

// the size chosen for a destination: large enough for it, and counted as what the encoder writes
static void chooser(Mod &m, Function &F) {
	int dOff = offsetIn(m, "dfavm_vm_op", {"u", "br", "dest"}), rOff = offsetIn(m, "dfavm_vm_op", {"u", "br", "rel_dest"}); if (dOff < 0 || destSize.empty()) return; DominatorTree DT(F);
	for (auto &B : F) for (auto &I : B) if (auto *s = dyn_cast<StoreInst>(&I)) {
		auto *k = dyn_cast<ConstantInt>(s->getValueOperand()); if (!k || !isAt(s->getPointerOperand(), "dfavm_vm_op", dOff) || !destSize.count(k->getSExtValue())) continue;
		int n = destSize[k->getSExtValue()]; int64_t lo, hi; counts["sizes chosen for a destination"]++;
		bounds([&](const Value *y) { auto *l = dyn_cast<LoadInst>(y); return l && isAt(l->getPointerOperand(), "dfavm_vm_op", rOff); }, F, &B, DT, lo, hi);
		if (n < 4 && (lo < -(1LL << (n * 8 - 1)) || hi > (1LL << (n * 8 - 1)) - 1)) report(F.getName().str(), "fits|" + std::to_string(k->getSExtValue()), s, "a destination is given " + std::to_string(n) + " bytes without being known to fit");
		for (auto &J : B) if (auto *o = dyn_cast<BinaryOperator>(&J)) if (o->getOpcode() == Instruction::Add) if (auto *c = dyn_cast<ConstantInt>(o->getOperand(1))) if (c->getSExtValue() != n) report(F.getName().str(), "count|" + std::to_string(k->getSExtValue()), o, "a destination of " + std::to_string(n) + " bytes is counted as " + std::to_string(c->getSExtValue()));
	}
}

// ---- comparisons written out: the operator under each of them, and its inverse
static string scope(const Instruction *I) { if (auto *l = I->getDebugLoc().get()) if (auto *s = dyn_cast_or_null<DILocalScope>(l->getScope())) if (auto *sp = s->getSubprogram()) return sp->getName().str(); return I->getFunction()->getName().str(); }
static bool text(const Value *V, string &s) { V = V->stripPointerCasts(); auto *g = dyn_cast<GlobalVariable>(V); if (!g || !g->hasInitializer()) return false; auto *a = dyn_cast<ConstantDataArray>(g->getInitializer()); if (isa<ConstantAggregateZero>(g->getInitializer())) { s = ""; return true; } if (!a || !a->isCString()) return false; s = a->getAsCString().str(); return true; }
static const map<string, set<string>> OPER{{"VM_CMP_LT", {"<", "lt", "&lt;", "-lt", "oplt", "ult", "jb"}}, {"VM_CMP_LE", {"<=", "le", "&le;", "-le", "ople", "ule", "jbe"}}, {"VM_CMP_GE", {">=", "ge", "&ge;", "-ge", "opge", "uge", "jae"}},
	{"VM_CMP_GT", {">", "gt", "&gt;", "-gt", "opgt", "ugt", "ja"}}, {"VM_CMP_EQ", {"==", "=", "eq", "-eq", "opeq", "je"}}, {"VM_CMP_NE", {"!=", "ne", "&ne;", "-ne", "opne", "jne"}}};
static const map<string, string> INVERSE{{"VM_CMP_LT", "VM_CMP_GE"}, {"VM_CMP_GE", "VM_CMP_LT"}, {"VM_CMP_LE", "VM_CMP_GT"}, {"VM_CMP_GT", "VM_CMP_LE"}, {"VM_CMP_EQ", "VM_CMP_NE"}, {"VM_CMP_NE", "VM_CMP_EQ"}};
static J::Array opReports, opSamples; static map<string, int> opCounts; static set<std::pair<string, unsigned>> cmpArgs;
static bool isCmp(Mod &m, const Value *V) {
	while (auto *c = dyn_cast<CastInst>(V)) V = c->getOperand(0);
	if (auto *a = dyn_cast<Argument>(V)) return cmpArgs.count({a->getParent()->getName().str(), a->getArgNo()});
	if (auto *p = dyn_cast<PHINode>(V)) { for (auto &x : p->incoming_values()) if (auto *l = dyn_cast<LoadInst>(x)) if (isCmp(m, l)) return true; return false; }
	auto *l = dyn_cast<LoadInst>(V); if (!l) return false;
	for (auto *st : {"dfavm_op_ir", "dfavm_vm_op"}) if (isAt(l->getPointerOperand(), st, offsetIn(m, st, {"cmp"}))) return true;
	return false;
}
static void opers(Mod &m) {
	auto en = m.enumOf("dfavm_op_cmp"); if (en.empty()) return; map<int64_t, string> nm; for (auto &e : en) nm[e.second] = e.first;
	bool alsoEq = false; for (auto &g : m.M->globals()) { string t; if (text(&g, t) && t.find("|| $c %s") != string::npos) alsoEq = true; }
	struct Got { const Instruction *at; string k, s, fn; bool ok, known; }; vector<Got> got; struct Inv { const Instruction *at; string k, to, fn; }; vector<Inv> inv;
	for (auto &F : *m.M) if (!F.isDeclaration()) {
		DominatorTree DT(F);
		auto under = [&](const BasicBlock *B, const BasicBlock *to, string &name) {
			set<int64_t> ks; bool found = false;
			if (to) if (auto *sw = dyn_cast<SwitchInst>(B->getTerminator())) if (isCmp(m, sw->getCondition())) { for (auto &c : sw->cases()) if (c.getCaseSuccessor() == to) ks.insert(c.getCaseValue()->getSExtValue()); found = sw->getDefaultDest() != to && !ks.empty(); }
			if (!found) above(B, DT, [&](const Value *V, set<int64_t> k, bool eq) { if (found || !isCmp(m, V)) return; if (!eq) return; ks = k; found = true; });
			if (!found || ks.size() != 1 || !nm.count(*ks.begin())) return false; name = nm[*ks.begin()]; return OPER.count(name) > 0;
		};
		auto str = [&](const Instruction *I, const Value *V, const BasicBlock *B, const BasicBlock *to) {
			string t, k; if (!text(V, t) || !under(B, to, k)) return; string u; for (char c : t) if (!isspace((unsigned char) c)) u += tolower((unsigned char) c);
			bool known = false; for (auto &o : OPER) known |= o.second.count(u) > 0;
			bool ok = OPER.at(k).count(u) || (alsoEq && ((k == "VM_CMP_LE" && u == "<") || (k == "VM_CMP_GE" && u == ">")));
			const Instruction *at = B->getTerminator()->getDebugLoc() ? B->getTerminator() : I; got.push_back({at, k, t, scope(at), ok, known});
		};
		auto num = [&](const Instruction *I, const Value *V, const BasicBlock *B, const BasicBlock *to) { auto *c = dyn_cast<ConstantInt>(V); string k; if (!c || !nm.count(c->getSExtValue()) || !OPER.count(nm[c->getSExtValue()]) || !under(B, to, k)) return; const Instruction *at = I->getDebugLoc() && !isa<PHINode>(I) ? I : B->getTerminator(); inv.push_back({at, k, nm[c->getSExtValue()], scope(at)}); };
		for (auto &B : F) for (auto &I : B) {
			if (auto *p = dyn_cast<PHINode>(&I)) { int n = 0; set<int64_t> cs; for (auto &x : p->incoming_values()) if (auto *c = dyn_cast<ConstantInt>(x)) cs.insert(c->getSExtValue()); for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (p->getType()->isPointerTy()) str(p, p->getIncomingValue(i), p->getIncomingBlock(i), &B); else if (p->getType()->isIntegerTy(32) && cs.size() >= 5) num(p, p->getIncomingValue(i), p->getIncomingBlock(i), &B); } }
			else if (auto *s = dyn_cast<SelectInst>(&I)) { str(s, s->getTrueValue(), &B, nullptr); str(s, s->getFalseValue(), &B, nullptr); }
			else if (auto *r = dyn_cast<ReturnInst>(&I)) { if (r->getReturnValue()) str(r, r->getReturnValue(), &B, nullptr); }
			else if (auto *s = dyn_cast<StoreInst>(&I)) { str(s, s->getValueOperand(), &B, nullptr); for (auto *st : {"dfavm_op_ir", "dfavm_vm_op"}) if (isAt(s->getPointerOperand(), st, offsetIn(m, st, {"cmp"}))) num(s, s->getValueOperand(), &B, nullptr); }
		}
	}
	map<string, set<string>> good; for (auto &g : got) if (g.ok) good[g.fn].insert(g.k);
	set<string> seen;
	for (auto &g : got) {
		bool table = good[g.fn].size() >= 3; if (!table && !(g.known && got.size() >= 3)) continue; string key = g.fn + "|" + g.k + "|" + g.s; if (!seen.insert(key + loc(g.at)).second) continue; opCounts["operators judged"]++;
		if (g.ok) { if (opSamples.size() < 12) opSamples.push_back(g.fn + " (" + loc(g.at) + "): " + g.k + " is \"" + g.s + "\""); continue; }
		opReports.push_back(J::Object{{"fn", g.fn}, {"key", g.k + "|" + g.s}, {"where", loc(g.at)}, {"text", g.k + " is written as \"" + g.s + "\""}});
	}
	map<string, set<string>> ks; for (auto &i : inv) ks[i.fn].insert(i.k); seen.clear();
	for (auto &i : inv) if (ks[i.fn].size() >= 3) { if (!seen.insert(i.fn + i.k + i.to).second) continue; opCounts["inverses judged"]++; if (INVERSE.at(i.k) != i.to) opReports.push_back(J::Object{{"fn", i.fn}, {"key", "inverse|" + i.k}, {"where", loc(i.at)}, {"text", "the inverse of " + i.k + " is taken to be " + i.to}}); }
}

// numbers kept in files a byte at a time: which bits of the number each byte has
static void bytesOf(Function &F, const char *call, map<int, int> &out, bool save, const Instruction *&at) {
	for (auto &B : F) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) {
		auto *cf = c->getCalledFunction(); if (!cf || cf->getName() != call) continue;
		const Value *p = c->getArgOperand(0)->stripPointerCasts(); if (auto *g = dyn_cast<GEPOperator>(p)) if (g->hasAllZeroIndices()) p = g->getPointerOperand();
		auto *a = dyn_cast<AllocaInst>(p); auto *T = a ? dyn_cast<ArrayType>(a->getAllocatedType()) : nullptr; if (!T || !T->getElementType()->isIntegerTy(8) || T->getNumElements() > 8) continue;
		auto idx = [&](const Value *q) -> int { if (q == a) return 0; if (auto *g = dyn_cast<GEPOperator>(q)) if (g->getPointerOperand() == a) if (auto *k = dyn_cast<ConstantInt>(g->getOperand(g->getNumOperands() - 1))) return k->getZExtValue(); return -1; };
		if (save) {
			Eval ev; ev.leaves = true; map<int, int> r;
			ev.src = [](const Value *V) { return isa<LoadInst>(V) || isa<Argument>(V); };
			for (auto &B2 : F) for (auto &J : B2) if (auto *s = dyn_cast<StoreInst>(&J)) { int i = idx(s->getPointerOperand()); if (i < 0 || !s->getValueOperand()->getType()->isIntegerTy(8)) continue; BV v = ev(s->getValueOperand()); if (v[0].k != 2) { continue; } bool seq = true; for (int b = 1; b < 8; b++) if (v[b].k != 2 || v[b].b != v[0].b + b) seq = false; r[i] = seq ? v[0].b : -1; }
			if (r.size() >= 4) { out = r; at = c; }
		} else {
			Eval ev; map<const Value *, int> ld; for (auto &B2 : F) for (auto &J : B2) if (auto *l = dyn_cast<LoadInst>(&J)) { int i = idx(l->getPointerOperand()); if (i >= 0 && l->getType()->isIntegerTy(8)) ld[l] = i; }
			ev.src = [&](const Value *V) { return ld.count(V) > 0; };
			map<int, int> best; for (auto &B2 : F) for (auto &J : B2) if (J.getType()->isIntegerTy()) { BV v = ev(&J); map<int, int> r; bool ok = !v.empty(); for (auto &x : v) if (x.k == 3) ok = false; if (!ok) continue; for (int i = 0; i < (int) v.size(); i++) if (v[i].k == 2 && v[i].b == 0) r[ld[v[i].v]] = i; for (int i = 0; i < (int) v.size(); i++) if (v[i].k == 2 && r.count(ld[v[i].v]) && i - v[i].b != r[ld[v[i].v]]) r[ld[v[i].v]] = -1; if (r.size() > best.size()) best = r; }
			if (ev.overlap && ld.size() >= 4) { out.clear(); at = c; out[-1] = -1; }
			else if (best.size() >= 4) { out = best; at = c; }
		}
	}
}

int main(int argc, char **argv) {
	SMDiagnostic E; vector<std::unique_ptr<LLVMContext>> ctxs; vector<std::unique_ptr<Module>> mods; map<string, Layout> LY;
	for (int i = 2; i < argc; i++) { ctxs.push_back(std::make_unique<LLVMContext>()); auto M = parseIRFile(argv[i], E, *ctxs.back());   // a context each, so that no type is renamed
		 if (!M) { E.print(argv[0], errs()); return 1; } mods.push_back(std::move(M)); }
	for (auto &M : mods) {
		for (auto &F : *M) if (!F.isDeclaration()) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); bool rec = false; for (auto *u : F.users()) if (auto *I = dyn_cast<Instruction>(u)) if (I->getFunction() == &F) rec = true; if (F.hasLocalLinkage() && !rec) F.addFnAttr(Attribute::AlwaysInline); }
		PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
		PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
		ModulePassManager MP; MP.addPass(AlwaysInlinerPass()); FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); MP.addPass(createModuleToFunctionPassAdaptor(std::move(FP))); MP.run(*M, MAM);
	}
	for (int round = 0; round < 2; round++) for (auto &M : mods) {
		DL = &M->getDataLayout(); Mod m(M.get());
		if (round == 1) for (auto &F : *M) if (!F.isDeclaration()) chooser(m, F);
		for (string ver : {"v1", "v2"}) { int ops = m.member("dfavm_" + ver, "ops"); if (ops < 0) continue;
			for (auto &F : *M) if (!F.isDeclaration()) { if (round == 0) writer(m, F, ver, ops, LY[ver]); else if (LY[ver].done) reader(m, F, ver, ops, LY[ver]); } }
	}
	for (int round = 0; round < 2; round++) for (auto &M : mods) {
		DL = &M->getDataLayout(); Mod m(M.get());
		if (round == 0) { for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *cf = c->getCalledFunction()) if (!cf->isIntrinsic()) for (unsigned i = 0; i < c->arg_size(); i++) if (isCmp(m, c->getArgOperand(i))) cmpArgs.insert({cf->getName().str(), i}); }
		else { opCounts["sources"]++; opers(m); }
	}
	map<int, int> sv, ldm; const Instruction *sa = nullptr, *la = nullptr;
	for (auto &M : mods) for (auto &F : *M) if (!F.isDeclaration()) { bytesOf(F, "fwrite", sv, true, sa); bytesOf(F, "fread", ldm, false, la); }
	if (!sv.empty() && !ldm.empty()) for (int i = 0; i < 4; i++) { counts["bytes of a saved length"]++; if (!sv.count(i) || !ldm.count(i) || sv[i] != ldm[i] || sv[i] < 0) report(la->getFunction()->getName().str(), "length|" + std::to_string(i), la, "byte " + std::to_string(i) + " of the length in a saved program is written from one place in the number and read back to another"); }
	J::Object oc; for (auto &c : opCounts) oc[c.first] = c.second; J::Object co; for (auto &c : counts) co[c.first] = c.second; J::Object sz; for (auto &s : LY["v1"].sizes) sz[std::to_string(s.first)] = s.second;
	std::error_code ec; raw_fd_ostream o(argv[1], ec);
	o << J::Value(J::Object{{"reports", std::move(reports)}, {"fields", std::move(fieldsOut)}, {"counts", std::move(co)}, {"sizes", std::move(sz)}, {"opreports", std::move(opReports)}, {"opsamples", std::move(opSamples)}, {"opcounts", std::move(oc)}, {"layouts", (int) LY["v1"].done + (int) LY["v2"].done}}) << "\n";
	return 0;
}
