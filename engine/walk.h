// walk.h: a function followed path by path over its IR, with abstract values, each abstract state once
#pragma once
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <unordered_set>
#include <vector>
#include <string>
#include <deque>
#include <fstream>
#include <sstream>
#include <functional>
using namespace llvm;
using std::map; using std::set; using std::vector; using std::string; using std::pair;
namespace J = llvm::json;
static Module *M; static const DataLayout *DL;
static string loc(const Instruction *I) { if (auto &d = I->getDebugLoc()) return d->getFilename().str() + ":" + std::to_string(d.getLine()); return ""; }
static string fileOf(const Function *F) { return F->getSubprogram() ? F->getSubprogram()->getFilename().str() : ""; }
static string nameOf(const Function *F) { string n = F->getName().str(); if (F->getSubprogram()) n = F->getSubprogram()->getName().str(); return n; }
static const Function *callee(const CallBase *c) { return dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); }

// ---------------------------------------------------------------- values
struct Val { char k = 0; int64_t c = 0; bool t = false;   // k: 0 unknown, 1 constant c, 2 not zero, 3 the bits c are set; t: comes from the failure
	bool operator<(const Val &o) const { return std::tie(k, c, t) < std::tie(o.k, o.c, o.t); } bool operator==(const Val &o) const { return k == o.k && c == o.c && t == o.t; } };
static Val C(int64_t c, bool t = false) { Val v; v.k = 1; v.c = c; v.t = t; return v; } static Val NZ() { Val v; v.k = 2; return v; }
// ndv: names for values the path does not know
struct NodeD { const Value *ssa; int base; int64_t off; const void *havoc; int depth; };
static vector<NodeD> ndv(1); static map<std::tuple<const Value *, int, int64_t, const void *>, int> nodeIdx;
static int mk(const Value *s, int b, int64_t o, const void *h) { auto k = std::make_tuple(s, b, o, h); auto i = nodeIdx.find(k); if (i != nodeIdx.end()) return i->second; int d = b ? ndv[b].depth + 1 : 0; ndv.push_back({s, b, o, h, d}); return nodeIdx[k] = ndv.size() - 1; }
static int ssaNode(const Value *v) { return mk(v, 0, 0, nullptr); }
static map<int, int> depOf;   // an element's address depends on its index
static bool ment(int n, const Value *v) { for (; n; n = ndv[n].base) { auto i = depOf.find(n); if (i != depOf.end() && ment(i->second, v)) return true; if (!ndv[n].base) return ndv[n].ssa == v; } return false; }
static const Value *rootOf(int n) { while (ndv[n].base) n = ndv[n].base; return ndv[n].ssa; }
struct B { int node = 0; int64_t off = 0; Val v; bool operator<(const B &o) const { return std::tie(node, off, v) < std::tie(o.node, o.off, o.v); } bool operator==(const B &o) const { return node == o.node && off == o.off && v == o.v; } };
typedef pair<int, int64_t> Cell; struct MV { B b; string key; bool own; };
struct Env { map<const Value *, B> b; map<int, Val> f; map<Cell, MV> m; bool dt = false; bool cs = false; bool lost = false; /* what told of the failure may have changed */ int st = 0; };
static uint64_t H(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static uint64_t hashV(uint64_t h, const Val &v) { return H(H(h, v.k * 4 + v.t), v.c); }
static uint64_t hashE(const Env &e, const void *blk) { uint64_t h = H(e.st, (uint64_t) blk); for (auto &x : e.b) { h = H(h, (uint64_t) x.first); h = H(h, x.second.node); h = H(h, x.second.off); h = hashV(h, x.second.v); } h = H(h, 77); for (auto &x : e.f) { h = H(h, x.first); h = hashV(h, x.second); } h = H(h, 78); for (auto &x : e.m) { h = H(h, x.first.first); h = H(h, x.first.second); h = H(h, x.second.b.node); h = H(h, x.second.b.off); h = hashV(h, x.second.b.v); } return h; }

// ---------------------------------------------------------------- per function facts
static string keyOf(const Value *p);
struct FI { map<const BasicBlock *, set<const Value *>> live; map<const BasicBlock *, set<string>> loads; DominatorTree dt; FI(Function &F) : dt(F) {
	bool ch = true; auto use = [&](const Value *v) { return isa<Instruction>(v) && !isa<AllocaInst>(v); };
	map<const BasicBlock *, set<const Value *>> gen, def, phiuse; for (auto &Bk : F) { for (auto &I : Bk) { if (isa<DbgInfoIntrinsic>(I)) continue; if (auto *p = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (use(p->getIncomingValue(i))) phiuse[p->getIncomingBlock(i)].insert(p->getIncomingValue(i)); } else { std::function<void(const Value *, int)> add = [&](const Value *v, int d) { if (use(v) && !def[&Bk].count(v)) gen[&Bk].insert(v); if (d < 6 && (isa<GetElementPtrInst>(v) || isa<CastInst>(v))) for (auto &o : cast<Instruction>(v)->operands()) add(o.get(), d + 1); }; for (auto &o : I.operands()) add(o.get(), 0); } def[&Bk].insert(&I); } }
	for (auto &Bk : F) for (auto &I : Bk) if (auto *l = dyn_cast<LoadInst>(&I)) loads[&Bk].insert(keyOf(l->getPointerOperand()));
	for (bool c2 = true; c2;) { c2 = false; for (auto &Bk : reverse(F)) { auto &s = loads[&Bk]; size_t n = s.size(); for (auto *x : successors(&Bk)) { auto &t = loads[x]; s.insert(t.begin(), t.end()); } if (s.size() != n) c2 = true; } }
	while (ch) { ch = false; for (auto &Bk : reverse(F)) { set<const Value *> l = phiuse[&Bk]; for (auto *s : successors(&Bk)) l.insert(live[s].begin(), live[s].end()); for (auto *d : def[&Bk]) l.erase(d); auto &g = gen[&Bk]; l.insert(g.begin(), g.end());
		for (auto &I : Bk) if (isa<PHINode>(I)) l.insert(&I); // a phi is live at its own block
		if (l != live[&Bk]) { live[&Bk] = l; ch = true; } } } } };
static map<const Function *, FI *> fis; static FI &fi(const Function *F) { auto &x = fis[F]; if (!x) x = new FI(*const_cast<Function *>(F)); return *x; }
static string keyOf(const Value *p) {
	p = p->stripPointerCasts(); if (auto *g = dyn_cast<GEPOperator>(p)) { auto *t = g->getSourceElementType(); string k; const Type *cur = t; unsigned n = 0; string last;
		for (auto i = g->idx_begin(); i != g->idx_end(); ++i, ++n) { if (n == 0) continue; if (auto *st = dyn_cast<StructType>(const_cast<Type *>(cur))) { auto *ci = dyn_cast<ConstantInt>(i->get()); if (!ci) return "*"; last = (st->hasName() ? st->getName().str() : string("?")) + "#" + std::to_string(ci->getZExtValue()); cur = st->getElementType(ci->getZExtValue()); } else if (auto *at = dyn_cast<ArrayType>(const_cast<Type *>(cur))) cur = at->getElementType(); }
		if (last.empty()) { if (n == 1) return "elem"; return "*"; } return last; }
	// the first field, reached without an index
	static map<const Value *, string> memo; auto mi = memo.find(p); if (mi != memo.end()) return mi->second; StructType *st = nullptr; if (auto *a = dyn_cast<AllocaInst>(p)) st = dyn_cast<StructType>(a->getAllocatedType());
	std::function<StructType *(const Value *, int)> guess = [&](const Value *p, int d) -> StructType * { if (isa<GlobalValue>(p) || isa<Constant>(p)) return nullptr; for (auto *u : p->users()) if (auto *g = dyn_cast<GEPOperator>(u)) if (g->getPointerOperand() == p && g->getNumIndices() > 1) if (auto *t = dyn_cast<StructType>(g->getSourceElementType())) return t;
		if (d < 3) for (auto *u : p->users()) if (auto *c = dyn_cast<CallBase>(u)) if (auto *f = callee(c)) if (!f->isDeclaration()) for (unsigned i = 0; i < c->arg_size() && i < f->arg_size(); i++) if (c->getArgOperand(i) == p) if (auto *t = guess(f->getArg(i), d + 1)) return t;
		return nullptr; };
	if (!st) st = guess(p, 0);
	string k = "*"; if (st) { while (st->getNumElements() && isa<StructType>(st->getElementType(0))) st = cast<StructType>(st->getElementType(0)); k = (st->hasName() ? st->getName().str() : string("?")) + "#0"; }
	return memo[p] = k; }
// fields that code given a pointer only ever sets one way: the one constant stored, the bits that are cleared
struct Sticky { bool konst = true, any = false; int64_t c = 0; uint64_t cleared = 0; }; static map<string, Sticky> sticky;
static uint64_t clearedBy(const Value *v, const string &k, int d = 0) {
	if (auto *c = dyn_cast<ConstantInt>(v)) return ~c->getZExtValue(); if (d > 6) return ~0ULL;
	if (auto *l = dyn_cast<LoadInst>(v)) return keyOf(l->getPointerOperand()) == k ? 0 : ~0ULL;
	if (auto *o = dyn_cast<BinaryOperator>(v)) { auto *a = o->getOperand(0), *b = o->getOperand(1);
		if (o->getOpcode() == Instruction::And) { uint64_t x = ~0ULL; if (auto *c = dyn_cast<ConstantInt>(b)) x = clearedBy(a, k, d + 1) | ~c->getZExtValue(); return x; }
		if (o->getOpcode() == Instruction::Or) return clearedBy(a, k, d + 1) & clearedBy(b, k, d + 1); }
	return ~0ULL; }
static map<const Function *, set<string>> modset; static map<FunctionType *, vector<const Function *>> byType; static set<const Function *> addrTaken;
static bool benign(StringRef n) { return n.startswith("llvm.dbg") || n.startswith("llvm.lifetime") || n == "f_free" || n == "free" || n == "fprintf" || n == "fputs" || n == "fputc" || n == "fwrite" || n == "puts" || n == "putchar" || n == "printf" || n == "strlen" || n == "memcmp" || n == "strcmp" || n == "f_malloc" || n == "f_calloc" || n == "f_realloc" || n == "malloc" || n == "calloc" || n == "realloc" || n == "__errno_location" || n == "ferror" || n == "perror" || n == "isalnum" || n == "isprint"; }
// the fields of every structure that has this size, or is part of one that has
static set<string> sizedKeys(const MemIntrinsic *mi, uint64_t n) {
	StructType *hint = nullptr; auto typed = [&](const Value *v) { auto *u = getUnderlyingObject(v); StructType *t = nullptr; if (auto *g = dyn_cast<GlobalVariable>(u)) t = dyn_cast<StructType>(g->getValueType()); else if (auto *a = dyn_cast<AllocaInst>(u)) t = dyn_cast<StructType>(a->getAllocatedType()); if (t && DL->getTypeAllocSize(t) == n) hint = t; };
	if (auto *mt = dyn_cast<MemTransferInst>(mi)) typed(mt->getSource());
	if (!hint) for (auto *v : {mi->getDest(), isa<MemTransferInst>(mi) ? cast<MemTransferInst>(mi)->getSource() : nullptr}) if (v) if (auto *g = dyn_cast<GEPOperator>(v)) if (auto *t = dyn_cast<StructType>(g->getResultElementType())) if (DL->getTypeAllocSize(t) == n) hint = t;
	static map<pair<uint64_t, StructType *>, set<string>> memo; auto &r = memo[{n, hint}]; if (!r.empty()) return r; r.insert("elem");
	std::function<void(Type *)> add = [&](Type *t) { if (auto *a = dyn_cast<ArrayType>(t)) return add(a->getElementType()); auto *st = dyn_cast<StructType>(t); if (!st || st->isOpaque()) return; for (unsigned i = 0; i < st->getNumElements(); i++) { r.insert((st->hasName() ? st->getName().str() : string("?")) + "#" + std::to_string(i)); add(st->getElementType(i)); } };
	for (auto *st : M->getIdentifiedStructTypes()) if (!st->isOpaque() && (hint ? st == hint : DL->getTypeAllocSize(st) == n)) add(st);
	if (r.size() == 1) r.insert("mem"); return r; }
static void computeMod() {
	for (auto &F : *M) { if (F.hasAddressTaken()) { addrTaken.insert(&F); byType[F.getFunctionType()].push_back(&F); } }
	for (auto &F : *M) for (auto &Bk : F) for (auto &I : Bk) { if (auto *s = dyn_cast<StoreInst>(&I)) { auto *u = getUnderlyingObject(s->getPointerOperand()); if (!isa<AllocaInst>(u)) modset[&F].insert(keyOf(s->getPointerOperand())); }
		else if (auto *mi = dyn_cast<MemIntrinsic>(&I)) { if (!isa<AllocaInst>(getUnderlyingObject(mi->getDest()))) { auto *n = dyn_cast<ConstantInt>(mi->getLength()); if (!n) modset[&F].insert("mem"); else for (auto &k : sizedKeys(mi, n->getZExtValue())) modset[&F].insert(k); } } }
	for (auto &F : *M) for (auto &Bk : F) for (auto &I : Bk) if (auto *s = dyn_cast<StoreInst>(&I)) { if (isa<AllocaInst>(getUnderlyingObject(s->getPointerOperand()))) continue; string k = keyOf(s->getPointerOperand()); if (k.find('#') == string::npos) continue; auto &st = sticky[fileOf(&F) + ":" + k]; st.cleared |= clearedBy(s->getValueOperand(), k);
			if (auto *c = dyn_cast<ConstantInt>(s->getValueOperand())) { int64_t v = c->getBitWidth() == 1 ? c->getZExtValue() : c->getSExtValue(); if (st.any && st.c != v) st.konst = false; st.any = true; st.c = v; } else st.konst = false; }
		else if (auto *mi = dyn_cast<MemIntrinsic>(&I)) { auto *n = dyn_cast<ConstantInt>(mi->getLength()); if (n && !isa<AllocaInst>(getUnderlyingObject(mi->getDest()))) for (auto &k : sizedKeys(mi, n->getZExtValue())) { auto &st = sticky[fileOf(&F) + ":" + k]; st.konst = false; st.cleared = ~0ULL; } }
	bool ch = true; while (ch) { ch = false; for (auto &F : *M) { size_t n = modset[&F].size(); for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = callee(c); if (g) { if (benign(g->getName())) continue; if (&F != g) { auto s = modset[g]; modset[&F].insert(s.begin(), s.end()); } } else for (auto *t : byType[c->getFunctionType()]) { auto s = modset[t]; modset[&F].insert(s.begin(), s.end()); } } if (modset[&F].size() != n) ch = true; } }
}

// ---------------------------------------------------------------- the walk
struct Flag { int arg; int64_t off; Val v; bool operator<(const Flag &o) const { return std::tie(arg, off, v) < std::tie(o.arg, o.off, o.v); } };
struct Outcome { bool has = false; Val ret; set<Flag> flags; bool operator<(const Outcome &o) const { return std::tie(has, ret, flags) < std::tie(o.has, o.ret, o.flags); } };
struct Walk {
	const Function *F; FI &I; std::function<void(const ReturnInst *, const Env &, Val)> onRet; std::function<void(const Instruction *, const char *, const Function *)> onUse; std::function<bool(const Cell &, const vector<B> &)> spares; /* cells a call leaves alone */ size_t cap = 6000; bool over = false; size_t steps = 0;
	bool stream = false; int shortNode = 0; B full;   // the count a failed fwrite returns is not the one it was given
	set<int> outs; // what a void callee that failed was given to write to
	bool consults(const Env &e, const Value *c) { if (outs.empty()) return false; auto under = [&](int n) { for (; n; n = ndv[n].base) if (outs.count(ndv[n].base)) return true; return false; }; auto *ic = dyn_cast<ICmpInst>(c); if (!ic) return under(eval(e, c).node); for (auto &o : ic->operands()) if (under(eval(e, o.get()).node)) return true; return false; }
	const Instruction *target = nullptr; vector<Env> hits; std::unordered_set<uint64_t> hitSeen;   // the states in which a call is reached
	const Instruction *subst = nullptr; Val substV;   // a further call whose result is known (callback failing inside)
	bool lean = false; // numbers that are counted, and numbers in arrays, are not followed
	int tracked = 0; // an object whose ownership is followed
	virtual bool event(const BasicBlock *, const Instruction *, Env &) { return false; }   // true: the rest of the path has been seen to
	Walk(const Function *f) : F(f), I(fi(f)) {} virtual ~Walk() {}
	Val known(const Env &e, int n) { auto i = e.f.find(n); return i == e.f.end() ? Val() : i->second; }
	B withFact(const Env &e, B b) { if (b.v.k != 1 && b.node && !b.off) { Val k = known(e, b.node); if (k.k) b.v = k; } return b; }
	B eval(const Env &e, const Value *v) {
		B r; if (auto *ci = dyn_cast<ConstantInt>(v)) { r.v = C(ci->getBitWidth() <= 64 ? (ci->getBitWidth() == 1 ? (int64_t) ci->getZExtValue() : ci->getSExtValue()) : 1); return r; }
		if (isa<ConstantPointerNull>(v)) { r.v = C(0); return r; } if (isa<UndefValue>(v)) return r;
		if (isa<GlobalValue>(v) || isa<AllocaInst>(v)) { r.node = ssaNode(v); r.v = NZ(); return r; }
		if (isa<GetElementPtrInst>(v)) { auto i = e.b.find(v); if (i != e.b.end()) return withFact(e, i->second); }
		if (auto *g = dyn_cast<GEPOperator>(v)) { B b = eval(e, g->getPointerOperand()); APInt off(64, 0); if (tagMode && b.v.k == 3 && b.v.t) { r.v = b.v; return r; } if (g->accumulateConstantOffset(*DL, off)) { if (b.v.k == 1) { r.v = b.v; return r; } r = b; r.off += off.getSExtValue(); if (r.off != b.off) r.v = NZ(); return r; }
			if (b.v.k == 1) { r.v = b.v; return r; }
			MapVector<Value *, APInt> vo; APInt co(64, 0); if (b.node && ndv[b.node].depth < 3 && g->collectOffset(*DL, 64, vo, co) && vo.size() == 1) { B ix = eval(e, vo.begin()->first); int64_t sc = vo.begin()->second.getSExtValue();
				if (ix.v.k == 1) { r = b; r.off += co.getSExtValue() + ix.v.c * sc; r.v = NZ(); return r; }
				if (ix.node) { r.node = mk(nullptr, b.node, b.off + co.getSExtValue() + ix.off * sc, (const void *) (uintptr_t) (((uint64_t) ix.node << 20 | ((uint64_t) sc & 0x7ffff) << 1) | 1)); depOf[r.node] = ix.node; r.v = NZ(); return r; } }
			r.node = ssaNode(v); r.v = NZ(); return r; }
		if (auto *c = dyn_cast<CastInst>(v)) { B b = eval(e, c->getOperand(0)); auto *dt = c->getDestTy(); auto *st = c->getSrcTy();
			if (b.v.k == 1 && dt->isIntegerTy()) { unsigned w = dt->getIntegerBitWidth(); int64_t x = b.v.c; if (isa<ZExtInst>(c) && st->getIntegerBitWidth() < 64) x &= (1LL << st->getIntegerBitWidth()) - 1; if (isa<SExtInst>(c) && st->getIntegerBitWidth() == 1) x = x ? -1 : 0; if (w == 1) x &= 1; else if (w < 64) x = (int64_t) ((uint64_t) x << (64 - w)) >> (64 - w); b.v.c = x; return b; }
			if (isa<TruncInst>(c) && !dt->isIntegerTy(1)) { if (b.v.k >= 2) { b.v = Val(); b.node = ssaNode(v); } } if (c->getOpcode() == Instruction::FPToSI || c->getOpcode() == Instruction::SIToFP || c->getOpcode() == Instruction::UIToFP || c->getOpcode() == Instruction::FPToUI) { B z; z.node = ssaNode(v); return z; } return b; }
		auto i = e.b.find(v); if (i != e.b.end()) return withFact(e, i->second);
		r.node = ssaNode(v); return withFact(e, r);
	}
	static inline bool tagMode = false;   // a pointer with its low bit set stands for something else
	bool nullish(const B &b) { return b.v.t && (tagMode ? b.v.k == 3 : b.v.k == 1 && b.v.c == 0); }
	void redefine(Env &e, const Value *v) {
		if (tracked && e.st == 2 && ment(tracked, v)) e.st = 3;
		e.b.erase(v); auto it = nodeIdx.find(std::make_tuple(v, 0, (int64_t) 0, (const void *) nullptr)); if (it == nodeIdx.end()) return; int n = it->second;
		bool used = false; for (auto i = e.f.begin(); i != e.f.end();) if (ment(i->first, v)) i = e.f.erase(i); else ++i;
		for (auto i = e.m.begin(); i != e.m.end();) if (ment(i->first.first, v)) i = e.m.erase(i); else { if (i->second.b.node && ment(i->second.b.node, v)) { B b; b.node = mk(nullptr, i->first.first, i->first.second, v); i->second.b = b; } ++i; }
		for (auto &x : e.b) if (x.second.node && ment(x.second.node, v)) { B b; b.node = mk(x.first, 0, 0, v); x.second = b; }
	}
	// a call or an unknown store may have changed memory whose field key is in `keys`
	void kill(Env &e, const void *who, const set<string> &keys, const set<const Value *> &exposed, bool all) {
		auto hit = [&](int node, const string &key) { auto *r = rootOf(node); if (r && isa<AllocaInst>(r) && ndv[node].base == 0 && !exposed.count(r)) return false; if (all) return true; return keys.count(key) || keys.count("*") || keys.count("mem"); };
		for (auto &x : e.m) if (hit(x.first.first, x.second.key)) { auto si = sticky.find(fileOf(F) + ":" + x.second.key); auto &sv = x.second.b.v; if (isa<CallBase>((const Value *) who) && si != sticky.end() && si->second.any | (sv.k == 3)) { if (sv.k == 1 && si->second.konst && si->second.c == sv.c) continue; if ((sv.k == 3 || sv.k == 1) && !x.second.b.node && (sv.c & ~si->second.cleared)) { sv.k = 3; sv.c &= ~si->second.cleared; continue; } }
			if (x.second.own && x.second.b.v.t && x.second.b.v.k == 1) e.lost = true; B b; b.node = mk(nullptr, x.first.first, x.first.second, who); x.second.b = b; x.second.own = false; }
		// cells known only by their default name: give them new contents
		vector<pair<Cell, string>> add; set<int> seen; auto consider = [&](int n) { for (; n; n = ndv[n].base) if (ndv[n].base && !ndv[n].havoc && !ndv[n].ssa && seen.insert(n).second) { Cell c{ndv[n].base, ndv[n].off}; if (!e.m.count(c)) { auto k = cellKey.find(c); string key = k == cellKey.end() ? "*" : k->second; if (hit(c.first, key)) add.push_back({c, key}); } } };
		for (auto &x : e.b) consider(x.second.node); for (auto &x : e.f) consider(x.first);
		for (auto &a : add) { MV v; v.b.node = mk(nullptr, a.first.first, a.first.second, who); v.key = a.second; v.own = false; e.m[a.first] = v; }
	}
	static inline map<Cell, string> cellKey;
	bool interesting(int n) { auto &d = ndv[n]; if (d.base || d.havoc) return true; if (!d.ssa) return true; int u = 0; for (auto *x : d.ssa->users()) { if (auto *xi = dyn_cast<Instruction>(x)) if (isa<DbgInfoIntrinsic>(xi)) continue; u++; if (isa<CastInst>(x) && x->getNumUses() > 1) u++; } return u > 1 || isa<Argument>(d.ssa); }
	void fact(Env &e, int n, Val v) { if (n && interesting(n)) { auto &x = e.f[n]; if (x.k != 1) { bool t = x.t; x = v; } } }
	void refine(Env &e, const Value *c, bool truth, int d = 0) {
		if (d > 8) return;
		if (auto *z = dyn_cast<CastInst>(c)) { B b = eval(e, c); if (b.node && !b.off) { if (z->getSrcTy()->isIntegerTy() || z->getSrcTy()->isPointerTy()) fact(e, b.node, truth ? (isBoolLike(z) ? C(1) : NZ()) : C(0)); } refine(e, z->getOperand(0), truth, d + 1); return; }
		if (auto *x = dyn_cast<BinaryOperator>(c)) { if (x->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(x->getOperand(1))) if (k->isOne()) { refine(e, x->getOperand(0), !truth, d + 1); return; }
			if (x->getOpcode() == Instruction::And && truth && x->getType()->isIntegerTy(1)) { refine(e, x->getOperand(0), true, d + 1); refine(e, x->getOperand(1), true, d + 1); } if (x->getOpcode() == Instruction::Or && !truth && x->getType()->isIntegerTy(1)) { refine(e, x->getOperand(0), false, d + 1); refine(e, x->getOperand(1), false, d + 1); } return; }
		if (auto *i = dyn_cast<ICmpInst>(c)) {
			B a = eval(e, i->getOperand(0)), b = eval(e, i->getOperand(1)); auto p = i->getPredicate(); if (!truth) p = i->getInversePredicate(); if (a.v.k == 1 && b.v.k != 1) { std::swap(a, b); p = ICmpInst::getSwappedPredicate(p); } fact(e, ssaNode(c), C(truth));
			if (b.v.k == 1 && a.node && !a.off && a.v.k != 1) {
				const Value *op = i->getOperand(a.v == eval(e, i->getOperand(0)).v ? 0 : 1);
				if (p == ICmpInst::ICMP_EQ) { if (b.v.c == 0) refineZero(e, i->getOperand(0), d); fact(e, a.node, C(b.v.c)); }
				else if (p == ICmpInst::ICMP_NE && b.v.c == 0) { fact(e, a.node, NZ()); if (isa<CastInst>(i->getOperand(0)) || isa<ICmpInst>(i->getOperand(0))) { auto *o = i->getOperand(0); if (auto *z = dyn_cast<ZExtInst>(o)) refine(e, z->getOperand(0), true, d + 1); } }
				else if ((p == ICmpInst::ICMP_UGT && b.v.c >= 0) || (p == ICmpInst::ICMP_SGT && b.v.c >= 0) || (p == ICmpInst::ICMP_SLT && b.v.c <= 0) || (p == ICmpInst::ICMP_UGE && b.v.c > 0) || (p == ICmpInst::ICMP_SGE && b.v.c > 0) || (p == ICmpInst::ICMP_SLE && b.v.c < 0)) fact(e, a.node, NZ());
				else if ((p == ICmpInst::ICMP_ULE && b.v.c == 0) || (p == ICmpInst::ICMP_ULT && b.v.c == 1)) fact(e, a.node, C(0));
			} return; }
		B b = eval(e, c); if (b.node && !b.off) { fact(e, b.node, C(truth)); if (ndv[b.node].ssa && !ndv[b.node].base && ndv[b.node].ssa != c) if (auto *in = dyn_cast<Instruction>(ndv[b.node].ssa)) if (isa<ICmpInst>(in)) refine(e, in, truth, d + 1); }
	}
	void refineZero(Env &e, const Value *o, int d) { if (auto *z = dyn_cast<ZExtInst>(o)) if (z->getSrcTy()->isIntegerTy(1)) refine(e, z->getOperand(0), false, d + 1); }
	static bool isBoolLike(const CastInst *z) { return z->getDestTy()->isIntegerTy(1) && z->getSrcTy()->isIntegerTy(8); }
	Val cmp(CmpInst::Predicate p, const B &a, const B &b) {
		Val r; bool t = a.v.t || b.v.t;
		if (shortNode && (a.node == shortNode || b.node == shortNode)) { const B &o = a.node == shortNode ? b : a; if (o.node == full.node && o.off == full.off && o.v.k == full.v.k && o.v.c == full.v.c) { if (p == ICmpInst::ICMP_EQ) return C(0, true); if (p == ICmpInst::ICMP_NE) return C(1, true); if (a.node == shortNode && p == ICmpInst::ICMP_ULT) return C(1, true); if (a.node == shortNode && p == ICmpInst::ICMP_UGE) return C(0, true); if (b.node == shortNode && p == ICmpInst::ICMP_UGT) return C(1, true); if (b.node == shortNode && p == ICmpInst::ICMP_ULE) return C(0, true); } }
		if (a.v.k == 1 && b.v.k == 1) { int64_t x = a.v.c, y = b.v.c; uint64_t ux = x, uy = y; bool o; switch (p) { case ICmpInst::ICMP_EQ: o = x == y; break; case ICmpInst::ICMP_NE: o = x != y; break; case ICmpInst::ICMP_SLT: o = x < y; break; case ICmpInst::ICMP_SLE: o = x <= y; break; case ICmpInst::ICMP_SGT: o = x > y; break; case ICmpInst::ICMP_SGE: o = x >= y; break; case ICmpInst::ICMP_ULT: o = ux < uy; break; case ICmpInst::ICMP_ULE: o = ux <= uy; break; case ICmpInst::ICMP_UGT: o = ux > uy; break; case ICmpInst::ICMP_UGE: o = ux >= uy; break; default: return r; } return C(o, t); }
		bool nza = a.v.k >= 2 && b.v.k == 1 && b.v.c == 0, nzb = b.v.k >= 2 && a.v.k == 1 && a.v.c == 0; if (nza || nzb) { if (p == ICmpInst::ICMP_EQ) return C(0, t); if (p == ICmpInst::ICMP_NE) return C(1, t); if (nza && p == ICmpInst::ICMP_UGT) return C(1, t); if (nza && p == ICmpInst::ICMP_ULE) return C(0, t); }
		if (p == ICmpInst::ICMP_UGE && b.v.k == 1 && b.v.c == 0) return C(1); if (p == ICmpInst::ICMP_ULT && b.v.k == 1 && b.v.c == 0) return C(0);
		if (a.node && a.node == b.node && a.off == b.off) { if (p == ICmpInst::ICMP_EQ || p == ICmpInst::ICMP_UGE || p == ICmpInst::ICMP_ULE) return C(1); if (p == ICmpInst::ICMP_NE || p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_UGT) return C(0); }
		return r;
	}
	static std::function<Val(const Function *, const vector<B> &)> argIn; /* what a function answers, given these arguments */ static std::function<bool(const Function *, unsigned, int64_t)> needsCell; /* whether it cannot be given null there */ static std::function<bool(const Function *, unsigned)> nullDeref; static std::function<Val(const Function *, const set<std::tuple<unsigned, int64_t, Val>> &)> flagIn;
	// returns false when the path ends here
	bool lostNow = false;
	bool exec(Env &e, const Instruction *in) {
		lostNow = e.lost;
		if (isa<DbgInfoIntrinsic>(in)) return true;
		if (auto *l = dyn_cast<LoadInst>(in)) { B p = eval(e, l->getPointerOperand()); redefine(e, in); if (nullish(p)) { onUse(in, "read through", nullptr); return false; } if (p.v.k == 1) return false;
			if (!p.node) return true; if (lean && l->getType()->isIntegerTy() && keyOf(l->getPointerOperand()) == "elem") return true; Cell c{p.node, p.off}; cellKey[c] = keyOf(l->getPointerOperand()); auto i = e.m.find(c); if (i != e.m.end()) { if (i->second.b.v.k || i->second.b.node) e.b[in] = i->second.b; return true; }
			if (ndv[p.node].depth < 3) { B b; b.node = mk(nullptr, p.node, p.off, nullptr); e.b[in] = b; } return true; }
		if (auto *s = dyn_cast<StoreInst>(in)) { B p = eval(e, s->getPointerOperand()), v = eval(e, s->getValueOperand()); if (nullish(p)) { onUse(in, "written through", nullptr); return false; } if (p.v.k == 1) return false; if (!p.node) return true;
			string key = keyOf(s->getPointerOperand()); Cell c{p.node, p.off}; cellKey[c] = key; auto *r = rootOf(p.node);
			if (!(r && isa<AllocaInst>(r) && ndv[p.node].base == 0)) { MV keep; bool had = e.m.count(c); if (had) keep = e.m[c]; set<const Value *> none; kill(e, in, {key == "*" ? string("\001none") : key}, none, false); }
			if (lean && s->getValueOperand()->getType()->isIntegerTy() && (key == "elem" || key == "*" || v.v.k != 1)) { e.m.erase(c); if (key != "elem" && key != "*") { MV m; m.b.node = mk(nullptr, c.first, c.second, in); m.key = key; m.own = false; e.m[c] = m; } return true; }
			MV m; m.b = v; m.key = key; m.own = true; e.m[c] = m; return true; }
		if (auto *i = dyn_cast<ICmpInst>(in)) { B a = eval(e, i->getOperand(0)), b = eval(e, i->getOperand(1)); redefine(e, in); Val r = cmp(i->getPredicate(), a, b); if (r.k) { B x; x.v = r; e.b[in] = x; } return true; }
		if (auto *s = dyn_cast<SelectInst>(in)) { B c = eval(e, s->getCondition()), a = eval(e, s->getTrueValue()), b = eval(e, s->getFalseValue()); redefine(e, in); if (c.v.k == 1) e.b[in] = c.v.c ? a : b; return true; }
		if (auto *o = dyn_cast<BinaryOperator>(in)) { B a = eval(e, o->getOperand(0)), b = eval(e, o->getOperand(1)); redefine(e, in); Val r; bool t = a.v.t || b.v.t; auto op = o->getOpcode();
			if (a.v.k == 1 && b.v.k == 1) switch (op) { case Instruction::And: r = C(a.v.c & b.v.c, t); break; case Instruction::Or: r = C(a.v.c | b.v.c, t); break; case Instruction::Xor: r = C(a.v.c ^ b.v.c, t); break; case Instruction::LShr: if (b.v.c >= 0 && b.v.c < 64 && a.v.c >= 0) r = C(a.v.c >> b.v.c, t); break; case Instruction::Add: r = C(a.v.c + b.v.c); break; case Instruction::Sub: r = C(a.v.c - b.v.c); break; default: break; }
			else if (op == Instruction::Or && (a.v.k == 3 || b.v.k == 3 || (a.v.k == 1 && a.v.c) || (b.v.k == 1 && b.v.c))) { r.k = 3; r.c = (a.v.k == 3 || a.v.k == 1 ? a.v.c : 0) | (b.v.k == 3 || b.v.k == 1 ? b.v.c : 0); r.t = t; }
			else if (op == Instruction::And && a.v.k == 3 && b.v.k == 1 && (a.v.c & b.v.c)) { int64_t m = b.v.c; if ((m & a.v.c) == m) r = C(m, t); else { r.k = 3; r.c = a.v.c & m; r.t = t; } }
			else if (op == Instruction::LShr && a.v.k == 3 && b.v.k == 1 && b.v.c >= 0 && b.v.c < 64 && (a.v.c >> b.v.c)) { r.k = 3; r.c = (uint64_t) a.v.c >> b.v.c; r.t = t; }
			else if (op == Instruction::And && ((a.v.k == 1 && !a.v.c) || (b.v.k == 1 && !b.v.c))) r = C(0, t); else if (op == Instruction::Or && (a.v.k >= 2 || b.v.k >= 2 || (a.v.k == 1 && a.v.c) || (b.v.k == 1 && b.v.c))) r = NZ();
			if (lean && r.k == 1 && (op == Instruction::Add || op == Instruction::Sub)) r = Val();
			if (r.k == 1 && (op == Instruction::Add || op == Instruction::Sub) && (r.c > 2 || r.c < -2)) r = Val();   // counters
			if (r.k) { B x; x.v = r; e.b[in] = x; } return true; }
		if (auto *c = dyn_cast<CallBase>(in)) return call(e, c);
		if (isa<GetElementPtrInst>(in)) { redefine(e, in); B b = eval(e, in); if (b.node && b.node != ssaNode(in) && in->isUsedOutsideOfBlock(in->getParent())) e.b[in] = b; return true; }
		if (!in->getType()->isVoidTy() && !isa<CastInst>(in)) redefine(e, in);
		return true;
	}
	bool call(Env &e, const CallBase *c) {
		auto *f = callee(c); if (f && f->isIntrinsic()) { if (auto *mi = dyn_cast<MemIntrinsic>(c)) { B d = eval(e, mi->getDest()); if (nullish(d)) { onUse(c, "written through", nullptr); return false; } if (auto *mt = dyn_cast<MemTransferInst>(c)) { B s = eval(e, mt->getSource()); if (nullish(s)) { onUse(c, "read through", nullptr); return false; } }
				if (d.node) { auto *r = rootOf(d.node); for (auto &x : e.m) if (rootOf(x.first.first) == r || !(rootOf(x.first.first) && isa<AllocaInst>(rootOf(x.first.first)))) { B b; b.node = mk(nullptr, x.first.first, x.first.second, c); x.second.b = b; x.second.own = false; } } } else if (!c->getType()->isVoidTy()) redefine(e, c); return true; }
		if (f && f->doesNotReturn()) { if (e.dt && f->getName() == "__assert_fail") onUse(c, "asserted on", nullptr); return false; }
		vector<B> args; for (auto &a : c->args()) args.push_back(eval(e, a.get()));
		if (f) for (unsigned i = 0; i < args.size(); i++) if (nullish(args[i]) && c->getArgOperand(i)->getType()->isPointerTy() && nullDeref(f, i)) onUse(c, "passed to", f);
		if (!f) { B cb = eval(e, c->getCalledOperand()); if (nullish(cb)) { onUse(c, "called through", nullptr); return false; } }
		bool tells = false; if (!c->getType()->isVoidTy() && !(f && f->isDeclaration())) for (auto &x : e.m) if (x.second.own && x.second.b.v.t) for (auto &a : args) if (a.node && x.first.first == a.node) tells = true;   // what it returns may tell of the failure
		Val told; if (tells && f && !f->isDeclaration()) { std::set<std::tuple<unsigned, int64_t, Val>> in; for (unsigned i = 0; i < args.size(); i++) for (auto &x : e.m) if (x.second.own && x.second.b.v.t && args[i].node && x.first.first == args[i].node) in.insert({i, x.first.second - args[i].off, x.second.b.v}); told = flagIn(f, in); }
		if (needsCell && f && !f->isDeclaration()) for (unsigned i = 0; i < args.size(); i++) if (args[i].node) for (auto &x : e.m) if (x.first.first == args[i].node && x.second.key == "flag" && nullish(x.second.b) && needsCell(f, i, x.first.second - args[i].off)) onUse(c, "passed to", f);
		if (argIn && f && !f->isDeclaration() && !told.k) told = argIn(f, args);
		redefine(e, c); if (told.k == 1) { told.t = true; B b; b.v = told; e.b[c] = b; } else if (tells) e.cs = true;
		if (!(f && benign(f->getName()))) { set<const Value *> exposed; for (auto &a : c->args()) if (a->getType()->isPointerTy()) { auto *u = getUnderlyingObject(a.get()); if (isa<AllocaInst>(u)) exposed.insert(u); }
			// a local whose address is kept in memory is exposed to every call
			for (auto &x : e.m) if (x.second.b.node) { auto *r = rootOf(x.second.b.node); if (r && isa<AllocaInst>(r) && ndv[x.second.b.node].base == 0) exposed.insert(r); }
			map<Cell, MV> before; if (spares) before = e.m;
			if (f && !f->isDeclaration()) kill(e, c, modset[f], exposed, false); else if (f) { if (!exposed.empty()) kill(e, c, {"*"}, exposed, false); }
			else { set<string> ks; for (auto *t : byType[c->getFunctionType()]) ks.insert(modset[t].begin(), modset[t].end()); kill(e, c, ks, exposed, false); }
			if (spares) { vector<Cell> drop; for (auto &x : e.m) if (spares(x.first, args)) { auto i = before.find(x.first); if (i != before.end()) x.second = i->second; else drop.push_back(x.first); } for (auto &x : drop) e.m.erase(x); } }
		if (stream && f && f->getName() == "ferror") { B b; b.v = NZ(); b.v.t = true; e.b[c] = b; }
		if (c == subst) { B b; b.v = substV; e.b[c] = b; }
		return true;
	}
	void prune(Env &e, const BasicBlock *b) {
		auto &lv = I.live[b]; for (auto i = e.b.begin(); i != e.b.end();) if (!lv.count(i->first)) i = e.b.erase(i); else ++i;
		set<const Value *> refs; auto ref = [&](int n) { if (n) { auto *r = rootOf(n); if (r) refs.insert(r); } }; for (auto &x : e.b) ref(x.second.node); for (auto &x : e.m) ref(x.second.b.node);
		auto keep = [&](int n) { auto *r = rootOf(n); return !r || isa<Argument>(r) || isa<AllocaInst>(r) || isa<GlobalValue>(r) || lv.count(r) || refs.count(r); };
		auto &ld = I.loads[b]; set<int> held; for (auto &x : e.b) held.insert(x.second.node); for (auto &x : e.m) held.insert(x.second.b.node);
		auto useful = [&](int n) { auto &d = ndv[n]; if (!d.base || held.count(n) || (d.havoc && ((uintptr_t) d.havoc & 1))) return true; auto k = cellKey.find({d.base, d.off}); return k == cellKey.end() || ld.count(k->second) > 0; };
		for (auto i = e.m.begin(); i != e.m.end();) { auto *r = rootOf(i->first.first); bool flag = i->second.own && r && isa<Argument>(r); auto *vr = i->second.b.node ? rootOf(i->second.b.node) : nullptr; bool addr = vr && isa<AllocaInst>(vr) && !ndv[i->second.b.node].base;
			if (tracked && i->second.b.node == tracked) { ++i; continue; } if (!keep(i->first.first) || (!flag && !addr && i->second.key != "flag" && !ld.count(i->second.key))) i = e.m.erase(i); else ++i; }
		for (auto i = e.f.begin(); i != e.f.end();) if (tracked && i->first == tracked) ++i; else if (!keep(i->first) || !useful(i->first)) i = e.f.erase(i); else ++i;
	}
	std::unordered_set<uint64_t> vis; std::deque<pair<const BasicBlock *, Env>> q;
	void enter(const BasicBlock *from, const BasicBlock *to, Env e) {
		vector<pair<const Value *, B>> ph; for (auto &p : to->phis()) ph.push_back({&p, eval(e, p.getIncomingValueForBlock(from))});
		for (auto &x : ph) redefine(e, x.first); for (auto &x : ph) { B b = x.second; if (b.v.k == 1 || b.node) { if (b.node && ment(b.node, x.first)) continue; if (b.off > 128 || b.off < -128) continue; if (b.node && ndv[b.node].depth >= 3) { b.node = 0; b.off = 0; if (b.v.k == 0) continue; } if (lean && x.first->getType()->isIntegerTy() && b.v.k != 1) continue; e.b[x.first] = b; } }
		prune(e, to); if (getenv("FDEBUG") && nameOf(F) == getenv("FDEBUG")) { static map<const BasicBlock *, int> cnt; if (++cnt[to] % 500 == (getenv("FALL") ? cnt[to] % 500 : 3)) { errs() << "BLK " << loc(to->getTerminator()) << " n=" << cnt[to] << "\n"; auto pn = [&](auto &&self, int n) -> string { if (!n) return "-"; auto &d = ndv[n]; string r; if (d.base) { auto k = cellKey.find({d.base, d.off}); r = "[" + self(self, d.base) + "+" + std::to_string(d.off) + (k == cellKey.end() ? "" : ":" + k->second) + "]"; } else if (d.ssa) { r = d.ssa->hasName() ? d.ssa->getName().str() : isa<Instruction>(d.ssa) ? "i" + loc(cast<Instruction>(d.ssa)) : "?"; } if (d.havoc) r += "'"; return r; };
			for (auto &x : e.b) errs() << "  b " << (isa<Instruction>(x.first) ? loc(cast<Instruction>(x.first)) : x.first->getName().str()) << " " << *x.first << " = " << pn(pn, x.second.node) << "+" << x.second.off << " v" << (int) x.second.v.k << ":" << x.second.v.c << "\n"; for (auto &x : e.f) errs() << "  f " << pn(pn, x.first) << " v" << (int) x.second.k << ":" << x.second.c << "\n"; for (auto &x : e.m) errs() << "  m " << pn(pn, x.first.first) << "+" << x.first.second << " = " << pn(pn, x.second.b.node) << " v" << (int) x.second.b.v.k << ":" << x.second.b.v.c << (x.second.own ? " own" : "") << "\n"; } } uint64_t h = hashE(e, to); h = H(h, e.lost * 4 + e.dt * 2 + e.cs); if (!vis.insert(h).second) return; if (vis.size() > cap) { over = true; return; } q.push_back({to, std::move(e)});
	}
	void from(const BasicBlock *b, const Instruction *start, Env e) {
		for (const Instruction *in = start; in; in = in->getNextNode()) { steps++; if (isa<PHINode>(in)) continue;
			if (auto *r = dyn_cast<ReturnInst>(in)) { Val v; if (r->getReturnValue()) { B x = eval(e, r->getReturnValue()); v = x.v; if (x.off && v.k == 1) v = Val(); } onRet(r, e, v); return; }
			if (isa<UnreachableInst>(in)) return;
			if (in->isTerminator()) break; if (in == target) { if (hitSeen.insert(hashE(e, in)).second) { hits.push_back(e); if (hits.size() > 300) { over = true; return; } } } if (tracked && event(b, in, e)) return; if (!exec(e, in)) return; }
		auto *t = b->getTerminator();
		if (auto *br = dyn_cast<BranchInst>(t)) { if (!br->isConditional()) { enter(b, br->getSuccessor(0), e); return; } B c = eval(e, br->getCondition());
			if (c.v.k == 1) { bool dt = c.v.t; e.dt = dt; enter(b, br->getSuccessor(c.v.c ? 0 : 1), e); return; }
			e.dt = false; if (consults(e, br->getCondition())) e.cs = true; for (int i = 0; i < 2; i++) { Env n = e; refine(n, br->getCondition(), i == 0); enter(b, br->getSuccessor(i), std::move(n)); } return; }
		if (auto *sw = dyn_cast<SwitchInst>(t)) { B c = eval(e, sw->getCondition()); e.dt = false; if (c.v.k == 1) { const BasicBlock *d = sw->getDefaultDest(); for (auto &k : sw->cases()) if (k.getCaseValue()->getSExtValue() == c.v.c) d = k.getCaseSuccessor(); enter(b, d, e); return; } set<const BasicBlock *> s(succ_begin(b), succ_end(b)); for (auto *x : s) enter(b, x, e); return; }
		for (auto *s : successors(b)) enter(b, s, e);
	}
	void run() { while (!q.empty() && !over) { auto x = std::move(q.front()); q.pop_front(); from(x.first, &x.first->front(), std::move(x.second)); } }
	Env seed(const Instruction *at) {
		Env e; auto *n = I.dt.getNode(at->getParent()); vector<const BasicBlock *> chain; for (; n && n->getIDom(); n = n->getIDom()) chain.push_back(n->getBlock());
		for (auto i = chain.rbegin(); i != chain.rend(); ++i) { auto *b = *i; auto *id = I.dt.getNode(b)->getIDom()->getBlock(); auto *br = dyn_cast<BranchInst>(id->getTerminator()); if (!br || !br->isConditional()) continue;
			for (int s = 0; s < 2; s++) if (I.dt.dominates(BasicBlockEdge(id, br->getSuccessor(s)), at->getParent()) && br->getSuccessor(0) != br->getSuccessor(1)) refine(e, br->getCondition(), s == 0); }
		return e;
	}
	void startAfter(const Instruction *c, Env e) { from(c->getParent(), c->getNextNode(), std::move(e)); run(); }
};
std::function<bool(const Function *, unsigned)> Walk::nullDeref; std::function<Val(const Function *, const set<std::tuple<unsigned, int64_t, Val>> &)> Walk::flagIn;
std::function<Val(const Function *, const vector<B> &)> Walk::argIn;
std::function<bool(const Function *, unsigned, int64_t)> Walk::needsCell;
