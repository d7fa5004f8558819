// pta: inclusion-based, field-sensitive, flow-insensitive points-to analysis of a linked LLVM module.
//   pta LIB.bc OUT.json const SPEC      one solution per function: SPEC lines "FUNC mask" (bits: which parameters are read-only);
//                                       reports every instruction that may write to, or free, memory reachable from them
//   pta LIB.bc OUT.json whole ROOTS     one solution from all ROOTS (most general client: parameters of type T* may be anything
//                                       a root returns as T*); reports objects, contents, release sites, call graph, global writes
#include <set>
#include "noret.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/ADT/SparseBitVector.h"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <fstream>
#include <sstream>
#include <functional>
#include <deque>
using namespace llvm;
using std::map; using std::set; using std::vector; using std::string; using std::pair;
namespace J = llvm::json;
typedef SparseBitVector<> BV;

enum Kind { HEAP, STACK, GLOB, FUNC, RO, RW, EXT };
static const char *kname[] = {"heap", "stack", "global", "func", "ro", "rw", "ext"};
struct Obj { Kind k; const Value *v; string fam; const Instruction *ctx; string name; bool coll; };

static const DataLayout *DL; static Module *M;
static set<const Function *> wrappers;        // return a fresh block of their own: cloned by call site
static set<string> famF = {"f_malloc", "f_calloc", "f_realloc"};

static string loc(const Value *v) {
	if (auto *I = dyn_cast<Instruction>(v)) { if (auto &d = I->getDebugLoc()) return d->getFilename().str() + ":" + std::to_string(d.getLine()); }
	return "";
}

static string fnOf(const Instruction *I) {
	if (auto *l = I->getDebugLoc().get()) if (auto *s = dyn_cast_or_null<DILocalScope>(l->getScope())) if (auto *sp = s->getSubprogram()) return sp->getName().str();
	return I->getFunction()->getName().str();
}
struct Solver {
	vector<Obj> objs; map<pair<const Value *, const Instruction *>, int> objId;
	vector<pair<int, int64_t>> locs; map<pair<int, int64_t>, int> locId;
	vector<map<int64_t, int>> fields;           // obj -> offset -> node
	map<const Value *, int> valNode; map<const Function *, int> retNode; map<const Function *, int> vaNode;
	vector<BV> pts, todo; vector<vector<int>> copy; vector<set<int>> copySet;
	struct C { enum { LOAD, STORE, GEP, CPY, CALL, CPYSRC } t; int other; int64_t off; const CallBase *cb; StructType *ty = nullptr; };
	vector<vector<C>> cons; std::deque<int> wl; vector<char> inwl;
	set<const Function *> reach; std::deque<const Function *> fq;
	map<const Function *, set<const Function *>> cg; map<const CallBase *, set<const Function *>> callees; map<const Function *, set<string>> extcalls;
	vector<pair<int, int>> bothCpy; // (dst,src) memcpy pairs
	int extNode = -1; int maxOff = 1 << 12; bool dropHeapGlob = false;

	int newNode() { pts.emplace_back(); todo.emplace_back(); copy.emplace_back(); copySet.emplace_back(); cons.emplace_back(); inwl.push_back(0); return pts.size() - 1; }
	int mkObj(Kind k, const Value *v, const Instruction *ctx, string fam, string name, bool coll = false) {
		auto key = std::make_pair(v, ctx); if (v) { auto i = objId.find(key); if (i != objId.end()) return i->second; }
		objs.push_back({k, v, fam, ctx, name, coll}); fields.emplace_back(); int id = objs.size() - 1; if (v) objId[key] = id;
		if (coll) { int n = fld(id, 0); addPts(n, locOf(id, 0)); }
		return id;
	}
	int locOf(int o, int64_t off) {
		if (objs[o].coll) off = 0; if (off < 0 || off > maxOff) off = 0;
		auto k = std::make_pair(o, off); auto i = locId.find(k); if (i != locId.end()) return i->second;
		locs.push_back(k); return locId[k] = locs.size() - 1;
	}
	int fld(int o, int64_t off) {
		if (objs[o].coll) off = 0; if (off < 0 || off > maxOff) off = 0;
		auto i = fields[o].find(off); if (i != fields[o].end()) return i->second;
		int n = newNode(); fields[o][off] = n; onNewField(o, off, n); return n;
	}
	void push(int n) { if (!inwl[n]) { inwl[n] = 1; wl.push_back(n); } }
	// provenance of read-only memory, for explaining a report
	map<pair<int, int>, int> prov; bool why = false; 
	void note(int from, int to, const BV &d) { if (!why) return; for (unsigned l : d) if (objs[locs[l].first].k == RO && !pts[to].test(l)) prov[{to, (int)l}] = from; }
	void addPts(int n, int l) { if (!pts[n].test(l)) { pts[n].set(l); todo[n].set(l); push(n); } }
	void flow(int to, const BV &d) {
		if (!isFilt.count(to)) { if (pts[to] |= d) { todo[to] |= d; push(to); } return; }
		for (unsigned l : d) if (!isGlobLoc(l)) addPts(to, l);
	}
	void addCopy(int from, int to) { if (from == to || !copySet[from].insert(to).second) return; copy[from].push_back(to); note(from, to, pts[from]); BV d = pts[from]; flow(to, d); }
	void addCons(int n, C c) { cons[n].push_back(c); if (!pts[n].empty()) { todo[n] |= pts[n]; push(n); } }
	// memcpy: object-to-object links, applied to present and future fields of the source
	struct Link { int dst; int64_t delta, lo, hi; }; vector<vector<Link>> links; set<std::tuple<int, int, int64_t, int64_t>> linkSeen;
	void onNewField(int o, int64_t off, int n) { if ((int)links.size() > o) for (size_t i = 0; i < links[o].size(); i++) { auto l = links[o][i]; if (off >= l.lo && off < l.hi) addCopy(n, fld(l.dst, off + l.delta)); } }
	void link(int src, int64_t so, int dst, int64_t dof, int64_t size) {
		if (src == dst && so == dof) return;
		if (!linkSeen.insert({src, dst, dof - so, so}).second) return;
		if ((int)links.size() <= src) links.resize(src + 1);
		Link l{dst, dof - so, objs[src].coll ? 0 : so, size < 0 ? INT64_MAX : so + size}; links[src].push_back(l);
		vector<pair<int64_t, int>> fs(fields[src].begin(), fields[src].end());
		for (auto &f : fs) if (f.first >= l.lo && f.first < l.hi) addCopy(f.second, fld(dst, f.first + l.delta));
	}
	int constant(const Constant *c) {
		auto i = valNode.find(c); if (i != valNode.end()) return i->second;
		int n = newNode(); valNode[c] = n;
		if (auto *F = dyn_cast<Function>(c)) { addPts(n, locOf(mkObj(FUNC, F, nullptr, "", F->getName().str()), 0)); return n; }
		if (auto *G = dyn_cast<GlobalVariable>(c)) { int o = globalObj(G); addPts(n, locOf(o, 0)); return n; }
		if (auto *GA = dyn_cast<GlobalAlias>(c)) { addCopy(constant(GA->getAliasee()), n); return n; }
		if (auto *CE = dyn_cast<ConstantExpr>(c)) {
			if (auto *GO = dyn_cast<GEPOperator>(CE)) { gep(GO, n); return n; }
			for (auto &op : CE->operands()) if (auto *oc = dyn_cast<Constant>(op)) addCopy(constant(oc), n);
			return n;
		}
		if (isa<ConstantAggregate>(c)) for (auto &op : c->operands()) if (auto *oc = dyn_cast<Constant>(op)) addCopy(constant(oc), n);
		return n;
	}
	int globalObj(const GlobalVariable *G) {
		auto i = objId.find({G, nullptr}); if (i != objId.end()) return i->second;
		int o = mkObj(GLOB, G, nullptr, "", G->getName().str());
		if (G->hasInitializer()) init(o, 0, G->getInitializer());
		return o;
	}
	void init(int o, int64_t off, const Constant *c) {
		if (c->isNullValue() || isa<UndefValue>(c) || isa<ConstantData>(c)) return;
		if (c->getType()->isPointerTy()) { addCopy(constant(c), fld(o, off)); return; }
		if (auto *st = dyn_cast<StructType>(c->getType())) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) init(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); }
		else if (auto *at = dyn_cast<ArrayType>(c->getType())) for (uint64_t i = 0; i < at->getNumElements(); i++) init(o, off, c->getAggregateElement(i));
	}
	int val(const Value *v) {
		if (auto *c = dyn_cast<Constant>(v)) return constant(c);
		auto i = valNode.find(v); if (i != valNode.end()) return i->second;
		return valNode[v] = newNode();
	}
	int ret(const Function *F) { auto i = retNode.find(F); if (i != retNode.end()) return i->second; return retNode[F] = newNode(); }
	void gep(const GEPOperator *g, int n) {
		int64_t off = 0; bool first = true;
		for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
			auto *ci = dyn_cast<ConstantInt>(gi.getOperand());
			if (StructType *st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(ci->getZExtValue());
			else if (first && ci && ci->getSExtValue() >= 4 && g->getSourceElementType()->isIntegerTy(8)) off += ci->getSExtValue();
			first = false;
		}
		int b = val(g->getPointerOperand());
		auto *st = g->getNumIndices() >= 2 ? dyn_cast<StructType>(g->getSourceElementType()) : nullptr;
		if (off == 0 && !st) addCopy(b, n); else addCons(b, {C::GEP, n, off, nullptr, st});
	}
	// a local or global of known structure type is not accessed as another: callbacks receive their own kind of context only
	static string base(StructType *t) { if (!t->hasName()) return ""; string n = t->getName().str(); size_t p = n.rfind('.'); if (p != string::npos && p > 6 && n.find_first_not_of("0123456789", p + 1) == string::npos) n = n.substr(0, p); return n; }
	bool contains(Type *t, StructType *u) {
		if (auto *a = dyn_cast<ArrayType>(t)) return contains(a->getElementType(), u);
		auto *s = dyn_cast<StructType>(t); if (!s) return false;
		if (s == u || base(s) == base(u) || base(s).substr(0, 5) == "union") return true;
		for (auto *e : s->elements()) if (contains(e, u)) return true; return false;
	}
	map<pair<int, StructType *>, bool> tyOk;
	bool typeOk(int o, StructType *u) {
		if (!u || !objs[o].v) return true; auto k = std::make_pair(o, u); auto i = tyOk.find(k); if (i != tyOk.end()) return i->second;
		Type *t = nullptr; if (objs[o].k == STACK) { if (auto *a = dyn_cast<AllocaInst>(objs[o].v)) t = a->getAllocatedType(); } else if (objs[o].k == GLOB) t = cast<GlobalVariable>(objs[o].v)->getValueType();
		bool ok = true; if (t) { Type *e = t; while (auto *a = dyn_cast<ArrayType>(e)) e = a->getElementType(); if (isa<StructType>(e) && !cast<StructType>(e)->isLiteral()) ok = contains(t, u); }
		return tyOk[k] = ok;
	}
	bool hasPtr(Type *t) { if (t->isPointerTy()) return true; if (auto *s = dyn_cast<StructType>(t)) { for (auto *e : s->elements()) if (hasPtr(e)) return true; } if (auto *a = dyn_cast<ArrayType>(t)) return hasPtr(a->getElementType()); return false; }
	void ptrOffs(Type *t, int64_t off, vector<int64_t> &o) {
		if (t->isPointerTy()) o.push_back(off);
		if (auto *s = dyn_cast<StructType>(t)) for (unsigned i = 0; i < s->getNumElements(); i++) ptrOffs(s->getElementType(i), off + DL->getStructLayout(s)->getElementOffset(i), o);
		if (auto *a = dyn_cast<ArrayType>(t)) ptrOffs(a->getElementType(), off, o);
	}
	// the contents of a heap field less pointers to variables of static storage duration
	map<int, int> filt; std::set<int> isFilt;
	int filtered(int n) { auto i = filt.find(n); if (i != filt.end()) return i->second; int m = newNode(); filt[n] = m; isFilt.insert(m); addCopy(n, m); return m; }
	bool isGlobLoc(int l) { auto &b = objs[locs[l].first]; return b.k == GLOB; }
	void addFn(const Function *F) { if (F->isDeclaration() || !reach.insert(F).second) return; fq.push_back(F); }
	int heap(const CallBase *cb, const char *fam) { return mkObj(HEAP, cb, nullptr, fam, loc(cb)); }
	void extCall(const CallBase *cb, const Function *F) {
		StringRef n = F->getName(); auto A = [&](unsigned i) { return val(cb->getArgOperand(i)); };
		unsigned na = cb->arg_size(); int r = cb->getType()->isPointerTy() ? val(cb) : -1;
		extcalls[cb->getFunction()].insert(n.str());
		if (n == "malloc" || n == "calloc" || n == "strdup" || n == "strndup" || n == "aligned_alloc") { addPts(r, locOf(heap(cb, "libc"), 0)); return; }
		if (n == "realloc" || n == "reallocarray") { addPts(r, locOf(heap(cb, "libc"), 0)); addCopy(A(0), r); return; }
		if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove") {
			int64_t sz = -1; if (auto *ci = dyn_cast<ConstantInt>(cb->getArgOperand(2))) sz = ci->getSExtValue();
			cpy(A(0), A(1), sz); if (r >= 0) addCopy(A(0), r); return; }
		if (n == "memset" || n == "strcpy" || n == "strncpy" || n == "strcat" || n == "fgets" || n == "strchr" || n == "strrchr" || n == "strstr" || n == "memchr" || n == "strpbrk") { if (r >= 0) addCopy(A(0), r); return; }
		if (n == "qsort" && na >= 4) { callback(cb, A(3), {A(0), A(0)}); return; }
		if (n == "qsort_r") { callback(cb, A(3), {A(0), A(0), A(4)}); return; }
		if (n == "bsearch" && na >= 5) { if (r >= 0) addCopy(A(1), r); callback(cb, A(4), {A(0), A(1)}); return; }
		if (n == "pthread_create") { callback(cb, A(2), {A(3)}); return; }
		if (n.starts_with("llvm.")) return;
		if (r >= 0) addPts(r, locOf(mkObj(EXT, cb, nullptr, "", n.str(), true), 0));
	}
	struct CB { const CallBase *cb; vector<int> args; }; vector<CB> cbs;
	void callback(const CallBase *cb, int fp, vector<int> args) { cbs.push_back({cb, args}); addCons(fp, {C::CALL, (int)cbs.size() - 1, 1, cb}); }
	void cpy(int d, int s, int64_t sz) { int k = bothCpy.size(); bothCpy.push_back({d, s}); addCons(d, {C::CPY, k, sz, nullptr}); addCons(s, {C::CPYSRC, k, sz, nullptr}); }
	void bindCall(const CallBase *cb, const Function *F) {
		if (!callees[cb].insert(F).second) return;
		cg[cb->getFunction()].insert(F);
		StringRef n = F->getName();
		if (famF.count(n.str()) && cb->getType()->isPointerTy()) {
			int o = heap(cb, "f"); addPts(val(cb), locOf(o, 0)); if (n == "f_realloc") addCopy(val(cb->getArgOperand(1)), val(cb)); extcalls[cb->getFunction()].insert(n.str()); return; }
		if (n == "f_free") { extcalls[cb->getFunction()].insert("f_free"); return; }
		if (F->isDeclaration()) { extCall(cb, F); return; }
		addFn(F);
		if (wrappers.count(F) && cb->getType()->isPointerTy()) { addPts(val(cb), locOf(mkObj(HEAP, cb, nullptr, wrapFam(F), loc(cb)), 0)); }
		else if (hasPtr(cb->getType())) addCopy(ret(F), val(cb));
		unsigned i = 0;
		for (auto &a : F->args()) { if (i < cb->arg_size()) bindArg(cb->getArgOperand(i), &a, cb, i); i++; }
		if (F->isVarArg()) for (; i < cb->arg_size(); i++) {}
	}
	map<const Function *, string> wfam; string wrapFam(const Function *F) { return wfam[F]; }
	void bindArg(const Value *act, const Argument *f, const CallBase *cb, unsigned i) {
		if (!hasPtr(act->getType())) { return; }
		if (f->hasByValAttr()) { int o = mkObj(STACK, f, nullptr, "", "byval"); addPts(val(f), locOf(o, 0)); cpy(val(f), val(act), -1); return; }
		addCopy(val(act), val(f));
	}
	void call(const CallBase *cb) {
		const Value *t = cb->getCalledOperand()->stripPointerCasts();
		if (auto *F = dyn_cast<Function>(t)) { bindCall(cb, F); return; }
		if (isa<InlineAsm>(t)) return;
		addCons(val(t), {C::CALL, -1, 0, cb});
	}
	void process(const Function *F) {
		for (const Instruction &I : instructions(F)) {
			switch (I.getOpcode()) {
			case Instruction::Alloca: addPts(val(&I), locOf(mkObj(STACK, &I, nullptr, "", loc(&I)), 0)); break;
			case Instruction::GetElementPtr: gep(cast<GEPOperator>(&I), val(&I)); break;
			case Instruction::Load: {
				vector<int64_t> os; ptrOffs(I.getType(), 0, os);
				for (auto o : os) addCons(val(I.getOperand(0)), {C::LOAD, val(&I), o, nullptr}); break; }
			case Instruction::Store: {
				vector<int64_t> os; ptrOffs(I.getOperand(0)->getType(), 0, os);
				for (auto o : os) addCons(val(I.getOperand(1)), {C::STORE, val(I.getOperand(0)), o, nullptr}); break; }
			case Instruction::PHI: if (hasPtr(I.getType())) for (auto &u : I.operands()) addCopy(val(u), val(&I)); break;
			case Instruction::Select: if (hasPtr(I.getType())) { addCopy(val(I.getOperand(1)), val(&I)); addCopy(val(I.getOperand(2)), val(&I)); } break;
			case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: case Instruction::ExtractValue:
				if (hasPtr(I.getType()) || true) addCopy(val(I.getOperand(0)), val(&I)); break;
			case Instruction::IntToPtr: case Instruction::PtrToInt: addCopy(val(I.getOperand(0)), val(&I)); break;
			case Instruction::InsertValue: addCopy(val(I.getOperand(0)), val(&I)); addCopy(val(I.getOperand(1)), val(&I)); break;
			case Instruction::Or: case Instruction::And: case Instruction::Add: case Instruction::Sub: // tagged pointers
				for (auto &u : I.operands()) if (!isa<Constant>(u)) addCopy(val(u), val(&I)); break;
			case Instruction::Ret: if (I.getNumOperands() && hasPtr(I.getOperand(0)->getType())) addCopy(val(I.getOperand(0)), ret(F)); break;
			case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(&I)); break;
			default: break;
			}
		}
	}
	string nodeName(int n) {
		for (auto &v : valNode) if (v.second == n) { string s; raw_string_ostream o(s); v.first->print(o); const Function *f = nullptr; if (auto *I = dyn_cast<Instruction>(v.first)) f = I->getFunction(); if (auto *A = dyn_cast<Argument>(v.first)) f = A->getParent(); return (f ? f->getName().str() : "") + ": " + s.substr(0, 100) + " " + loc(v.first); }
		for (auto &v : retNode) if (v.second == n) return "ret " + v.first->getName().str();
		for (size_t o = 0; o < fields.size(); o++) for (auto &f : fields[o]) if (f.second == n) return string("field ") + kname[objs[o].k] + " " + objs[o].name + " +" + std::to_string(f.first);
		return "?";
	}
	void explain(int n, int l) { for (int i = 0; i < 40; i++) { errs() << "   " << nodeName(n) << "\n"; auto p = prov.find({n, l});
			const LoadInst *li = nullptr; for (auto &v : valNode) if (v.second == n) li = dyn_cast<LoadInst>(v.first);
			if (li && pts[val(li->getPointerOperand())].test(l)) { n = val(li->getPointerOperand()); continue; }
			if (p == prov.end()) break; n = p->second; } }
	void solve() {
		for (;;) {
			while (!fq.empty()) { auto *F = fq.front(); fq.pop_front(); process(F); }
			if (wl.empty()) break;
			int n = wl.front(); wl.pop_front(); inwl[n] = 0;
			BV d; d = todo[n]; todo[n].clear();
			for (size_t ci = 0; ci < cons[n].size(); ci++) {
				C c = cons[n][ci];
				for (unsigned l : d) {
					auto [o, off] = locs[l];
					switch (c.t) {
					case C::LOAD: if (objs[o].k != FUNC) addCopy(dropHeapGlob && objs[o].k == HEAP ? filtered(fld(o, off + c.off)) : fld(o, off + c.off), c.other); break;
					case C::STORE: if (objs[o].k != FUNC && objs[o].k != RO && objs[o].k != EXT) addCopy(c.other, fld(o, off + c.off)); break;
					case C::GEP: { if (!typeOk(o, c.ty)) break; int gl = locOf(o, off + c.off); if (why && objs[o].k == RO && !pts[c.other].test(gl)) prov[{c.other, gl}] = n; addPts(c.other, gl); break; }
					case C::CPY: case C::CPYSRC: {
						auto [dn, sn] = bothCpy[c.other]; BV other = c.t == C::CPY ? pts[sn] : pts[dn];
						for (unsigned m : other) { int dl = c.t == C::CPY ? l : m, sl = c.t == C::CPY ? m : l; if (objs[locs[dl].first].k == RO || objs[locs[dl].first].k == FUNC || objs[locs[dl].first].k == EXT) continue; link(locs[sl].first, locs[sl].second, locs[dl].first, locs[dl].second, c.off); }
						break; }
					case C::CALL:
						if (objs[o].k == FUNC) {
							auto *F = cast<Function>(objs[o].v);
							if (c.off == 1) { auto cb = cbs[c.other]; cg[cb.cb->getFunction()].insert(F); addFn(F); unsigned i = 0; for (auto &a : F->args()) { if (i < cb.args.size() && a.getType()->isPointerTy()) addCopy(cb.args[i], val(&a)); i++; } }
							else if (F->arg_size() == c.cb->arg_size() || F->isVarArg()) bindCall(c.cb, F);
						} else if ((objs[o].k == RO || objs[o].k == RW || objs[o].k == EXT)) { // a caller-supplied function
							if (c.off != 1) { extcalls[c.cb->getFunction()].insert("<callback>"); if (c.cb->getType()->isPointerTy()) addPts(val(c.cb), locOf(mkObj(EXT, c.cb, nullptr, "", "callback", true), 0)); }
						}
						break;
					}
				}
			}
			for (size_t i = 0; i < copy[n].size(); i++) { int t = copy[n][i]; note(n, t, d); flow(t, d); }
		}
	}
};
// functions whose only pointer result is a block allocated in them, which they do not store anywhere else
static void findWrappers() {
	for (auto &F : *M) {
		if (F.isDeclaration() || !F.getReturnType()->isPointerTy() || famF.count(F.getName().str())) continue;
		const CallBase *alloc = nullptr; bool ok = true; unsigned n = 0;
		std::function<void(const Value *, int)> walk = [&](const Value *v, int d) {
			if (d > 8 || !ok) { ok = false; return; }
			if (isa<ConstantPointerNull>(v)) return;
			if (auto *p = dyn_cast<PHINode>(v)) { for (auto &u : p->operands()) if (u != v) walk(u, d + 1); return; }
			if (auto *c = dyn_cast<CallBase>(v)) { auto *G = c->getCalledFunction(); if (G && (famF.count(G->getName().str()) || G->getName() == "malloc" || G->getName() == "calloc" || G->getName() == "realloc")) { alloc = c; n++; return; } }
			ok = false;
		};
		for (auto &I : instructions(F)) if (auto *r = dyn_cast<ReturnInst>(&I)) walk(r->getReturnValue(), 0);
		if (!ok || n != 1 || !alloc) continue;
		unsigned sz = 0; for (auto &I : instructions(F)) { sz++; if (auto *c = dyn_cast<CallBase>(&I)) if (c != alloc && c->getCalledFunction() && !c->getCalledFunction()->getName().starts_with("llvm.")) { StringRef nm = c->getCalledFunction()->getName(); if (nm != "perror" && nm != "exit" && nm != "abort" && nm != "__assert_fail" && nm != "fprintf") ok = false; } if (isa<StoreInst>(I)) ok = false; }
		if (ok && sz < 60) wrappers.insert(&F);
	}
}
static set<string> extWrites0 = {"memset", "strcpy", "strncpy", "strcat", "strncat", "memcpy", "memmove", "fgets", "fread", "qsort", "snprintf", "sprintf", "vsnprintf", "vsprintf", "qsort_r"};
// the write is not reached when its target is this global: the branches on the target's fields, taken with the values
// the global is initialised to (nothing else writes to it: any other write is reported itself), lead elsewhere
static bool baseOff(const Value *p, const Value *&b, int64_t &off) { APInt o(64, 0); b = p->stripAndAccumulateConstantOffsets(*DL, o, true); off = o.getSExtValue(); return true; }
static bool excluded(const Instruction *I, const Value *ptr, const GlobalVariable *G) {
	if (!G->hasInitializer()) return false; const Value *b; int64_t off; baseOff(ptr, b, off); if (isa<Constant>(b)) return false;
	auto field = [&](const Value *v, APInt &out) -> bool {
		while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0);
		auto *l = dyn_cast<LoadInst>(v); if (!l || !l->getType()->isIntegerTy()) return false; const Value *b2; int64_t o2; baseOff(l->getPointerOperand(), b2, o2); if (b2 != b) return false;
		auto *k = dyn_cast_or_null<ConstantInt>(ConstantFoldLoadFromConst(const_cast<Constant *>(G->getInitializer()), l->getType(), APInt(64, o2), *DL)); if (!k) return false; out = k->getValue(); return true; };
	set<const BasicBlock *> seen; vector<const BasicBlock *> st{&I->getFunction()->getEntryBlock()};
	while (!st.empty()) { auto *B = st.back(); st.pop_back(); if (!seen.insert(B).second) continue; if (B == I->getParent()) return false;
		auto *T = B->getTerminator(); APInt v;
		if (auto *sw = dyn_cast<SwitchInst>(T)) { if (field(sw->getCondition(), v)) { const BasicBlock *to = sw->getDefaultDest(); for (auto &c : sw->cases()) if (c.getCaseValue()->getValue() == v.zextOrTrunc(c.getCaseValue()->getBitWidth())) to = c.getCaseSuccessor(); st.push_back(to); continue; } }
		else if (auto *br = dyn_cast<BranchInst>(T)) if (br->isConditional()) if (auto *ic = dyn_cast<ICmpInst>(br->getCondition())) if (ic->isEquality()) if (auto *k = dyn_cast<ConstantInt>(ic->getOperand(1))) if (field(ic->getOperand(0), v)) { bool eq = k->getValue() == v.zextOrTrunc(k->getBitWidth()); if (ic->getPredicate() == ICmpInst::ICMP_NE) eq = !eq; st.push_back(br->getSuccessor(eq ? 0 : 1)); continue; }
		for (auto *n : successors(B)) st.push_back(n);
	}
	return true;
}
struct Mod { const Instruction *I; string what; set<int> objs; };
static vector<Mod> mods(Solver &S) {
	vector<Mod> r;
	for (auto *F : S.reach) for (const Instruction &I : instructions(F)) {
		auto add = [&](const Value *p, string what) { Mod m{&I, what, {}}; for (unsigned l : S.pts[S.val(p)]) { int o = S.locs[l].first; if (S.dropHeapGlob && S.objs[o].k == GLOB) { if (cast<GlobalVariable>(S.objs[o].v)->isConstant() || excluded(&I, p, cast<GlobalVariable>(S.objs[o].v))) continue; } m.objs.insert(o); } if (!m.objs.empty()) r.push_back(m); };
		if (auto *st = dyn_cast<StoreInst>(&I)) add(st->getPointerOperand(), "writes");
		else if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) add(rmw->getPointerOperand(), "writes");
		else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) add(cx->getPointerOperand(), "writes");
		else if (auto *cb = dyn_cast<CallBase>(&I)) {
			auto *G = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if (!G) continue; StringRef n = G->getName();
			if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n.starts_with("llvm.memset")) add(cb->getArgOperand(0), "writes");
			else if (G->isDeclaration() && extWrites0.count(n.str())) add(cb->getArgOperand(0), "writes (" + n.str() + ")");
			else if (n == "free" && G->isDeclaration()) add(cb->getArgOperand(0), "frees");
			else if (n == "realloc" && G->isDeclaration()) add(cb->getArgOperand(0), "resizes");
			else if (n == "f_free") add(cb->getArgOperand(1), "frees");
			else if (n == "f_realloc") add(cb->getArgOperand(1), "resizes");
			else if (n == "strtol" || n == "strtoul" || n == "strtoull") add(cb->getArgOperand(1), "writes");
			else if (n == "getline" || n == "time") add(cb->getArgOperand(0), "writes");
		}
	}
	return r;
}
static DISubroutineType *sig(const Function *F) { auto *sp = F->getSubprogram(); return sp ? sp->getType() : nullptr; }
static const DIType *strip(const DIType *t, bool &isconst) {
	while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { auto tag = d->getTag(); if (tag == dwarf::DW_TAG_const_type) isconst = true; if (tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_volatile_type || tag == dwarf::DW_TAG_restrict_type) t = d->getBaseType(); else break; }
	return t;
}
// pointee type name and constness of a pointer type; "" when not a pointer
static string ptee(const DIType *t, bool &c) {
	bool x = false; t = strip(t, x); auto *d = dyn_cast_or_null<DIDerivedType>(t); if (!d || d->getTag() != dwarf::DW_TAG_pointer_type) return "";
	c = false; auto *b = strip(d->getBaseType(), c); if (!b) return "void"; if (isa<DISubroutineType>(b)) return "fn";
	if (auto *bd = dyn_cast<DIDerivedType>(b)) if (bd->getTag() == dwarf::DW_TAG_pointer_type) { bool cc; string in = ptee(b, cc); return in + "*"; }
	return b->getName().empty() ? "?" : b->getName().str();
}
static vector<pair<string, bool>> params(const Function *F) {
	vector<pair<string, bool>> r; auto *s = sig(F); if (!s) return r; auto a = s->getTypeArray();
	for (unsigned i = 1; i < a.size(); i++) { bool c = false; string n = ptee(a[i], c); r.push_back({n, c}); }
	return r;
}
static string retType(const Function *F) { auto *s = sig(F); if (!s || s->getTypeArray().size() == 0 || !s->getTypeArray()[0]) return ""; bool c; return ptee(s->getTypeArray()[0], c); }
static string where(const Function *F) { auto *sp = F->getSubprogram(); return sp ? sp->getFilename().str() + ":" + std::to_string(sp->getLine()) : ""; }

// small functions are expanded where they are called, innermost first: the analysis then tells their callers apart
static int64_t expanded = 0;
static void expand() {
	CallGraph CG(*M); vector<Function *> order; set<Function *> rec; 
	for (auto i = scc_begin(&CG); !i.isAtEnd(); ++i) for (auto *n : *i) if (auto *F = n->getFunction()) { order.push_back(F); if (i.hasCycle()) rec.insert(F); }
	auto size = [](Function *F) { unsigned n = 0; for (auto &I : instructions(*F)) { (void) I; n++; } return n; };
	map<Function *, unsigned> sz; for (auto *F : order) sz[F] = F->isDeclaration() ? 0 : size(F);
	for (auto *F : order) {
		if (F->isDeclaration()) continue;
		vector<CallBase *> cs; for (auto &I : instructions(*F)) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *G = c->getCalledFunction()) if (!G->isDeclaration() && G != F && !rec.count(G) && !G->isVarArg() && !famF.count(G->getName().str()) && G->getName() != "f_free" && sz[G] <= 100) cs.push_back(c);
		for (auto *c : cs) { if (sz[F] > 8000) break; sz[F] += sz[c->getCalledFunction()]; InlineFunctionInfo ifi; if (InlineFunction(*c, ifi).isSuccess()) expanded++; }
	}
}
static bool loopHead(const BasicBlock *B) { return false; }
static string guard(const ICmpInst *ic, std::function<string(const Value *, int)> &origin) {
	string a = origin(ic->getOperand(0), 0), b = origin(ic->getOperand(1), 0); string o = a.substr(0, 4) == "call" ? a : b.substr(0, 4) == "call" ? b : a;
	if (isa<ConstantPointerNull>(ic->getOperand(1))) return "null:" + o;
	bool k = isa<ConstantInt>(ic->getOperand(1)) || isa<ConstantInt>(ic->getOperand(0));
	if (ic->isEquality()) return (k ? "eqconst:" : "eq:") + o;
	return (k ? "relconst:" : "rel:") + o;
}
int main(int argc, char **argv) {
	LLVMContext ctx; SMDiagnostic err; auto MM = parseIRFile(argv[1], err, ctx); if (!MM) { err.print(argv[0], errs()); return 2; }
	M = MM.get(); DL = &M->getDataLayout(); if (!strcmp(argv[3], "ends")) inlineNoReturn(*M);
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); FP.addPass(PromotePass()); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA); }
	if (!strcmp(argv[3], "const")) expand();
	findWrappers();
	std::error_code ec; raw_fd_ostream O(argv[2], ec); std::ifstream in(argv[4]); string mode = argv[3];
	J::Object out;
	if (mode == "sigs") {
		for (auto &F : *M) if (!F.isDeclaration()) { J::Array ps; for (auto &p : params(&F)) ps.push_back(J::Array{p.first, p.second}); out[F.getName()] = J::Object{{"params", std::move(ps)}, {"ret", retType(&F)}, {"where", where(&F)}, {"local", F.hasLocalLinkage()}, {"nargs", (int64_t)F.arg_size()}}; }
		O << J::Value(std::move(out)) << "\n"; return 0;
	}
	if (mode == "ends") {   // what decides whether each process-ending call is made
		static set<string> enders = {"exit", "_exit", "_Exit", "quick_exit", "abort", "err", "errx", "verr", "verrx", "raise", "kill", "longjmp", "__assert_fail", "pthread_exit", "error", "execve", "execvp"};
		J::Array sites;
		std::function<string(const Value *, int)> origin = [&](const Value *v, int d) -> string {
			if (d > 6) return "value"; if (auto *c = dyn_cast<CastInst>(v)) return origin(c->getOperand(0), d + 1);
			if (auto *c = dyn_cast<CallBase>(v)) { auto *G = c->getCalledFunction(); return G && G->isIntrinsic() ? "value" : "call:" + (G ? G->getName().str() : string("*")); }
			if (auto *ph = dyn_cast<PHINode>(v)) { string r = "value"; for (auto &u : ph->operands()) { string o = origin(u, d + 3); if (o.substr(0, 4) == "call") r = o; } return r; }
			if (isa<Argument>(v)) return "argument"; return "value"; };
		for (auto &F : *M) for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *G = cb->getCalledFunction()) if (G->isDeclaration() && enders.count(G->getName().str())) {
			set<string> gs; set<const BasicBlock *> seen; bool constant = false;
			std::function<void(const BasicBlock *)> up = [&](const BasicBlock *B) {
				if (!seen.insert(B).second) return; if (B == &F.getEntryBlock()) { gs.insert("always"); return; }
				for (auto *P : predecessors(B)) { auto *T = P->getTerminator();
					if (isa<SwitchInst>(T)) { gs.insert("switch"); continue; }
					auto *br = dyn_cast<BranchInst>(T); if (!br) { gs.insert("other"); continue; }
					if (!br->isConditional()) { if (!loopHead(P)) up(P); else gs.insert("loop"); continue; }
					auto *cnd = br->getCondition(); if (isa<Constant>(cnd)) { constant = true; up(P); continue; }
					if (isa<PHINode>(cnd)) { gs.insert("compound"); for (auto &u : cast<PHINode>(cnd)->operands()) if (auto *ic = dyn_cast<ICmpInst>(u)) gs.insert(guard(ic, origin)); continue; }
					if (auto *ic = dyn_cast<ICmpInst>(cnd)) gs.insert(guard(ic, origin)); else if (auto *t = dyn_cast<TruncInst>(cnd)) gs.insert("bool:" + origin(t->getOperand(0), 0)); else gs.insert("bool:" + origin(cnd, 0));
				}
			};
			up(I.getParent()); J::Array g; for (auto &x : gs) g.push_back(x);
			sites.push_back(J::Object{{"fn", F.getName()}, {"callee", G->getName()}, {"at", loc(&I)}, {"guards", std::move(g)}, {"constant", constant}, {"file", F.getSubprogram() ? F.getSubprogram()->getFilename() : ""}});
		}
		out["sites"] = std::move(sites); O << J::Value(std::move(out)) << "\n"; return 0;
	}
	if (mode == "const") {
		string name; string mask; 
		while (in >> name >> mask) {
			auto *F = M->getFunction(name); if (!F || F->isDeclaration()) { out[name] = nullptr; continue; }
			Solver S; for (auto *w : wrappers) S.wfam[w] = "w";
			S.addFn(F); unsigned i = 0;
			// parameters are mapped by position: debug-info parameters and IR arguments agree unless a struct is passed by value in pieces
			for (auto &a : F->args()) {
				bool ro = i < mask.size() && mask[i] == '1';
				if (a.getType()->isPointerTy()) { int o = S.mkObj(ro ? RO : RW, &a, nullptr, "", a.getName().str(), true); S.addPts(S.val(&a), S.locOf(o, 0)); }
				i++;
			}
			S.why = getenv("PTA_WHY") != nullptr;
			S.solve();
			if (S.why) { int k = 0; for (auto &m : mods(S)) for (int o : m.objs) if (S.objs[o].k == RO && k++ < 3) { errs() << name << " " << loc(m.I) << "\n"; const Value *p = isa<StoreInst>(m.I) ? cast<StoreInst>(m.I)->getPointerOperand() : cast<CallBase>(m.I)->getArgOperand(0); S.explain(S.val(p), S.locOf(o, 0)); } }
			J::Array ms; int64_t stores = 0;
			for (auto &m : mods(S)) { stores++; for (int o : m.objs) { bool g = S.objs[o].k == GLOB && !cast<GlobalVariable>(S.objs[o].v)->isConstant(); if (S.objs[o].k == RO || g) ms.push_back(J::Object{{"fn", fnOf(m.I)}, {"at", loc(m.I)}, {"what", m.what}, {"obj", S.objs[o].name}, {"kind", kname[S.objs[o].k]}}); } }
			set<string> ext; for (auto *f : S.reach) for (auto &e : S.extcalls[f]) ext.insert(e);
			J::Array ea; for (auto &e : ext) ea.push_back(e);
			bool fresh = false; if (F->getReturnType()->isPointerTy()) for (unsigned l : S.pts[S.ret(F)]) if (S.objs[S.locs[l].first].k == HEAP) fresh = true;
			out[name] = J::Object{{"mods", std::move(ms)}, {"fresh", fresh}, {"functions", (int64_t)S.reach.size()}, {"stores", stores}, {"ext", std::move(ea)}, {"where", where(F)}};
		}
		O << J::Value(std::move(out)) << "\n"; return 0;
	}
	if (mode == "whole" || mode == "globals") {
		Solver S; S.dropHeapGlob = mode == "globals"; vector<const Function *> roots; string name; while (in >> name) if (auto *F = M->getFunction(name)) if (!F->isDeclaration()) roots.push_back(F);
		for (auto *w : wrappers) S.wfam[w] = "";
		for (auto *w : wrappers) for (auto &I : instructions(w)) if (auto *c = dyn_cast<CallBase>(&I)) if (c->getCalledFunction()) { StringRef n = c->getCalledFunction()->getName(); if (famF.count(n.str())) S.wfam[w] = "f"; else if (n == "malloc" || n == "calloc" || n == "realloc") S.wfam[w] = "libc"; }
		map<string, vector<const Function *>> byRet; for (auto *F : roots) { string t = retType(F); if (!t.empty() && t != "char" && t != "void") byRet[t].push_back(F); }
		for (auto *F : roots) {
			S.addFn(F); auto ps = params(F); unsigned i = 0;
			for (auto &a : F->args()) {
				if (a.getType()->isPointerTy()) {
					string t = i < ps.size() ? ps[i].first : "";
					if (byRet.count(t)) for (auto *G : byRet[t]) S.addCopy(S.ret(G), S.val(&a));
					else { int o = S.mkObj(RW, &a, nullptr, "", F->getName().str() + "#" + std::to_string(i), false); S.addPts(S.val(&a), S.locOf(o, 0)); }
				}
				i++;
			}
		}
		S.solve();
		// what no root reaches, with opaque arguments
		int64_t reached = S.reach.size();
		if (mode == "globals") for (auto &F : *M) if (!F.isDeclaration() && !S.reach.count(&F)) { S.addFn(&F); unsigned i = 0; for (auto &a : F.args()) { if (a.getType()->isPointerTy()) { int o = S.mkObj(RW, &a, nullptr, "", F.getName().str() + "#" + std::to_string(i), false); S.addPts(S.val(&a), S.locOf(o, 0)); } i++; } S.solve(); }
		out["reached"] = reached;
		auto allmods = mods(S);
		J::Array os; for (size_t o = 0; o < S.objs.size(); o++) { auto &b = S.objs[o]; J::Array fs; for (auto &f : S.fields[o]) { J::Array t; set<int> ss; for (unsigned l : S.pts[f.second]) ss.insert(S.locs[l].first); for (int x : ss) t.push_back(x); if (!ss.empty()) fs.push_back(J::Array{f.first, std::move(t)}); }
			string fn; if (auto *I = dyn_cast_or_null<Instruction>(b.v)) fn = I->getFunction()->getName().str();
			os.push_back(J::Object{{"k", kname[b.k]}, {"fam", b.fam}, {"name", b.name}, {"fn", fn}, {"const", b.k == GLOB && cast<GlobalVariable>(b.v)->isConstant()}, {"fields", std::move(fs)}}); }
		J::Array ms; for (auto &m : allmods) { J::Array t; for (int o : m.objs) t.push_back(o); ms.push_back(J::Object{{"fn", fnOf(m.I)}, {"at", loc(m.I)}, {"what", m.what}, {"objs", std::move(t)}, {"callee", isa<CallBase>(m.I) && cast<CallBase>(m.I)->getCalledFunction() ? cast<CallBase>(m.I)->getCalledFunction()->getName() : StringRef("")}}); }
		J::Object cgj; for (auto &c : S.cg) { J::Array t; for (auto *g : c.second) t.push_back(g->getName()); cgj[c.first->getName()] = std::move(t); }
		J::Object ex; for (auto &c : S.extcalls) { J::Array t; for (auto &g : c.second) t.push_back(g); ex[c.first->getName()] = std::move(t); }
		J::Array sites; for (auto *F : S.reach) for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *G = cb->getCalledFunction()) if (G->isDeclaration() && !G->getName().starts_with("llvm.")) sites.push_back(J::Array{F->getName(), G->getName(), loc(&I)});
		J::Object pp; for (auto *F : S.reach) { J::Array ps; auto dp = params(F); unsigned i = 0; for (auto &a : F->args()) { J::Array t; if (a.getType()->isPointerTy()) { set<int> ss; for (unsigned l : S.pts[S.val(&a)]) if (S.locs[l].second == 0) ss.insert(S.locs[l].first); for (int x : ss) t.push_back(x); } ps.push_back(J::Array{i < dp.size() ? dp[i].first : "", std::move(t)}); i++; } pp[F->getName()] = J::Object{{"where", where(F)}, {"params", std::move(ps)}, {"local", F->hasLocalLinkage()}}; }
		out["objs"] = std::move(os); out["mods"] = std::move(ms); out["cg"] = std::move(cgj); out["ext"] = std::move(ex); out["sites"] = std::move(sites); out["fns"] = std::move(pp);
		O << J::Value(std::move(out)) << "\n"; return 0;
	}
	return 2;
}
