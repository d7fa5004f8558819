// ids: values that identify states, end ids, outputs and captures, followed over SSA form to every conversion to a type too small for them.
//   ids LIB.bc OUT.json BITS TYPE...      (TYPE: a typedef, or STRUCT.FIELD)
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/LazyValueInfo.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
#include <deque>
using namespace llvm; using std::map; using std::set; using std::string; namespace J = llvm::json;
static string loc(const Instruction *I) { if (auto &d = I->getDebugLoc()) return d->getFilename().str() + ":" + std::to_string(d.getLine()); return ""; }
static string nameOf(const Function *F) { return F->getSubprogram() ? F->getSubprogram()->getName().str() : F->getName().str(); }
static string fileOf(const Function *F) { return F->getSubprogram() ? F->getSubprogram()->getFilename().str() : ""; }
static set<string> types; static const DataLayout *DL;
// 0 no, 1 an id, 2 a pointer to ids
static int idType(const DIType *t) { int ptr = 0; while (t) { auto *d = dyn_cast<DIDerivedType>(t); if (!d) { if (auto *a = dyn_cast<DICompositeType>(t)) if (a->getTag() == dwarf::DW_TAG_array_type) { ptr++; t = a->getBaseType(); continue; } return 0; } if (d->getTag() == dwarf::DW_TAG_typedef && types.count(d->getName().str())) return ptr == 0 ? 1 : ptr == 1 ? 2 : 0; if (d->getTag() == dwarf::DW_TAG_pointer_type) ptr++; t = d->getBaseType(); } return 0; }
static map<string, map<uint64_t, int>> fields; static map<string, map<uint64_t, string>> fnames; static map<string, set<uint64_t>> others; static set<string> named;
static void flat(const string &s, const DICompositeType *ct, uint64_t base, int depth) { for (auto *e : ct->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) { if (m->getTag() != dwarf::DW_TAG_member) continue; uint64_t o = base + m->getOffsetInBits() / 8; int k = idType(m->getBaseType()); if (types.count(s + "." + m->getName().str())) k = 1; if (k) fields[s][o] = k; else { auto *bt = m->getBaseType(); while (auto *d = dyn_cast_or_null<DIDerivedType>(bt)) { if (d->getTag() == dwarf::DW_TAG_pointer_type) break; bt = d->getBaseType(); } if (!isa_and_nonnull<DICompositeType>(bt)) others[s].insert(o); } if (!m->getName().empty()) fnames[s].insert({o, m->getName().str()});
	const DIType *b = m->getBaseType(); while (auto *d = dyn_cast_or_null<DIDerivedType>(b)) { if (d->getTag() == dwarf::DW_TAG_pointer_type) { b = nullptr; break; } b = d->getBaseType(); } if (auto *c = dyn_cast_or_null<DICompositeType>(b)) if (depth < 4 && (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type)) flat(s, c, o, depth + 1); } }
static string sname(StructType *st) { string n = st->hasName() ? st->getName().str() : ""; if (n.rfind("struct.", 0) == 0) n = n.substr(7); else if (n.rfind("union.", 0) == 0) n = n.substr(6); size_t p = n.rfind('.'); if (p != string::npos && n.find_first_not_of("0123456789", p + 1) == string::npos) n = n.substr(0, p); return n; }
static map<const Value *, int> K; static map<const Value *, string> why; static std::deque<const Value *> work;
static void mark(const Value *v, int k, const string &w) { if (isa<Constant>(v) || isa<MetadataAsValue>(v)) return; auto *t = v->getType(); if (k == 1 && !(t->isIntegerTy() && t->getIntegerBitWidth() >= 24)) return; if (k == 2 && !t->isPointerTy()) return; auto &x = K[v]; if (x) return; x = k; why[v] = w; work.push_back(v); }
// what a pointer to a member points at
static int memberKind(const Value *p, string &nm) {
	p = p->stripPointerCasts(); auto i = K.find(p); if (i != K.end() && i->second == 2) { nm = why[p]; return 1; }
	auto *g = dyn_cast<GEPOperator>(p); StructType *st = nullptr; uint64_t off = 0;
	if (g) { st = dyn_cast<StructType>(g->getSourceElementType()); if (st && g->getNumIndices() > 1) { Type *cur = st; unsigned n = 0; for (auto x = g->idx_begin(); x != g->idx_end(); ++x, ++n) { if (!n) continue; auto *ci = dyn_cast<ConstantInt>(x->get()); if (auto *s2 = dyn_cast<StructType>(cur)) { if (!ci) return 0; off += DL->getStructLayout(s2)->getElementOffset(ci->getZExtValue()); cur = s2->getElementType(ci->getZExtValue()); } else if (auto *a = dyn_cast<ArrayType>(cur)) cur = a->getElementType(); } } else st = nullptr; }
	else if (auto *a = dyn_cast<AllocaInst>(p)) st = dyn_cast<StructType>(a->getAllocatedType());
	if (!st) return 0; string s = sname(st);
	// a struct inside another: described by the outermost, since identical unnamed ones share a type here
	for (int n = 0; g && n < 6; n++) { auto *h = dyn_cast<GEPOperator>(g->getPointerOperand()->stripPointerCasts()); if (!h) break; auto *s2 = dyn_cast<StructType>(h->getSourceElementType()); APInt a(64, 0); if (!s2 || h->getNumIndices() < 2 || !fnames.count(sname(s2))) break; Type *cur = s2; bool okk = true; uint64_t o2 = 0; unsigned q = 0; for (auto x = h->idx_begin(); x != h->idx_end(); ++x, ++q) { if (!q) continue; auto *ci = dyn_cast<ConstantInt>(x->get()); if (auto *s3 = dyn_cast<StructType>(cur)) { if (!ci) { okk = false; break; } o2 += DL->getStructLayout(s3)->getElementOffset(ci->getZExtValue()); cur = s3->getElementType(ci->getZExtValue()); } else { okk = false; break; } } if (!okk) break; off += o2; s = sname(s2); g = h; }
	if (others[s].count(off)) return 0; auto f = fields.find(s); if (f == fields.end()) return 0; auto o = f->second.find(off); if (o == f->second.end()) return 0; nm = s + "." + fnames[s][off]; return o->second; }
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic er; auto M = parseIRFile(argv[1], er, X); if (!M) { er.print("ids", errs()); return 2; } DL = &M->getDataLayout(); unsigned bits = atoi(argv[3]); for (int i = 4; i < argc; i++) types.insert(argv[i]);
	PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA, CG, MA);
	{ FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA); }
	DebugInfoFinder D; D.processModule(*M); for (auto *t : D.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if ((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) && !c->getName().empty()) flat(c->getName().str(), c, 0, 0);
	map<const Function *, int> retK; int64_t nsrc = 0;
	for (auto &F : *M) { if (auto *sp = F.getSubprogram()) { auto el = sp->getType()->getTypeArray(); for (unsigned i = 0; i < el.size() && i <= F.arg_size(); i++) { int k = idType(el[i]); if (!k) continue; if (i == 0) retK[&F] = k; else mark(F.getArg(i - 1), k, nameOf(&F) + "()'s parameter"); } } }
	for (auto &F : *M) for (auto &B : F) for (auto &I : B) {
		if (auto *dv = dyn_cast<DbgValueInst>(&I)) { int k = idType(dv->getVariable()->getType()); if (k && dv->getNumVariableLocationOps() == 1 && dv->getExpression()->getNumElements() == 0) if (auto *v = dv->getVariableLocationOp(0)) if (!isa<Constant>(v)) mark(v, k, dv->getVariable()->getName().str()); }
		else if (auto *dd = dyn_cast<DbgDeclareInst>(&I)) { int k = idType(dd->getVariable()->getType()); if (k && dd->getAddress()) mark(dd->getAddress(), 2, dd->getVariable()->getName().str()); }
		else if (auto *l = dyn_cast<LoadInst>(&I)) { string n; int k = memberKind(l->getPointerOperand(), n); if (k) mark(l, k, n); } }
	nsrc = K.size();
	do { while (!work.empty()) { auto *v = work.front(); work.pop_front(); int k = K[v]; string w = why[v];
		for (auto *u : v->users()) { auto *in = dyn_cast<Instruction>(u); if (!in) continue;
			if (auto *l = dyn_cast<LoadInst>(in)) { if (k == 2 && l->getPointerOperand() == v) mark(l, 1, w); }
			else if (isa<GetElementPtrInst>(in)) { auto *g = cast<GetElementPtrInst>(in); if (k == 2 && g->getPointerOperand() == v && !g->getSourceElementType()->isStructTy()) mark(g, 2, w); }
			else if (isa<PHINode>(in) || isa<SelectInst>(in)) { if (!isa<SelectInst>(in) || cast<SelectInst>(in)->getCondition() != v) mark(in, k, w); }
			else if (isa<ZExtInst>(in) || isa<SExtInst>(in) || isa<BitCastInst>(in)) mark(in, k, w);
			else if (isa<TruncInst>(in)) { if (k == 1 && in->getType()->getIntegerBitWidth() >= bits) mark(in, k, w); }
			else if (auto *b = dyn_cast<BinaryOperator>(in)) { if (k == 1 && (b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub)) mark(in, 1, w); }
			else if (auto *ic = dyn_cast<ICmpInst>(in)) { if (k == 1 && !ic->isEquality()) { auto *o = ic->getOperand(0) == v ? ic->getOperand(1) : ic->getOperand(0); mark(o, 1, w + ", compared with it"); if (auto *z = dyn_cast<CastInst>(o)) mark(z->getOperand(0), 1, w + ", compared with it"); } }
			else if (auto *c = dyn_cast<CallBase>(in)) { auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); if (f && !f->isDeclaration()) for (unsigned i = 0; i < c->arg_size() && i < f->arg_size(); i++) if (c->getArgOperand(i) == v) mark(f->getArg(i), k, w + ", given to " + nameOf(f) + "()"); }
			else if (isa<ReturnInst>(in)) { auto *F = const_cast<Function *>(in->getFunction()); if (!retK[F]) retK[F] = k; } } }
	  for (auto &r : retK) if (r.second) for (auto *u : r.first->users()) if (auto *c = dyn_cast<CallBase>(u)) if (c->getCalledOperand() == r.first) mark(c, r.second, nameOf(r.first) + "()");
	} while (!work.empty());
	J::Array out; int64_t conv = 0, fit = 0, cmpn = 0;
	for (auto &F : *M) { if (F.isDeclaration()) continue; auto &LVI = FA.getResult<LazyValueAnalysis>(F);
		for (auto &B : F) for (auto &I : B) { const Value *src = nullptr; unsigned tw = 0; const char *how = "";
			if (auto *t = dyn_cast<TruncInst>(&I)) { auto i = K.find(t->getOperand(0)); if (i == K.end() || i->second != 1) continue; tw = t->getType()->getIntegerBitWidth(); if (tw == 1 || tw >= bits) continue; src = t->getOperand(0); how = "converted to a type"; }
			else if (auto *b = dyn_cast<BinaryOperator>(&I); b && b->getOpcode() == Instruction::Shl) { // packed beside something else
				auto i = K.find(b->getOperand(0)); auto *c = dyn_cast<ConstantInt>(b->getOperand(1)); if (i == K.end() || i->second != 1 || !c || c->getValue().ult(8) || b->getType()->getIntegerBitWidth() > bits) continue; tw = bits - c->getZExtValue(); src = b->getOperand(0); how = "shifted, leaving room"; }
			else if (auto *b = dyn_cast<BinaryOperator>(&I)) { // a bit-field: masked, and joined with its neighbours
				auto i = K.find(b->getOperand(0)); if (b->getOpcode() != Instruction::And || i == K.end() || i->second != 1) continue; auto *m = dyn_cast<ConstantInt>(b->getOperand(1)); if (!m || !m->getValue().isMask()) continue; tw = m->getValue().countr_one(); if (tw >= bits) continue; bool joined = false; std::deque<const Value *> q{b}; for (int n = 0; !q.empty() && n < 8; n++) { auto *x = q.front(); q.pop_front(); for (auto *u : x->users()) { if (auto *bo = dyn_cast<BinaryOperator>(u)) { if (bo->getOpcode() == Instruction::Shl && bo->getOperand(0) == x) q.push_back(bo); else if (bo->getOpcode() == Instruction::Or && !isa<Constant>(bo->getOperand(0)) && !isa<Constant>(bo->getOperand(1))) for (auto *u2 : bo->users()) if (isa<StoreInst>(u2)) joined = true; } } } if (!joined && (tw < 7 || tw > 30)) continue; src = b->getOperand(0); how = joined ? "stored in a bit-field" : "masked"; }
			else if (auto *ic = dyn_cast<ICmpInst>(&I)) { // a counter too small for the bound it is compared with
				if (ic->isEquality()) continue; cmpn++; for (int o = 0; o < 2; o++) { auto *z = dyn_cast<CastInst>(ic->getOperand(o)); auto i = K.find(ic->getOperand(1 - o)); if (!z || isa<Constant>(ic->getOperand(1 - o)) || i == K.end() || i->second != 1 || !z->getSrcTy()->isIntegerTy() || z->getSrcTy()->getIntegerBitWidth() >= bits || z->getSrcTy()->isIntegerTy(1) || !isa<PHINode>(z->getOperand(0))) continue; if (why[ic->getOperand(1 - o)].find("compared") != string::npos) continue; src = ic->getOperand(1 - o); tw = z->getSrcTy()->getIntegerBitWidth(); how = "the bound of a counter of a type"; } if (!src) continue; }
			else continue;
			conv++; auto cr = LVI.getConstantRange(const_cast<Value *>(src), &I, true); if (tw < cr.getBitWidth() && (cr.getUnsignedMax().getActiveBits() <= tw || cr.getSignedMin().sge(APInt::getSignedMinValue(tw).sext(cr.getBitWidth())) && cr.getSignedMax().sle(APInt::getSignedMaxValue(tw).sext(cr.getBitWidth())))) { fit++; continue; }
			out.push_back(J::Object{{"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"where", loc(&I)}, {"bits", (int64_t) tw}, {"how", how}, {"what", why[src]}}); } }
	std::error_code ec; raw_fd_ostream O(argv[2], ec); O << J::Value(J::Object{{"reports", std::move(out)}, {"sources", nsrc}, {"values", (int64_t) K.size()}, {"conversions", conv}, {"fit", fit}, {"comparisons", cmpn}}) << "\n"; return 0;
}
