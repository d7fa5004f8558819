// passes: loops over the elements of an array held by a structure or given as an argument; iterations; what callbacks that write return
//   passes LIB.bc OUT.json SPEC        SPEC: "writer FUNC" (what records something), "next FUNC" (what steps an iterator), "pure FUNC" (what only answers a question about its arguments)
#include <set>
#include <vector>
#include "noret.h"
#include "walk.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
static set<string> writers, nexts, pure;
static void noUse(const Instruction *, const char *, const Function *) {}
static const Value *peel(const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; }
static bool dead(const BasicBlock *b, int d = 0) { if (isa<UnreachableInst>(b->getTerminator())) return true; if (d > 4) return false; if (auto *u = b->getSingleSuccessor()) return dead(u, d + 1); return false; }
static bool plusC(const Value *v, const Value *iv, int64_t &c) { v = peel(v); if (v == iv) { c = 0; return true; } if (auto *o = dyn_cast<BinaryOperator>(v)) if (auto *k = dyn_cast<ConstantInt>(o->getOperand(1))) if (peel(o->getOperand(0)) == iv) { if (o->getOpcode() == Instruction::Add) { c = k->getSExtValue(); return true; } if (o->getOpcode() == Instruction::Sub) { c = -k->getSExtValue(); return true; } } return false; }
// the member: the innermost structure the address is in, and which of its members
static string memberOf(const Value *p) { auto *g = dyn_cast<GEPOperator>(p); if (!g) return keyOf(p); string k; vector<const Value *> ix(g->idx_begin(), g->idx_end()); Type *t = g->getSourceElementType(); if (auto *st = dyn_cast<StructType>(t)) if (ix.size() == 1) return memberOf(g->getPointerOperand()); for (size_t i = 1; i < ix.size(); i++) { if (auto *st = dyn_cast<StructType>(t)) { auto *c = dyn_cast<ConstantInt>(ix[i]); if (!c) return ""; if (st->hasName()) k = st->getName().str() + "#" + std::to_string(c->getZExtValue()); else k = "anon"; t = st->getElementType(c->getZExtValue()); } else if (auto *at = dyn_cast<ArrayType>(t)) t = at->getElementType(); } while (auto *st = dyn_cast<StructType>(t)) { if (!st->getNumElements()) break; k = st->hasName() ? st->getName().str() + "#0" : string("anon"); t = st->getElementType(0); } return k.empty() ? keyOf(p) : k; }
static string nm(const Value *v) { v = peel(v); if (auto *l = dyn_cast<LoadInst>(v)) return memberOf(l->getPointerOperand()); if (auto *a = dyn_cast<Argument>(v)) return "arg"; if (isa<CallBase>(v)) return "call " + (callee(cast<CallBase>(v)) ? callee(cast<CallBase>(v))->getName().str() : string("?")); if (isa<PHINode>(v)) return "phi"; if (auto *o = dyn_cast<BinaryOperator>(v)) return string(o->getOpcodeName()) + "(" + nm(o->getOperand(0)) + "," + nm(o->getOperand(1)) + ")"; if (auto *c = dyn_cast<ConstantInt>(v)) return std::to_string(c->getSExtValue()); if (isa<GlobalValue>(v)) return "global"; return "?"; }
// a number that is added to in the loop, other than its counter, says nothing of how the loop ended
static bool sums(const Loop *L, const Instruction *v, const Value *counter) { if (!v->getType()->isIntegerTy() || v->getType()->isIntegerTy(1)) return false; const PHINode *hd = nullptr; set<const Value *> seen; bool ok = true; std::function<void(const Value *)> go = [&](const Value *x) { if (!ok || !seen.insert(x).second) return; if (x == counter) { ok = false; return; } auto *p = dyn_cast<PHINode>(x); if (p) { if (p->getParent() == L->getHeader()) { if (hd && hd != p) { ok = false; return; } hd = p; } for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (L->contains(p->getIncomingBlock(i))) go(p->getIncomingValue(i)); return; } auto *o = dyn_cast<BinaryOperator>(x); if (!o || (o->getOpcode() != Instruction::Add && o->getOpcode() != Instruction::Or)) { ok = false; return; } auto *in = dyn_cast<Instruction>(o->getOperand(0)); auto *in1 = dyn_cast<Instruction>(o->getOperand(1)); bool a = in && (isa<PHINode>(in) || isa<BinaryOperator>(in)), b = in1 && (isa<PHINode>(in1) || isa<BinaryOperator>(in1)); if (a) go(in); else if (b) go(in1); else ok = false; }; go(v); return ok && hd; }
// a callback given to the function along with the pointer it is called with
static bool passesOn(const CallBase *c) { if (c->arg_size() < 2 || !isa<Argument>(peel(c->getCalledOperand()))) return false; for (auto &a : c->args()) if (a->getType()->isPointerTy() && isa<Argument>(peel(a.get()))) return true; return false; }
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic er; auto Mp = parseIRFile(argv[1], er, X); if (!Mp) { er.print("passes", errs()); return 2; } M = Mp.get(); DL = &M->getDataLayout(); inferNoReturn(*M); inlineParts(*M);
	{ std::ifstream f(argv[3]); string l; while (std::getline(f, l)) { std::istringstream s(l); string k, a; s >> k >> a; if (k == "writer") writers.insert(a); else if (k == "next") nexts.insert(a); else if (k == "pure") pure.insert(a); } }
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA_; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA_); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA_, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA_); }
	// functions that step an iterator, record something, or call back, directly or not; and those that can fail for want of memory
	set<const Function *> may; bool ch = true; while (ch) { ch = false; for (auto &F : *M) { if (may.count(&F)) continue; string n = F.getName().str(); bool y = writers.count(n) || nexts.count(n) || n == "f_malloc" || n == "f_calloc" || n == "f_realloc" || n == "malloc" || n == "calloc" || n == "realloc"; for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = callee(c); if (g ? may.count(g) : true) y = true; } if (y) { may.insert(&F); ch = true; } } }
	set<const Function *> releases; for (ch = true; ch;) { ch = false; for (auto &F : *M) { if (releases.count(&F)) continue; bool y = F.getName() == "free" || F.getName() == "f_free" || (F.isDeclaration() && F.getName().ends_with("_free")); for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) if (callee(c) && releases.count(callee(c))) y = true; if (y) { releases.insert(&F); ch = true; } } }
	set<const Function *> rec; for (ch = true; ch;) { ch = false; for (auto &F : *M) { if (rec.count(&F)) continue; bool y = writers.count(F.getName().str()); for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) { if (auto *g = callee(c)) if (rec.count(g)) y = true; for (auto &a : c->args()) if (auto *f = dyn_cast<Function>(peel(a.get()))) if (rec.count(f)) y = true; } if (y) { rec.insert(&F); ch = true; } } }
	// a value handed to something that records
	std::function<bool(const Value *, int)> recorded = [&](const Value *v, int d) { if (d > 6) return false; for (auto *u : v->users()) { if (auto *c = dyn_cast<CallBase>(u)) { if (auto *g = callee(c)) if (rec.count(g)) return true; for (auto &a : c->args()) if (auto *f = dyn_cast<Function>(peel(a.get()))) if (rec.count(f)) return true; } else if (isa<CastInst>(u) || isa<PHINode>(u)) if (recorded(u, d + 1)) return true; } return false; };
	J::Array lps, its, odd, lefts; int64_t nW = 0, nH = 0;
	for (auto &F : *M) { if (F.isDeclaration() || !F.getSubprogram()) continue; DominatorTree DT(F); LoopInfo LI(DT);
		for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = callee(c)) if (nexts.count(g->getName().str())) { bool outside = false; string ow; auto *L = LI.getLoopFor(&Bk); if (L && c->arg_size() > 1) if (auto *al = dyn_cast<AllocaInst>(peel(c->getArgOperand(1)))) { std::function<void(const Value *)> uses = [&](const Value *v) { for (auto *u : v->users()) { auto *ui = dyn_cast<Instruction>(u); if (!ui) continue; if (isa<GetElementPtrInst>(ui)) { uses(ui); continue; } if ((isa<LoadInst>(ui) || (isa<CallBase>(ui) && !isa<IntrinsicInst>(ui))) && !L->contains(ui) && !dead(ui->getParent()) && DT.dominates(c, ui)) { auto *oc = dyn_cast<CallBase>(ui); if (oc && callee(oc) && nexts.count(callee(oc)->getName().str())) continue; bool again = false; for (auto *u2 : v->users()) if (auto *c2 = dyn_cast<CallBase>(u2)) if (c2 != c && callee(c2) && nexts.count(callee(c2)->getName().str()) && DT.dominates(c2, ui)) again = true; if (!again) { if (oc ? recorded(v, 0) : recorded(ui, 0)) { outside = true; ow = loc(ui); } } } } }; uses(al); }
			its.push_back(J::Object{{"outside", outside}, {"used", ow}, {"where", loc(c)}, {"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"next", g->getName().str()}, {"loop", LI.getLoopFor(&Bk) != nullptr}}); }
		// loops that record something, or call back: they end when there are no more elements, or when a call has said so
		set<const Value *> escaped; for (auto &Bk : F) for (auto &I : Bk) if (isa<AllocaInst>(&I)) { std::function<bool(const Value *)> esc = [&](const Value *v) { for (auto *u : v->users()) { if (auto *c = dyn_cast<CallBase>(u)) { if (!isa<IntrinsicInst>(c)) return true; } else if (auto *st = dyn_cast<StoreInst>(u)) { if (st->getValueOperand() == v) return true; } else if (isa<GetElementPtrInst>(u) || isa<CastInst>(u)) { if (esc(u)) return true; } } return false; }; if (esc(&I)) escaped.insert(&I); }
		for (auto *L : LI.getLoopsInPreorder()) { bool writes = false; for (auto *b : L->blocks()) for (auto &I : *b) if (auto *c = dyn_cast<CallBase>(&I)) { auto *f = callee(c); if (f ? writers.count(f->getName().str()) : passesOn(c)) writes = true; } if (!writes) continue; nW++;
			bool probe = false; for (auto *b : L->blocks()) for (auto &I : *b) if (auto *o = dyn_cast<BinaryOperator>(&I)) if (o->getOpcode() == Instruction::And && !isa<Constant>(o->getOperand(1))) for (auto *u : o->users()) if (isa<GetElementPtrInst>(u)) probe = true; if (probe) continue;
			SmallVector<std::pair<BasicBlock *, BasicBlock *>, 8> ee; L->getExitEdges(ee); for (auto &x : ee) { if (dead(x.second)) continue; auto *t = x.first->getTerminator(); auto *br = dyn_cast<BranchInst>(t); string why;
				if (!br || !br->isConditional()) why = "other"; else { bool ok = false; std::function<void(const Value *, set<const Value *> &)> on = [&](const Value *v, set<const Value *> &seen) { if (ok || !seen.insert(v).second) return; if (auto *c = dyn_cast<CallBase>(v)) { if (L->contains(c) && (!callee(c) || may.count(callee(c)))) ok = true; return; } if (auto *l = dyn_cast<LoadInst>(v)) { if (escaped.count(getUnderlyingObject(l->getPointerOperand()))) ok = true; return; } if (auto *p = dyn_cast<PHINode>(v)) { if (!L->contains(p)) return; for (auto &o : p->incoming_values()) on(o.get(), seen); return; } if (auto *in = dyn_cast<Instruction>(v)) for (auto &o : in->operands()) on(o.get(), seen); };
					set<const Value *> seen; if (auto *ic = dyn_cast<ICmpInst>(br->getCondition())) for (auto &o : ic->operands()) { auto *v = peel(o.get()); int64_t c; for (auto &p : L->getHeader()->phis()) if (plusC(v, &p, c)) ok = true; } on(br->getCondition(), seen); if (!ok) why = "cond"; }
				if (!why.empty()) odd.push_back(J::Object{{"where", loc(t)}, {"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"why", why}}); } }
		// left early, with nothing to tell that from having gone through them all
				auto left = [&](const Loop *L, const Instruction *cnt, const Value *counter) -> string { string early; SmallVector<std::pair<BasicBlock *, BasicBlock *>, 8> ee; L->getExitEdges(ee); for (auto &x : ee) { if (dead(x.second) || x.first->getTerminator() == cnt) continue; const BasicBlock *n = x.second, *pr = x.first, *end = nullptr; for (auto &y : ee) if (y.first->getTerminator() == cnt) end = y.second; 
					auto plain = [&](const BasicBlock *b) { for (auto &I : *b) if (!I.isTerminator() && !isa<PHINode>(&I) && !isa<DbgInfoIntrinsic>(&I)) return false; return true; };
					// where the early exit and the end of the loop meet
					const BasicBlock *pe = cnt->getParent(); for (int i = 0; i < 3 && end != n; i++) { if (plain(n) && n->getSingleSuccessor() && !L->contains(n->getSingleSuccessor())) { pr = n; n = n->getSingleSuccessor(); } if (end != n && plain(end) && end->getSingleSuccessor()) { pe = end; end = end->getSingleSuccessor(); } }
					if (end != n) continue; bool tells = false; for (auto &ph : n->phis()) { int a = ph.getBasicBlockIndex(pr), b = ph.getBasicBlockIndex(pe); if (a < 0 || b < 0 || ph.getIncomingValue(a) != ph.getIncomingValue(b)) tells = true; else if (auto *iv = dyn_cast<Instruction>(ph.getIncomingValue(a))) if (L->contains(iv)) tells = true; }
					for (auto *b : L->blocks()) for (auto &I : *b) { bool out = false; for (auto *u : I.users()) if (auto *ui = dyn_cast<Instruction>(u)) if (!L->contains(ui) && !isa<PHINode>(ui)) out = true; if (out && !sums(L, &I, counter)) tells = true; }
					// because a call in the loop has said so, or because what follows has not been made yet and all that is done is to release
					bool frees = true; for (auto *b : L->blocks()) for (auto &I : *b) if (auto *c = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(c)) if (!callee(c) || !releases.count(callee(c))) frees = false;
					if (auto *br = dyn_cast<BranchInst>(x.first->getTerminator())) { if (!br->isConditional()) continue; set<const Value *> seen; std::function<void(const Value *)> on = [&](const Value *v) { if (tells || !seen.insert(v).second) return; if (auto *cc = dyn_cast<CallBase>(v)) { if (!callee(cc) || !pure.count(nameOf(callee(cc)))) tells = true; return; } if (auto *l = dyn_cast<LoadInst>(v)) { if (isa<AllocaInst>(getUnderlyingObject(l->getPointerOperand()))) tells = true; return; } if (isa<ConstantPointerNull>(v) && frees) { tells = true; return; } if (auto *in = dyn_cast<Instruction>(v)) if (L->contains(in)) for (auto &o : in->operands()) on(o.get()); }; on(br->getCondition()); } else if (auto *sw = dyn_cast<SwitchInst>(x.first->getTerminator())) { if (auto *cc = dyn_cast<CallBase>(peel(sw->getCondition()))) if (!callee(cc) || !pure.count(nameOf(callee(cc)))) tells = true; }
					if (!tells) early = loc(x.first->getTerminator()); } return early; };
		for (auto *L : LI.getLoopsInPreorder()) { auto *t = L->getHeader()->getTerminator(); bool ex = false; for (auto *s : successors(L->getHeader())) if (!L->contains(s)) ex = true; if (!ex) continue; string e = left(L, t, nullptr); bool it = false; for (auto &I : *L->getHeader()) if (auto *c = dyn_cast<CallBase>(&I)) if (callee(c) && nexts.count(callee(c)->getName().str())) it = true; if (auto *br = dyn_cast<BranchInst>(t)) if (br->isConditional()) if (auto *ic = dyn_cast<ICmpInst>(br->getCondition())) if (isa<ConstantPointerNull>(ic->getOperand(1))) if (auto *ph = dyn_cast<PHINode>(ic->getOperand(0))) if (ph->getParent() == L->getHeader()) { bool simple = true; for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) if (L->contains(ph->getIncomingBlock(k))) { auto *ld = dyn_cast<LoadInst>(ph->getIncomingValue(k)); auto *gp = ld ? dyn_cast<GetElementPtrInst>(ld->getPointerOperand()) : nullptr; if (!ld || (gp ? gp->getPointerOperand() : ld->getPointerOperand()) != ph) { simple = false; } } if (simple) it = true; } if (it) nH++; if (!e.empty()) lefts.push_back(J::Object{{"where", e}, {"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"iter", it}}); }
		for (auto *L : LI.getLoopsInPreorder()) { int exits = 0; SmallVector<std::pair<BasicBlock *, BasicBlock *>, 8> ee; L->getExitEdges(ee); vector<pair<const BranchInst *, const BasicBlock *>> xs; bool oddExit = false; for (auto &x : ee) if (!dead(x.second)) { exits++; auto *br = dyn_cast<BranchInst>(x.first->getTerminator()); if (br && br->isConditional()) xs.push_back({br, x.second}); else oddExit = true; }
			for (auto &p : L->getHeader()->phis()) { if (!p.getType()->isIntegerTy()) continue; auto *pre = L->getLoopPredecessor(), *lat = L->getLoopLatch(); if (!pre || !lat) continue; int64_t st; auto *next = p.getIncomingValueForBlock(lat); if (!plusC(next, &p, st)) continue; if (st <= 0) continue;
				// arrays stepped through
				set<string> arrays; bool neighbour = false, hashed = false; for (auto *b : L->blocks()) for (auto &I : *b) if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { for (auto &ix : g->indices()) { int64_t c; if (isa<Constant>(ix.get())) continue; if (plusC(ix.get(), &p, c)) { if (c) neighbour = true; else { auto *base = peel(g->getPointerOperand()); arrays.insert(nm(base) + "[]" + (g->getSourceElementType()->isStructTy() ? ((StructType *) g->getSourceElementType())->getName().str() : "")); } } } }
				int64_t fixed = -1; for (auto *b : L->blocks()) for (auto &I : *b) if (auto *g = dyn_cast<GetElementPtrInst>(&I)) if (auto *at = dyn_cast<ArrayType>(g->getSourceElementType())) if (g->getNumIndices() == 2) { int64_t c; if (!isa<Constant>(g->getOperand(2)) && plusC(g->getOperand(2), &p, c) && !c) fixed = at->getNumElements(); }
				for (auto *b : L->blocks()) for (auto &I : *b) if (auto *ic = dyn_cast<ICmpInst>(&I)) for (int k = 0; k < 2; k++) if (peel(ic->getOperand(k)) == &p) if (auto *q = dyn_cast<PHINode>(peel(ic->getOperand(1 - k)))) if (q != &p && L->contains(q)) neighbour = true;
				bool probing = false; for (auto *b : L->blocks()) for (auto &I : *b) if (auto *o = dyn_cast<BinaryOperator>(&I)) if ((o->getOpcode() == Instruction::And && !isa<Constant>(o->getOperand(1))) || o->getOpcode() == Instruction::URem) probing = true;
				// elements compared with, or moved to, another place of the same array
				for (auto *b : L->blocks()) for (auto &I : *b) if (auto *g = dyn_cast<GetElementPtrInst>(&I)) for (auto &ix : g->indices()) { int64_t c; if (isa<Constant>(ix.get()) || plusC(ix.get(), &p, c)) continue; if (auto *q = dyn_cast<PHINode>(peel(ix.get()))) if (LI.getLoopFor(q->getParent()) == L && q != &p && arrays.count(nm(peel(g->getPointerOperand())) + "[]" + (g->getSourceElementType()->isStructTy() ? ((StructType *) g->getSourceElementType())->getName().str() : ""))) neighbour = true; }
				const BranchInst *cnt = nullptr; string bound; int64_t limit = -1; bool shortB = false; for (auto &x : xs) if (auto *ic = dyn_cast<ICmpInst>(x.first->getCondition())) { auto *a = ic->getOperand(0), *b = ic->getOperand(1); int64_t c; bool strict = true; auto pr = ic->getPredicate(); strict = pr != CmpInst::ICMP_ULE && pr != CmpInst::ICMP_UGE && pr != CmpInst::ICMP_SLE && pr != CmpInst::ICMP_SGE; if (!plusC(a, &p, c)) { std::swap(a, b); if (!plusC(a, &p, c)) continue; } if (isa<ConstantInt>(b) || L->isLoopInvariant(b) || isa<LoadInst>(peel(b)) || isa<BinaryOperator>(peel(b)) || isa<CallBase>(peel(b))) { cnt = x.first; bound = nm(b); if (auto *kb = dyn_cast<ConstantInt>(b)) limit = kb->getSExtValue() + (strict ? 0 : 1) - (peel(a) == peel(next) ? 0 : c); if (peel(a) != peel(next) && c >= (strict ? 1 : 2)) shortB = true; if (strict) if (auto *o = dyn_cast<BinaryOperator>(peel(b))) if (auto *k = dyn_cast<ConstantInt>(o->getOperand(1))) if ((o->getOpcode() == Instruction::Sub && k->getSExtValue() > 0) || (o->getOpcode() == Instruction::Add && k->getSExtValue() < 0) || o->getOpcode() == Instruction::UDiv || o->getOpcode() == Instruction::LShr) shortB = true; } }
				if (!cnt) continue; auto *s0 = p.getIncomingValueForBlock(pre); string start = nm(s0); bool writes = false, indirect = false; for (auto *b : L->blocks()) for (auto &I : *b) if (auto *c = dyn_cast<CallBase>(&I)) { auto *f = callee(c); if (!f) indirect = true; else if (writers.count(f->getName().str())) writes = true; }
				// exits other than by the count, and what they depend on
				bool first = false, last = false; set<string> keys; for (auto &x : arrays) keys.insert(x.substr(0, x.find("[]"))); for (auto &Bk : F) for (auto &I : Bk) { if (auto *l = dyn_cast<LoadInst>(&I)) { if (!l->getType()->isPointerTy() || !keys.count(nm(l))) continue; for (auto *u : l->users()) { if (auto *ui = dyn_cast<Instruction>(u)) if (L->contains(ui)) continue; if (isa<LoadInst>(u) || (isa<StoreInst>(u) && cast<StoreInst>(u)->getPointerOperand() == l)) first = true; if (auto *g = dyn_cast<GetElementPtrInst>(u)) { auto *ix = g->getOperand(1); if (auto *k = dyn_cast<ConstantInt>(ix)) { if (k->isZero()) first = true; } else if (isa<BinaryOperator>(peel(ix)) || isa<LoadInst>(peel(ix))) last = true; } } } }
				string early = left(L, cnt, &p);
				if (fixed > 0) { set<const Value *> bases; for (auto *b : L->blocks()) for (auto &I : *b) if (auto *g = dyn_cast<GetElementPtrInst>(&I)) if (isa<ArrayType>(g->getSourceElementType())) bases.insert(getUnderlyingObject(g->getPointerOperand())); for (auto &Bk : F) if (!L->contains(&Bk)) for (auto &I : Bk) if (isa<LoadInst>(&I) || isa<StoreInst>(&I)) { auto *pt = getLoadStorePointerOperand(&I); auto *g = dyn_cast<GEPOperator>(pt); if ((g ? isa<ArrayType>(g->getSourceElementType()) && g->hasAllZeroIndices() : isa<AllocaInst>(pt) && cast<AllocaInst>(pt)->getAllocatedType()->isArrayTy()) && bases.count(getUnderlyingObject(pt))) first = true; } }
				J::Array ar; for (auto &a : arrays) ar.push_back(a);
				lps.push_back(J::Object{{"where", loc(cnt)}, {"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"start", start}, {"step", st}, {"bound", bound}, {"short", shortB}, {"neighbour", neighbour}, {"first", first}, {"last", last}, {"arrays", std::move(ar)}, {"exits", exits}, {"early", early}, {"fixed", fixed}, {"limit", limit}, {"probing", probing}, {"writes", writes}, {"indirect", indirect}}); } } }
	// a callback that has recorded what it was given asks for the next
	J::Array cbs; int64_t nCb = 0; Walk::nullDeref = [](const Function *, unsigned) { return false; }; Walk::flagIn = [](const Function *, const set<std::tuple<unsigned, int64_t, Val>> &) { return Val(); }; computeMod();
	for (auto &F : *M) { if (F.isDeclaration() || !F.hasAddressTaken() || !F.getReturnType()->isIntegerTy()) continue; for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = callee(c)) if (writers.count(g->getName().str()) && c->getType()->isIntegerTy()) { nCb++;
		struct CW : Walk { const CallBase *at; CW(const CallBase *c) : Walk(c->getFunction()), at(c) { onUse = noUse; tracked = ssaNode(c); } bool event(const BasicBlock *, const Instruction *in, Env &) override { auto *c = dyn_cast<CallBase>(in); return c && !isa<IntrinsicInst>(c) && c->getType()->isIntegerTy(); } } w(c);
		Env e = w.seed(c); B b; b.node = ssaNode(c); e.b[c] = b; e.f[b.node] = NZ(); bool bad = false; string where; w.onRet = [&](const ReturnInst *r, const Env &, Val v) { if (v.k == 1 && v.c == 0) { bad = true; where = loc(r); } }; w.startAfter(c, e);
		if (bad) cbs.push_back(J::Object{{"where", loc(c)}, {"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"writer", g->getName().str()}, {"ret", where}}); } }
	std::error_code ec; raw_fd_ostream O(argv[2], ec); O << J::Value(J::Object{{"loops", std::move(lps)}, {"iterations", std::move(its)}, {"odd", std::move(odd)}, {"lefts", std::move(lefts)}, {"heads", nH}, {"writing", nW}, {"callbacks", std::move(cbs)}, {"callbackwrites", nCb}}); return 0; }
