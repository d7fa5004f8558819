// For every function that looks a key up in a constant table of structures, decide from the IR (scalar evolution over
// the search loop) which entries it compares, with what, and what it returns for a match.
// Output: JSON list of {fn,file,line,table,n,esz,key_off,ret_off,cmp,first,count,polarity,miss,undecided}
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/Passes/PassBuilder.h>
#include <functional>
#include <string>
#include <set>
using namespace llvm;
static std::string q(StringRef s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += ' '; else o += c; } return "\"" + o + "\""; }
struct Addr { bool ok = false; int64_t start = 0, step = 0; GlobalVariable *G = nullptr; const Loop *L = nullptr; };
static Addr addr(ScalarEvolution &SE, Value *p, const Loop *want) {
  Addr a; if (!SE.isSCEVable(p->getType())) return a;
  const SCEV *S = SE.getSCEV(p);
  auto *AR = dyn_cast<SCEVAddRecExpr>(S);
  if (!AR || !AR->isAffine()) return a;
  auto *st = dyn_cast<SCEVConstant>(AR->getStepRecurrence(SE)); if (!st) return a;
  const SCEV *B = SE.getPointerBase(AR->getStart());
  auto *U = dyn_cast<SCEVUnknown>(B); if (!U) return a;
  auto *G = dyn_cast<GlobalVariable>(U->getValue()); if (!G) return a;
  auto *off = dyn_cast<SCEVConstant>(SE.getMinusSCEV(AR->getStart(), B)); if (!off) return a;
  a.ok = true; a.G = G; a.start = off->getAPInt().getSExtValue(); a.step = st->getAPInt().getSExtValue(); a.L = AR->getLoop();
  return a;
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, "function(sroa,simplifycfg),cgscc(inline),function(sroa,instcombine<no-verify-fixpoint>,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify)")) { errs() << toString(std::move(e)) << "\n"; return 2; }
  MPM.run(*M, MAM);
  std::error_code ec; raw_fd_ostream O(argv[2], ec); O << "["; bool first = true;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    auto &LI = FAM.getResult<LoopAnalysis>(F); auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F); auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
    // a key comparison: a branch inside a loop on (strcmp(load(table+...),x) ==/!= 0) or (load(table+...) ==/!= x)
    for (auto &BB : F) {
      auto *Br = dyn_cast<BranchInst>(BB.getTerminator()); if (!Br || !Br->isConditional()) continue;
      auto *C = dyn_cast<ICmpInst>(Br->getCondition()); if (!C || !C->isEquality()) continue;
      Loop *L = LI.getLoopFor(&BB); if (!L) continue;
      std::string cmp; LoadInst *key = nullptr; 
      Value *a = C->getOperand(0), *b = C->getOperand(1);
      if (auto *CI = dyn_cast<CallInst>(a)) {
        auto *callee = CI->getCalledFunction(); auto *z = dyn_cast<ConstantInt>(b);
        if (!callee || !z || !z->isZero()) continue;
        cmp = callee->getName().str();
        for (auto &arg : CI->args()) if (auto *LD = dyn_cast<LoadInst>(arg)) { auto ad = addr(SE, LD->getPointerOperand(), L); if (ad.ok) key = LD; }
      } else {
        cmp = "==";
        for (Value *v : {a, b}) if (auto *LD = dyn_cast<LoadInst>(v)) { auto ad = addr(SE, LD->getPointerOperand(), L); if (ad.ok) key = LD; }
        if (key && (isa<Constant>(a) || isa<Constant>(b))) continue;   // a sentinel test, not a key comparison
      }
      if (!key) continue;
      Addr ka = addr(SE, key->getPointerOperand(), L);
      auto *AT = dyn_cast<ArrayType>(ka.G->getValueType()); if (!AT) continue;
      uint64_t esz = M->getDataLayout().getTypeAllocSize(AT->getElementType());
      O << (first ? "\n" : ",\n"); first = false;
      auto *SP = F.getSubprogram();
      unsigned line = Br->getDebugLoc() ? Br->getDebugLoc().getLine() : SP ? SP->getLine() : 0;
      O << "{\"fn\":" << q(F.getName()) << ",\"file\":" << q(SP ? SP->getFilename() : "") << ",\"line\":" << line << ",\"table\":" << q(ka.G->getName())
        << ",\"n\":" << AT->getNumElements() << ",\"esz\":" << esz << ",\"first\":" << ka.start << ",\"step\":" << ka.step << ",\"cmp\":" << q(cmp);
      // edge taken on equality
      BasicBlock *eq = Br->getSuccessor(C->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1);
      BasicBlock *ne = Br->getSuccessor(C->getPredicate() == ICmpInst::ICMP_EQ ? 1 : 0);
      bool eqleaves = !L->contains(eq), neleaves = !L->contains(ne);
      O << ",\"eq_leaves\":" << (eqleaves ? "true" : "false") << ",\"ne_leaves\":" << (neleaves ? "true" : "false");
      // number of comparisons made when nothing matches: the other exits' count
      std::string cnt = "null"; 
      SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex);
      for (auto *E : ex) {
        if (E == &BB) continue;
        const SCEV *S = SE.getExitCount(L, E);
        if (auto *K = dyn_cast<SCEVConstant>(S)) { uint64_t k = K->getAPInt().getZExtValue(); if (!DT.dominates(E, &BB)) k++; cnt = std::to_string(k); }
      }
      O << ",\"count\":" << cnt;
      // value returned for a match / a miss
      std::string ret = "null", miss = "null";
      std::function<void(Value *, BasicBlock *, bool, int)> res = [&](Value *v, BasicBlock *from, bool onmatch, int d) {
        if (isa<ConstantPointerNull>(v)) { (onmatch ? ret : miss) = "\"NULL\""; return; }
        if (auto *LD = dyn_cast<LoadInst>(v)) { auto ad = addr(SE, LD->getPointerOperand(), L); if (ad.ok && ad.G == ka.G && onmatch) { ret = "{\"off\":" + std::to_string(ad.start) + ",\"step\":" + std::to_string(ad.step) + "}"; return; } }
      };
      std::function<void(BasicBlock *, BasicBlock *, bool, int)> follow = [&](BasicBlock *B, BasicBlock *prev, bool onmatch, int d) {
        if (d > 6) return;
        if (auto *R = dyn_cast<ReturnInst>(B->getTerminator())) {
          Value *v = R->getReturnValue(); if (!v) return;
          for (int i = 0; i < 4; i++) { auto *P = dyn_cast<PHINode>(v); if (!P) break; if (P->getParent() == B && P->getBasicBlockIndex(prev) >= 0) { v = P->getIncomingValueForBlock(prev); } else if (P->getNumIncomingValues() == 1) v = P->getIncomingValue(0); else break; }
          res(v, prev, onmatch, d); return;
        }
        if (auto *S = B->getSingleSuccessor()) follow(S, B, onmatch, d + 1);
      };
      if (eqleaves) follow(eq, &BB, true, 0);
      for (auto *E : ex) if (E != &BB) for (auto *S : successors(E)) if (!L->contains(S)) follow(S, E, false, 0);
      O << ",\"ret\":" << ret << ",\"miss\":" << miss << "}";
    }
  }
  O << "]\n"; return 0;
}
