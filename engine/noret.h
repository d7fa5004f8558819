// noret.h: functions that never return (every way out of them ends in a call that does not return) are found from the code,
// and what follows a call of one is unreachable, whether or not the function is declared so.
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
static inline std::vector<llvm::Function *> inferNoReturn(llvm::Module &M) {
	using namespace llvm; std::vector<Function *> found; bool ch = true;
	while (ch) { ch = false;
		for (auto &F : M) { if (F.isDeclaration()) continue;
			std::vector<CallInst *> cs; for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallInst>(&I)) if (c->doesNotReturn() && !isa<UnreachableInst>(c->getNextNode())) cs.push_back(c);
			for (auto *c : cs) if (!isa<UnreachableInst>(c->getNextNode())) changeToUnreachable(c->getNextNode());
			if (!cs.empty()) { removeUnreachableBlocks(F); }
			if (F.doesNotReturn()) continue;
			std::set<BasicBlock *> seen; std::vector<BasicBlock *> q{&F.getEntryBlock()}; bool ret = false, end = false;
			while (!q.empty()) { auto *B = q.back(); q.pop_back(); if (!seen.insert(B).second) continue; if (isa<ReturnInst>(B->getTerminator())) ret = true; if (isa<UnreachableInst>(B->getTerminator())) end = true; for (auto *S : successors(B)) q.push_back(S); }
			if (!ret && end) { F.setDoesNotReturn(); found.push_back(&F); ch = true; } } }
	return found; }
// and written out in their callers, so that what decides the end of the process is seen where it is decided
static inline void inlineNoReturn(llvm::Module &M) {
	using namespace llvm; auto fs = inferNoReturn(M);
	for (int round = 0; round < 4; round++) for (auto *F : fs) if (F->hasLocalLinkage()) {
		std::vector<CallBase *> cs; for (auto *U : F->users()) if (auto *c = dyn_cast<CallBase>(U)) if (c->getCalledFunction() == F && c->getFunction() != F) cs.push_back(c);
		if (cs.size() > 2) continue;   // one helper of many: reported as itself
		for (auto *c : cs) { InlineFunctionInfo I; InlineFunction(*c, I); } }
	for (auto *F : fs) if (F->hasLocalLinkage() && F->use_empty()) F->deleteBody(); }
// a static function called once, that is given the address of one of its caller's variables and returns nothing, is part of its caller: it is written out there
static inline unsigned inlineParts(llvm::Module &M) {
	using namespace llvm; unsigned n = 0; bool ch = true;
	for (int round = 0; ch && round < 6; round++) { ch = false; std::vector<CallBase *> todo; std::set<Function *> in, tgt;
		for (auto &F : M) { if (F.isDeclaration() || !F.hasLocalLinkage() || !F.getReturnType()->isVoidTy() || F.isVarArg() || !F.hasOneUse() || F.getName().starts_with("p_")) continue;   // p_: productions of the generated parsers
			auto *c = dyn_cast<CallInst>(*F.user_begin()); if (!c || c->getCalledFunction() != &F || c->getFunction() == &F) continue;
			bool var = false; for (auto &a : c->args()) if (isa<AllocaInst>(a->stripPointerCasts())) var = true; if (!var) continue;
			if (in.count(&F) || tgt.count(c->getFunction())) continue; in.insert(c->getFunction()); tgt.insert(&F); todo.push_back(c); }
		for (auto *c : todo) { auto *F = c->getCalledFunction(); InlineFunctionInfo I; if (getenv("PARTS")) errs() << F->getName() << " into " << c->getFunction()->getName() << "\n"; if (InlineFunction(*c, I).isSuccess()) { n++; ch = true; if (F->use_empty()) F->eraseFromParent(); } } }
	return n; }
