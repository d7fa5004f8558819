// streams: which stream every write of the libraries goes to.
//   streams LIB.bc OUT.json
#include <set>
#include <vector>
#include "noret.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Operator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
#include <deque>
using namespace llvm; using std::map; using std::set; using std::string; namespace J = llvm::json;
static string loc(const Instruction *I) { if (auto &d = I->getDebugLoc()) return d->getFilename().str() + ":" + std::to_string(d.getLine()); return ""; }
static string nameOf(const Function *F) { return F->getSubprogram() ? F->getSubprogram()->getName().str() : F->getName().str(); }
static string fileOf(const Function *F) { return F->getSubprogram() ? F->getSubprogram()->getFilename().str() : ""; }
static bool isFILE(const DIType *t) {
	bool ptr = false; while (t) { if (auto *d = dyn_cast<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_pointer_type) { if (ptr) return false; ptr = true; } t = d->getBaseType(); continue; } return ptr && t->getName() == "_IO_FILE"; } return false; }
static set<unsigned> fileParams(const Function *F) { set<unsigned> s; if (auto *sp = F->getSubprogram()) { auto el = sp->getType()->getTypeArray(); for (unsigned i = 1; i < el.size(); i++) if (el[i] && isFILE(el[i])) s.insert(i - 1); } return s; }
static const map<string, int> C{{"fprintf", 0}, {"vfprintf", 0}, {"fputs", 1}, {"fputc", 1}, {"putc", 1}, {"fwrite", 3}, {"fflush", 0}, {"ferror", 0}, {"clearerr", 0}};
static const set<string> OUTF{"printf", "vprintf", "puts", "putchar"};
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic er; auto M = parseIRFile(argv[1], er, X); if (!M) { er.print("streams", errs()); return 2; } inlineParts(*M);
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA); }
	J::Array out; int64_t writes = 0, given = 0;
	for (auto &F : *M) { if (F.isDeclaration()) continue; auto fp = fileParams(&F);
		for (auto &B : F) for (auto &I : B) { auto *c = dyn_cast<CallBase>(&I); if (!c || isa<DbgInfoIntrinsic>(c)) continue; auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); string n = f ? f->getName().str() : "";
			auto rep = [&](const char *k, string d) { out.push_back(J::Object{{"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"where", loc(c)}, {"kind", k}, {"call", f ? nameOf(f) : string("a callback")}, {"to", d}}); };
			if (OUTF.count(n)) { writes++; rep("stdout", "standard output"); continue; }
			if (n == "perror") { writes++; if (!fp.empty()) rep("other", "standard error"); continue; }
			set<unsigned> pos; auto k = C.find(n); if (k != C.end()) pos.insert(k->second); else if (f && !f->isDeclaration()) pos = fileParams(f); else if (!f) for (unsigned i = 0; i < c->arg_size(); i++) pos.insert(i);
			for (unsigned p : pos) { if (p >= c->arg_size()) continue;
				bool param = false, other = false; set<string> g; set<const Value *> seen; std::deque<const Value *> q{c->getArgOperand(p)};
				while (!q.empty()) { auto *v = q.front(); q.pop_front(); if (!seen.insert(v).second) continue; v = v->stripPointerCasts();
					if (auto *a = dyn_cast<Argument>(v)) { if (fp.count(a->getArgNo())) param = true; else other = true; }
					else if (auto *l = dyn_cast<LoadInst>(v)) { auto *gv = dyn_cast<GlobalVariable>(l->getPointerOperand()->stripPointerCasts()); if (gv && (gv->getName() == "stdout" || gv->getName() == "stderr" || gv->getName() == "stdin")) g.insert(gv->getName().str()); else other = true; }
					else if (auto *ph = dyn_cast<PHINode>(v)) for (auto &o : ph->incoming_values()) q.push_back(o.get()); else if (auto *s = dyn_cast<SelectInst>(v)) { q.push_back(s->getTrueValue()); q.push_back(s->getFalseValue()); } else if (!isa<ConstantPointerNull>(v)) other = true; }
				if (!f && g.empty()) continue;
				writes++; if (param && g.empty()) given++;
				if (g.count("stdout")) rep(other || param ? "fallback" : "stdout", "standard output"); else if (!g.empty() && !fp.empty()) rep("other", *g.begin() == "stderr" ? "standard error" : *g.begin()); } } }
	std::error_code ec; raw_fd_ostream O(argv[2], ec); O << J::Value(J::Object{{"reports", std::move(out)}, {"writes", writes}, {"given", given}}) << "\n"; return 0;
}
