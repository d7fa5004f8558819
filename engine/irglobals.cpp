// Dump the constant initialiser of every global variable of a linked LLVM module as JSON:
//   { name: {"const":bool,"linkage":..., "file":..., "line":..., "init": tree } }
// tree: integer | {"ref":name,"off":n} | {"str":[bytes]} | [tree...] | null (undef / external)
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <string>
using namespace llvm;
static const DataLayout *DL;
static std::string esc(StringRef s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}
static void dump(raw_ostream &O, const Constant *C) {
  Type *T = C->getType();
  if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() <= 64) O << (CI->getBitWidth() == 1 ? (int64_t)CI->getZExtValue() : (int64_t)CI->getSExtValue()); else O << "null"; return; }
  if (isa<ConstantPointerNull>(C)) { O << 0; return; }
  if (isa<UndefValue>(C)) { O << "null"; return; }
  if (auto *CS = dyn_cast<ConstantDataSequential>(C)) {
    if (CS->getElementType()->isIntegerTy(8)) { O << "{\"str\":["; StringRef r = CS->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) O << (i ? "," : "") << (int)(unsigned char)r[i]; O << "]}"; return; }
    O << "["; for (unsigned i = 0; i < CS->getNumElements(); i++) { if (i) O << ","; dump(O, CS->getElementAsConstant(i)); } O << "]"; return;
  }
  if (T->isPointerTy()) {
    APInt off(64, 0); const Value *B = C->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto *G = dyn_cast<GlobalValue>(B)) { O << "{\"ref\":\"" << esc(G->getName()) << "\",\"off\":" << off.getSExtValue() << "}"; return; }
    O << "null"; return;
  }
  uint64_t n = 0;
  if (auto *S = dyn_cast<StructType>(T)) n = S->getNumElements(); else if (auto *A = dyn_cast<ArrayType>(T)) n = A->getNumElements();
  else { O << "null"; return; }
  if (n > 200000) { O << "null"; return; }
  O << "["; for (uint64_t i = 0; i < n; i++) { if (i) O << ","; auto *E = C->getAggregateElement(i); if (E) dump(O, E); else O << "null"; } O << "]";
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  std::error_code ec; raw_fd_ostream O(argv[2], ec); if (ec) { errs() << ec.message() << "\n"; return 2; }
  O << "{"; bool first = true;
  for (auto &G : M->globals()) {
    O << (first ? "\n" : ",\n"); first = false;
    O << "\"" << esc(G.getName()) << "\":{\"const\":" << (G.isConstant() ? "true" : "false") << ",\"internal\":" << (G.hasLocalLinkage() ? "true" : "false")
      << ",\"decl\":" << (G.isDeclaration() ? "true" : "false");
    SmallVector<DIGlobalVariableExpression *, 1> D; G.getDebugInfo(D);
    if (!D.empty()) { auto *V = D[0]->getVariable(); O << ",\"src\":\"" << esc(V->getName()) << "\",\"file\":\"" << esc(V->getFilename()) << "\",\"line\":" << V->getLine(); }
    O << ",\"init\":"; if (G.hasInitializer()) dump(O, G.getInitializer()); else O << "null"; O << "}";
  }
  O << "}\n"; return 0;
}
