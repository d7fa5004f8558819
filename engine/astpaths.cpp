// Event sequences along the paths of each function, from clang's control flow graph.
//   astpaths SOURCE OUT.json SPEC -- FLAGS...
// SPEC lines: "field RECORD FIELD" (writes to it), "record RECORD" (whole-object copies), "call NAME", "test FIELD" (branch conditions that read it)
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Lex/Lexer.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <set>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
using namespace clang;
namespace J = llvm::json;
static std::set<std::pair<std::string, std::string>> fieldsW; static std::set<std::string> records, callsW, testsW; static std::string OUT;
struct Ev { std::string k, a, b, c, d; int line; bool operator<(const Ev &o) const { return std::tie(k, a, b, c, d, line) < std::tie(o.k, o.a, o.b, o.c, o.d, o.line); } };
struct W {
  ASTContext &C; SourceManager &SM; J::Array out; std::set<std::string> statics;
  W(ASTContext &c) : C(c), SM(c.getSourceManager()) {}
  std::string text(const Stmt *s) { auto r = CharSourceRange::getTokenRange(SM.getExpansionRange(s->getSourceRange()).getAsRange()); std::string t = Lexer::getSourceText(r, SM, C.getLangOpts()).str(), o; for (char ch : t) if (!isspace((unsigned char) ch)) o += ch; return o.substr(0, 120); }
  int line(SourceLocation l) { auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? p.getLine() : 0; }
  const MemberExpr *watched(const Expr *e) {
    e = e->IgnoreParenCasts(); if (auto *m = dyn_cast<MemberExpr>(e)) if (auto *f = dyn_cast<FieldDecl>(m->getMemberDecl())) if (fieldsW.count({f->getParent()->getNameAsString(), f->getNameAsString()})) return m;
    return nullptr; }
  std::string cval(const Expr *e) { Expr::EvalResult er; if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(er, C)) return std::to_string(er.Val.getInt().getExtValue()); if (e->getType()->isPointerType() && e->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNull)) return "0"; return ""; }
  void stmtEvents(const Stmt *s, std::vector<Ev> &v) {
    if (auto *b = dyn_cast<BinaryOperator>(s)) if (b->isAssignmentOp()) {
      if (auto *m = watched(b->getLHS())) { auto *f = cast<FieldDecl>(m->getMemberDecl()); std::string rb; if (auto *rm = watched(b->getRHS())) rb = text(rm->getBase()) + "|" + rm->getMemberDecl()->getNameAsString();
        if (b->getOpcode() == BO_Assign) if (auto *r = dyn_cast<BinaryOperator>(b->getRHS()->IgnoreParenImpCasts())) if (r->getOpcode() == BO_Add || r->getOpcode() == BO_Sub) { auto *rm = watched(r->getLHS()); const Expr *o = r->getRHS(); if (!rm && r->getOpcode() == BO_Add) { rm = watched(r->getRHS()); o = r->getLHS(); }
            if (rm && text(rm) == text(m)) { std::string rb2; if (auto *om = watched(o)) rb2 = text(om->getBase()) + "|" + om->getMemberDecl()->getNameAsString(); v.push_back({"write", f->getNameAsString(), text(m->getBase()), (r->getOpcode() == BO_Add ? "+=" : "-=") + cval(o), rb2, line(b->getOperatorLoc())}); return; } }
        std::string cv = cval(b->getRHS()); v.push_back({"write", f->getNameAsString(), text(m->getBase()), b->getOpcodeStr().str() + (cv.empty() ? "" : cv), rb, line(b->getOperatorLoc())}); }
      auto t = b->getLHS()->getType(); if (auto *r = t->getAsRecordDecl()) if (records.count(r->getNameAsString())) v.push_back({"copy", r->getNameAsString(), text(b->getLHS()), text(b->getRHS()), "", line(b->getOperatorLoc())});
    }
    if (auto *u = dyn_cast<UnaryOperator>(s)) if (u->isIncrementDecrementOp()) if (auto *m = watched(u->getSubExpr())) v.push_back({"write", m->getMemberDecl()->getNameAsString(), text(m->getBase()), u->isIncrementOp() ? "+=1" : "-=1", "", line(u->getOperatorLoc())});
    if (auto *c = dyn_cast<CallExpr>(s)) if (auto *d = c->getDirectCallee()) {
      std::string n = d->getNameAsString(); if (n.rfind("__builtin_", 0) == 0) n = n.substr(10);
      if (n == "memcpy" || n == "memmove") { auto t = c->getArg(0)->IgnoreParenImpCasts()->getType(); if (t->isPointerType()) if (auto *r = t->getPointeeType()->getAsRecordDecl()) if (records.count(r->getNameAsString())) v.push_back({"copy", r->getNameAsString(), text(c->getArg(0)), text(c->getArg(1)), "", line(c->getBeginLoc())}); }
      std::string a; for (unsigned i = 0; i < c->getNumArgs() && i < 4; i++) { auto cv = cval(c->getArg(i)); a += (i ? "," : "") + (cv.empty() ? text(c->getArg(i)) : cv); }
      if (callsW.count(n) || statics.count(n)) v.push_back({"call", n, a, "", "", line(c->getBeginLoc())});
    }
  }
  struct Reads : RecursiveASTVisitor<Reads> { W *w; std::set<std::string> f; bool VisitMemberExpr(MemberExpr *m) { if (w->watched(m) && testsW.count(m->getMemberDecl()->getNameAsString())) f.insert(m->getMemberDecl()->getNameAsString()); return true; } };
  bool any = false; std::set<std::vector<Ev>> paths; bool trunc = false; long steps = 0;
  struct Node { std::vector<Ev> ev; std::string ret; bool hasRet = false, dead = false, exit = false; std::set<std::pair<int, std::vector<Ev>>> out; };
  std::vector<Node> N;
  std::set<std::pair<int, int>> back; typedef std::map<std::pair<int, int>, int> Cnt; std::set<std::tuple<int, std::string, std::vector<Ev>, Cnt>> seenW;
  void findBack(int b, std::vector<char> &st) { st[b] = 1; for (auto &o : N[b].out) { if (st[o.first] == 1) back.insert({b, o.first}); else if (!st[o.first]) findBack(o.first, st); } st[b] = 2; }
  // each loop is entered again at most once; the same events at the same place are followed once
  void walk(int b, Cnt &edges, std::vector<Ev> &cur, std::string ret) {
    if (paths.size() > 3000 || ++steps > 400000) { trunc = true; return; }
    if (!seenW.insert({b, ret, cur, edges}).second) return;
    size_t n = cur.size(); for (auto &e : N[b].ev) cur.push_back(e); if (N[b].hasRet) ret = N[b].ret;
    if (N[b].exit) { auto p = cur; p.push_back({"end", ret, "", "", "", 0}); paths.insert(p); cur.resize(n); return; }
    if (N[b].dead) { cur.resize(n); return; }
    for (auto &o : N[b].out) { bool bk = back.count({b, o.first}); if (bk) { auto &cnt = edges[{b, o.first}]; if (cnt >= 1) continue; cnt++; } size_t m = cur.size(); for (auto &e : o.second) cur.push_back(e); walk(o.first, edges, cur, ret); cur.resize(m); if (bk) { auto i = edges.find({b, o.first}); if (--i->second == 0) edges.erase(i); } }
    cur.resize(n);
  }
  void fn(FunctionDecl *f) {
    CFG::BuildOptions bo; auto cfg = CFG::buildCFG(f, f->getBody(), &C, bo); if (!cfg) return;
    std::map<const CFGBlock *, std::vector<Ev>> ev; any = false; paths.clear(); trunc = false; steps = 0;
    for (auto *b : *cfg) { auto &v = ev[b]; for (auto &el : *b) if (auto st = el.getAs<CFGStmt>()) { stmtEvents(st->getStmt(), v); if (auto *r = dyn_cast<ReturnStmt>(st->getStmt())) v.push_back({"ret", r->getRetValue() ? (cval(r->getRetValue()).empty() ? text(r->getRetValue()) : cval(r->getRetValue())) : "", "", "", "", 0}); }
      for (auto &e : v) if (e.k != "ret") any = true; }
    if (!any) return;
    N.clear(); N.resize(cfg->getNumBlockIDs());
    for (auto *b : *cfg) {
      Node &n = N[b->getBlockID()]; for (auto &e : ev[b]) if (e.k == "ret") { n.ret = e.a; n.hasRet = true; } else n.ev.push_back(e);
      n.exit = b == &cfg->getExit(); n.dead = b->hasNoReturnElement();
      const Stmt *t = b->getTerminatorCondition(); std::set<std::string> rd; if (t) { Reads r; r.w = this; r.TraverseStmt(const_cast<Stmt *>(t)); rd = r.f; }
      unsigned i = 0; for (auto s : b->succs()) { unsigned idx = i++; const CFGBlock *x = s.getReachableBlock(); if (!x) continue; std::vector<Ev> lab; for (auto &fl : rd) lab.push_back({"test", fl, idx == 0 ? "T" : "F", text(t), "", line(t->getBeginLoc())}); n.out.insert({(int) x->getBlockID(), lab}); }
    }
    int entry = cfg->getEntry().getBlockID();
    for (size_t k = 0; k < N.size(); k++) {       // bypass blocks without events
      Node &n = N[k]; if ((int) k == entry || !n.ev.empty() || n.hasRet || n.dead || n.exit) continue;
      n.out.erase({(int) k, {}}); bool lab = false; for (auto &o : n.out) if (!o.second.empty()) lab = true; if (lab) continue;
      for (auto &p : N) { if (&p == &n) continue; std::set<std::pair<int, std::vector<Ev>>> no; for (auto &o : p.out) if (o.first != (int) k) no.insert(o); else for (auto &q : n.out) no.insert({q.first, o.second}); p.out = no; }
      for (auto &p : N) { auto id = (int) (&p - &N[0]); if (p.ev.empty() && !p.hasRet) p.out.erase({id, {}}); }
      n.out.clear();
    }
    back.clear(); seenW.clear(); { std::vector<char> st(N.size()); findBack(entry, st); }
    Cnt edges; std::vector<Ev> cur; walk(entry, edges, cur, "");
    J::Array ps; for (auto &p : paths) { J::Array a; for (auto &e : p) a.push_back(J::Array{e.k, e.a, e.b, e.c, e.d, e.line}); ps.push_back(std::move(a)); }
    J::Array par; for (auto *p : f->parameters()) par.push_back(p->getNameAsString());
    out.push_back(J::Object{{"fn", f->getNameAsString()}, {"line", line(f->getLocation())}, {"static", f->getStorageClass() == SC_Static}, {"truncated", trunc}, {"params", std::move(par)}, {"paths", std::move(ps)}});
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    W w(C); std::vector<FunctionDecl *> fs;
    for (auto *d : C.getTranslationUnitDecl()->decls()) if (auto *f = dyn_cast<FunctionDecl>(d)) if (f->isThisDeclarationADefinition() && f->getBody() && !w.SM.isInSystemHeader(f->getLocation())) { fs.push_back(f); if (f->getStorageClass() == SC_Static) w.statics.insert(f->getNameAsString()); }
    // static functions matter only if they contain events themselves: two passes
    { auto all = w.statics; w.statics.clear(); bool ch = true; while (ch) { ch = false; for (auto *f : fs) { auto n = f->getNameAsString(); if (!all.count(n) || w.statics.count(n)) continue; struct S : RecursiveASTVisitor<S> { W *w; std::vector<Ev> v; bool VisitStmt(Stmt *s) { w->stmtEvents(s, v); return true; } } sv; sv.w = &w; sv.TraverseStmt(f->getBody()); if (!sv.v.empty()) { w.statics.insert(n); ch = true; } } } }
    for (auto *f : fs) w.fn(f);
    std::error_code ec; llvm::raw_fd_ostream O(OUT, ec); O << J::Value(J::Object{{"fns", std::move(w.out)}, {"errors", (int64_t) C.getDiagnostics().hasErrorOccurred()}}) << "\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
  if (argc < 5) return 2; std::string src = argv[1]; OUT = argv[2];
  { std::ifstream f(argv[3]); std::string l; while (std::getline(f, l)) { std::istringstream s(l); std::string k, a, b; s >> k >> a >> b; if (k == "field") fieldsW.insert({a, b}); else if (k == "record") records.insert(a); else if (k == "call") callsW.insert(a); else if (k == "test") testsW.insert(a); } }
  std::vector<std::string> fl; for (int i = 5; i < argc; i++) fl.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", fl); tooling::ClangTool T(db, {src});
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster({"-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"}, tooling::ArgumentInsertPosition::BEGIN));
  return T.run(tooling::newFrontendActionFactory<Act>().get()) ? 2 : 0;
}
