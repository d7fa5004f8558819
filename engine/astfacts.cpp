// Facts about one translation unit, read from clang's typed syntax tree, as one JSON object.
//   astfacts SOURCE OUT.json -- FLAGS...
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Lex/Lexer.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <set>
#include <map>
#include <string>
using namespace clang;
namespace J = llvm::json;

struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM;
  J::Array enums, switches, asserts, funcs, tables, convs, narrows, indexes, getopts, macros, ctypes, cmps, records, charcmps;
  FunctionDecl *cur = nullptr;
  std::set<const Stmt *> assertConds; int inAssert = 0;
  std::set<const EnumDecl *> seenEnum; std::set<const RecordDecl *> seenRec;
  V(ASTContext &c) : C(c), SM(c.getSourceManager()) {}
  std::string file(SourceLocation l) { auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? p.getFilename() : ""; }
  std::string rfile(SourceLocation l) { return SM.getFilename(SM.getExpansionLoc(l)).str(); }
  int line(SourceLocation l) { auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? p.getLine() : 0; }
  std::string fn() { return cur ? cur->getNameAsString() : ""; }
  bool sys(SourceLocation l) { return SM.isInSystemHeader(SM.getExpansionLoc(l)); }
  std::string text(const Stmt *s) {
    auto r = CharSourceRange::getTokenRange(SM.getExpansionRange(s->getSourceRange()).getAsRange());
    return Lexer::getSourceText(r, SM, C.getLangOpts()).str().substr(0, 160);
  }
  static const EnumDecl *enumOf(QualType t) { if (auto *e = t->getAs<EnumType>()) return e->getDecl(); return nullptr; }
  std::string ename(const EnumDecl *e) {
    if (!e->getNameAsString().empty()) return e->getNameAsString();
    if (auto *t = e->getTypedefNameForAnonDecl()) return t->getNameAsString();
    return file(e->getLocation()) + ":" + std::to_string(line(e->getLocation()));
  }
  std::string tname(QualType t) { return t.getAsString(); }
  // typedef chain names of a type
  J::Array tdefs(QualType t) {
    J::Array a; while (auto *td = t->getAs<TypedefType>()) { a.push_back(td->getDecl()->getNameAsString()); t = td->desugar(); } return a;
  }
  void noteEnum(const EnumDecl *e) {
    e = e->getDefinition(); if (!e || !seenEnum.insert(e).second) return;
    J::Array xs; for (auto *c : e->enumerators()) xs.push_back(J::Array{c->getNameAsString(), (int64_t)c->getInitVal().getExtValue()});
    enums.push_back(J::Object{{"name", ename(e)}, {"file", file(e->getLocation())}, {"line", line(e->getLocation())}, {"items", std::move(xs)}, {"sys", sys(e->getLocation())}});
  }
  bool VisitEnumDecl(EnumDecl *e) { noteEnum(e); return true; }
  bool VisitRecordDecl(RecordDecl *r) {
    r = r->getDefinition(); if (!r || sys(r->getLocation()) || !seenRec.insert(r).second) return true;
    J::Array fs;
    for (auto *f : r->fields()) fs.push_back(J::Object{{"name", f->getNameAsString()}, {"type", tname(f->getType())}, {"bits", f->isBitField() ? (int64_t)f->getBitWidthValue(C) : -1}, {"td", tdefs(f->getType())}, {"line", line(f->getLocation())}});
    records.push_back(J::Object{{"name", r->getNameAsString()}, {"file", file(r->getLocation())}, {"fields", std::move(fs)}});
    return true;
  }
  bool TraverseFunctionDecl(FunctionDecl *f) {
    auto *o = cur; if (f->isThisDeclarationADefinition()) cur = f;
    bool r = RecursiveASTVisitor::TraverseFunctionDecl(f); cur = o; return r;
  }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (sys(f->getLocation())) return true;
    J::Array ps; for (auto *p : f->parameters()) ps.push_back(tname(p->getType()));
    funcs.push_back(J::Object{{"name", f->getNameAsString()}, {"file", file(f->getLocation())}, {"rfile", rfile(f->getLocation())}, {"line", line(f->getLocation())},
      {"def", f->isThisDeclarationADefinition()}, {"static", f->getStorageClass() == SC_Static}, {"inline", f->isInlineSpecified()}, {"type", tname(f->getType())}, {"macro", f->getLocation().isMacroID()}, {"params", std::move(ps)}});
    return true;
  }
  // ---- names referenced inside a statement
  struct Refs : RecursiveASTVisitor<Refs> {
    std::set<std::string> fns, vars, enumc, strs; std::vector<const CallExpr *> calls; bool assign = false, incdec = false;
    bool hasRet = false, hasBreak = false, hasGoto = false, hasUnreach = false; bool optarg = false;
    bool VisitDeclRefExpr(DeclRefExpr *d) {
      if (isa<FunctionDecl>(d->getDecl())) fns.insert(d->getDecl()->getNameAsString());
      else if (isa<EnumConstantDecl>(d->getDecl())) enumc.insert(d->getDecl()->getNameAsString());
      else { vars.insert(d->getDecl()->getNameAsString()); if (d->getDecl()->getNameAsString() == "optarg") optarg = true; }
      return true; }
    bool VisitStringLiteral(StringLiteral *s) { if (s->isOrdinary()) strs.insert(s->getString().str()); return true; }
    bool VisitCallExpr(CallExpr *c) { calls.push_back(c); return true; }
    bool VisitBinaryOperator(BinaryOperator *b) { if (b->isAssignmentOp()) assign = true; return true; }
    bool VisitUnaryOperator(UnaryOperator *u) { if (u->isIncrementDecrementOp()) incdec = true; return true; }
    bool VisitReturnStmt(ReturnStmt *) { hasRet = true; return true; }
    bool VisitBreakStmt(BreakStmt *) { hasBreak = true; return true; }
    bool VisitGotoStmt(GotoStmt *) { hasGoto = true; return true; }
  };
  template <class S> static J::Array arr(const S &s) { J::Array a; for (auto &x : s) a.push_back(llvm::json::isUTF8(x) ? x : llvm::json::fixUTF8(x)); return a; }
  const Expr *strip(const Expr *e) { return e->IgnoreParenImpCasts(); }
  static QualType origType(const Expr *e) {
    // type before integral promotions and conversions
    for (;;) { e = e->IgnoreParens(); if (auto *ic = dyn_cast<ImplicitCastExpr>(e)) { auto k = ic->getCastKind(); if (k == CK_IntegralCast || k == CK_LValueToRValue || k == CK_NoOp) { e = ic->getSubExpr(); continue; } } break; }
    return e->getType();
  }
  bool alwaysFails(const Stmt *s) {   // assert(0-like) / abort / __builtin_unreachable / exit among the statements
    Refs r; r.TraverseStmt(const_cast<Stmt *>(s));
    for (auto *c : r.calls) if (auto *d = c->getDirectCallee()) { auto n = d->getNameAsString(); if (n == "__assert_fail" || n == "abort" || n == "__builtin_unreachable" || n == "exit" || n == "_Exit") return true; }
    return false;
  }
  // allocations: the type the block is used as, and the types whose size its length is made from
  J::Array allocs; std::set<std::pair<const CallExpr *, int>> seenAlloc;
  static const FunctionDecl *allocator(const CallExpr *c, unsigned &from) { auto *f = c->getDirectCallee(); if (!f || !f->getIdentifier()) return nullptr; auto n = f->getName(); from = n == "f_malloc" || n == "f_calloc" ? 1 : n == "f_realloc" ? 2 : n == "realloc" ? 1 : n == "malloc" || n == "calloc" ? 0 : 99; return from < c->getNumArgs() ? f : nullptr; }
  void sizesIn(const Stmt *e, std::vector<QualType> &out, bool &added, QualType T, int d) {
    if (!e || d > 12) return;
    if (auto *u = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { if (u->getKind() == UETT_SizeOf) out.push_back(u->getTypeOfArgument()); return; }
    if (auto *r = dyn_cast<DeclRefExpr>(e)) { if (auto *v = dyn_cast<VarDecl>(r->getDecl())) { if (v->getInit()) sizesIn(v->getInit(), out, added, T, d + 1); auto i = sizeAssigns.find(v); if (i != sizeAssigns.end()) for (auto *x : i->second) sizesIn(x, out, added, T, d + 1); } return; }
    if (auto *b = dyn_cast<BinaryOperator>(e)) if (b->getOpcode() == BO_Add) for (auto *s : {b->getLHS(), b->getRHS()}) if (auto *u = dyn_cast<UnaryExprOrTypeTraitExpr>(s->IgnoreParenImpCasts())) if (u->getKind() == UETT_SizeOf && same(u->getTypeOfArgument(), T)) {
      auto *o = s == b->getLHS() ? b->getRHS() : b->getLHS(); std::vector<QualType> in; bool x = false; sizesIn(o, in, x, T, d + 1); if (in.empty()) added = true; }
    for (auto *k : e->children()) sizesIn(k, out, added, T, d + 1);
  }
  bool same(QualType a, QualType b) { if (a.isNull() || b.isNull()) return false; a = C.getBaseElementType(a); b = C.getBaseElementType(b); return C.hasSameUnqualifiedType(a, b); }
  std::map<const VarDecl *, std::vector<const Expr *>> sizeAssigns;
  struct SA : RecursiveASTVisitor<SA> { std::map<const VarDecl *, std::vector<const Expr *>> &m; SA(decltype(m) m) : m(m) {}
    bool VisitBinaryOperator(BinaryOperator *b) { if (b->isAssignmentOp()) if (auto *r = dyn_cast<DeclRefExpr>(b->getLHS()->IgnoreParens())) if (auto *v = dyn_cast<VarDecl>(r->getDecl())) if (v->getType()->isIntegerType()) m[v].push_back(b->getRHS()); return true; } };
  const FunctionDecl *saFor = nullptr;
  void noteAlloc(const CallExpr *c, QualType T, int how) {
    unsigned from; if (!allocator(c, from) || T.isNull() || !seenAlloc.insert({c, how}).second || sys(c->getBeginLoc())) return;
    if (cur && saFor != cur) { saFor = cur; sizeAssigns.clear(); if (cur->getBody()) SA(sizeAssigns).TraverseStmt(cur->getBody()); }
    std::vector<QualType> ts; bool added = false; for (unsigned i = from; i < c->getNumArgs(); i++) sizesIn(c->getArg(i), ts, added, T, 0);
    bool ok = T->isVoidType() || T->isIncompleteType() || C.getTypeSizeInChars(T).getQuantity() == 1; bool hit = false; J::Array names; for (auto t : ts) { hit |= same(t, T) || (!t->isIncompleteType() && !ok && C.getTypeSizeInChars(t) >= C.getTypeSizeInChars(C.getBaseElementType(T))); names.push_back(tname(t)); }
    allocs.push_back(J::Object{{"fn", fn()}, {"file", file(c->getBeginLoc())}, {"line", line(c->getBeginLoc())}, {"type", tname(T)}, {"bytes", ok}, {"hit", hit}, {"sizes", std::move(names)}, {"added", added && (!C.getBaseElementType(T)->isRecordType() || c->getDirectCallee()->getName().ends_with("realloc"))}});
  }
  bool VisitCastExpr(CastExpr *e) {
    if (e->getCastKind() == CK_BitCast && e->getType()->isPointerType()) if (auto *c = dyn_cast<CallExpr>(e->getSubExpr()->IgnoreParens())) noteAlloc(c, e->getType()->getPointeeType(), 0);
    return true;
  }
  bool VisitSwitchStmt(SwitchStmt *s) {
    if (sys(s->getBeginLoc())) return true;
    const Expr *cond = s->getCond(); QualType t = origType(cond); const EnumDecl *e = enumOf(t);
    if (!e) { // an int, every case of which is an enumerator of one enumeration, and which has a default: a dispatch over all of it
      const EnumDecl *one = nullptr; bool same = true, dflt = false; int n = 0;
      for (const SwitchCase *sc = s->getSwitchCaseList(); sc; sc = sc->getNextSwitchCase()) if (auto *cs = dyn_cast<CaseStmt>(sc)) { auto *l = cs->getLHS(); if (auto *ce = dyn_cast<ConstantExpr>(l)) l = ce->getSubExpr(); auto *d = dyn_cast<DeclRefExpr>(l->IgnoreParenImpCasts()); auto *k = d ? dyn_cast<EnumConstantDecl>(d->getDecl()) : nullptr; auto *ed = k ? dyn_cast<EnumDecl>(k->getDeclContext()) : nullptr; if (!ed || (one && ed != one)) same = false; one = ed ? ed : one; n++; } else dflt = true;
      if (same && dflt && one && n >= 3 && one->getIdentifier()) e = one;
    }
    if (e) noteEnum(e);
    J::Array cases; bool def = false; int defline = 0; J::Array defcalls; bool deffail = false, defret = false, defempty = true;
    // flatten the body into labelled groups
    std::vector<std::pair<std::vector<const SwitchCase *>, std::vector<const Stmt *>>> groups;
    auto *body = dyn_cast<CompoundStmt>(s->getBody());
    if (body) for (auto *st : body->body()) {
      const Stmt *x = st; std::vector<const SwitchCase *> labs;
      while (auto *sc = dyn_cast<SwitchCase>(x)) { labs.push_back(sc); x = sc->getSubStmt(); }
      if (!labs.empty()) groups.push_back({labs, {x}}); else if (!groups.empty()) groups.back().second.push_back(x);
    }
    for (size_t gi = 0; gi < groups.size(); gi++) {
      auto &g = groups[gi]; Refs r; bool fails = false; for (auto *x : g.second) { r.TraverseStmt(const_cast<Stmt *>(x)); if (alwaysFails(x)) fails = true; }
      const Stmt *last = nullptr; for (auto *x : g.second) if (!isa<NullStmt>(x)) last = x;
      while (last) { if (auto *cs = dyn_cast<CompoundStmt>(last)) { if (cs->body_empty()) { last = nullptr; break; } last = cs->body_back(); } else break; }
      std::string end = !last ? "empty" : isa<BreakStmt>(last) ? "break" : isa<ReturnStmt>(last) ? "return" : isa<GotoStmt>(last) ? "goto" : isa<ContinueStmt>(last) ? "continue" : "fall";
      J::Array vals, names; bool isdef = false;
      for (auto *sc : g.first) {
        if (auto *cs = dyn_cast<CaseStmt>(sc)) { Expr::EvalResult er; if (cs->getLHS()->EvaluateAsInt(er, C)) { vals.push_back((int64_t)er.Val.getInt().getExtValue()); }
          Refs rr; rr.TraverseStmt(const_cast<Expr *>(cs->getLHS())); for (auto &n : rr.enumc) names.push_back(n); }
        else isdef = true;
      }
      J::Array asg; for (auto *x : g.second) collectAssign(x, asg);
      std::set<std::string> cn; for (auto *c : r.calls) if (auto *d = c->getDirectCallee()) cn.insert(d->getNameAsString());
      cases.push_back(J::Object{{"vals", std::move(vals)}, {"names", std::move(names)}, {"default", isdef}, {"line", line(g.first[0]->getBeginLoc())}, {"fns", arr(r.fns)}, {"calls", arr(cn)}, {"enums", arr(r.enumc)}, {"strs", arr(r.strs)}, {"vars", arr(r.vars)},
        {"end", end}, {"fails", fails}, {"rejects", fails || [&] { auto *r = dyn_cast_or_null<ReturnStmt>(last); if (!r || !r->getRetValue()) return false; auto *e = r->getRetValue(); Expr::EvalResult er; if (e->getType()->isPointerType()) return e->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNull) != Expr::NPCK_NotNull; return e->EvaluateAsInt(er, C) && er.Val.getInt().getExtValue() <= 0; }()}, {"ret", r.hasRet}, {"goto", r.hasGoto}, {"optarg", r.optarg}, {"assigns", std::move(asg)}, {"last", gi + 1 == groups.size()}});
    }
    switches.push_back(J::Object{{"fn", fn()}, {"file", file(s->getBeginLoc())}, {"line", line(s->getBeginLoc())}, {"enum", e ? ename(e->getDefinition() ? e->getDefinition() : e) : ""}, {"type", tname(t)}, {"cond", text(cond)}, {"cases", std::move(cases)}, {"all", s->isAllEnumCasesCovered()}});
    return true;
  }
  void collectAssign(const Stmt *s, J::Array &out) {
    if (!s) return;
    if (auto *b = dyn_cast<BinaryOperator>(s)) if (b->isAssignmentOp()) {
      Refs l, r; l.TraverseStmt(b->getLHS()); r.TraverseStmt(b->getRHS());
      out.push_back(J::Object{{"lhs", arr(l.vars)}, {"fns", arr(r.fns)}, {"enums", arr(r.enumc)}, {"strs", arr(r.strs)}});
    }
    for (auto *k : s->children()) collectAssign(k, out);
  }
  // ---- assertions
  static bool isAssertFail(const Expr *e) { e = e->IgnoreParenCasts(); if (auto *c = dyn_cast<CallExpr>(e)) if (auto *d = c->getDirectCallee()) return d->getNameAsString() == "__assert_fail"; return false; }
  void noteAssert(const Expr *cond) {
    Refs r; r.TraverseStmt(const_cast<Expr *>(cond)); J::Array calls; bool ind = false;
    for (auto *c : r.calls) { if (auto *d = c->getDirectCallee()) calls.push_back(d->getNameAsString()); else ind = true; }
    std::set<std::string> tgt; collectTargets(cond, tgt);
    asserts.push_back(J::Object{{"fn", fn()}, {"file", file(cond->getBeginLoc())}, {"line", line(cond->getBeginLoc())}, {"text", text(cond)}, {"assign", r.assign}, {"incdec", r.incdec}, {"calls", std::move(calls)}, {"indirect", ind}});
  }
  void collectTargets(const Stmt *, std::set<std::string> &) {}
  bool VisitConditionalOperator(ConditionalOperator *c) { if (isAssertFail(c->getFalseExpr())) noteAssert(c->getCond()); return true; }
  bool VisitIfStmt(IfStmt *i) {
    if (i->getElse()) if (auto *e = dyn_cast<Expr>(i->getElse())) if (isAssertFail(e)) noteAssert(i->getCond());
    return true;
  }
  // ---- initialisers of one record, field by field
  J::Array inits;
  static std::string baseOf(const Expr *e) { e = e->IgnoreParenCasts(); if (auto *m = dyn_cast<MemberExpr>(e)) return "." + baseOf(m->getBase()) + "."; if (auto *d = dyn_cast<DeclRefExpr>(e)) return d->getDecl()->getNameAsString(); if (auto *a = dyn_cast<ArraySubscriptExpr>(e)) return baseOf(a->getBase()) + "[" + baseOf(a->getIdx()) + "]"; return "?"; }
  bool VisitInitListExpr(InitListExpr *l) {
    if (auto *sf = l->getSemanticForm()) l = sf; if (!cur || sys(l->getBeginLoc())) return true;
    auto *rt = l->getType()->getAsRecordDecl(); if (!rt || rt->isUnion() || !seenInit.insert(l).second) return true;
    J::Object fs; unsigned i = 0; for (auto *f : rt->fields()) { if (f->isUnnamedBitfield()) continue; if (i >= l->getNumInits()) break; auto *x = l->getInit(i++); if (!x || isa<ImplicitValueInitExpr>(x)) continue;
      auto *m = dyn_cast<MemberExpr>(x->IgnoreParenCasts()); Expr::EvalResult er; bool k = !x->isValueDependent() && x->EvaluateAsRValue(er, C) && !er.HasSideEffects;
      fs[f->getNameAsString()] = J::Array{m ? baseOf(m->getBase()) : baseOf(x), m ? m->getMemberDecl()->getNameAsString() : "", k}; }
    inits.push_back(J::Object{{"fn", fn()}, {"file", file(l->getBeginLoc())}, {"line", line(l->getBeginLoc())}, {"record", rt->getNameAsString()}, {"fields", std::move(fs)}});
    return true;
  }
  std::set<const InitListExpr *> seenInit;
  // ---- tables: array-of-struct variables with initialisers
  J::Value item(const Expr *e) {
    e = e->IgnoreParenCasts();
    if (auto *u = dyn_cast<UnaryOperator>(e)) if (u->getOpcode() == UO_AddrOf) e = u->getSubExpr()->IgnoreParenCasts();
    if (auto *s = dyn_cast<StringLiteral>(e)) if (s->isOrdinary()) { auto str = s->getString().str(); return J::Object{{"str", llvm::json::isUTF8(str) ? str : llvm::json::fixUTF8(str)}}; }
    if (auto *d = dyn_cast<DeclRefExpr>(e)) return J::Object{{isa<EnumConstantDecl>(d->getDecl()) ? "enum" : isa<FunctionDecl>(d->getDecl()) ? "fn" : "var", d->getDecl()->getNameAsString()}, {"type", isa<EnumConstantDecl>(d->getDecl()) ? ename(cast<EnumDecl>(d->getDecl()->getDeclContext())) : ""}};
    if (auto *l = dyn_cast<InitListExpr>(e)) { J::Array a; for (auto *x : l->inits()) a.push_back(item(x)); return a; }
    if (!e->isValueDependent()) { Expr::EvalResult er; if (e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(er, C)) return J::Object{{"int", (int64_t)er.Val.getInt().getExtValue()}}; if (e->getType()->isPointerType() && e->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNull)) return J::Object{{"int", 0}}; }
    if (isa<ImplicitValueInitExpr>(e)) return J::Object{{"int", 0}};
    return nullptr;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (!v->hasInit() || sys(v->getLocation())) return true;
    auto *at = C.getAsConstantArrayType(v->getType()); if (!at) return true;
    if (!at->getElementType()->isRecordType() && !at->getElementType()->isPointerType()) return true;
    const InitListExpr *l = dyn_cast<InitListExpr>(v->getInit()->IgnoreParenCasts()); if (!l) return true;
    if (auto *sf = l->getSemanticForm()) l = sf;
    J::Array rows; for (auto *x : l->inits()) rows.push_back(item(x));
    J::Array fields; if (auto *rt = at->getElementType()->getAsRecordDecl()) for (auto *f : rt->fields()) fields.push_back(f->getNameAsString());
    tables.push_back(J::Object{{"fn", fn()}, {"var", v->getNameAsString()}, {"file", file(v->getLocation())}, {"line", line(v->getLocation())}, {"n", (int64_t)at->getSize().getZExtValue()}, {"rows", std::move(rows)}, {"fields", std::move(fields)}});
    return true;
  }
  // ---- conversions
  std::string why(const Expr *e) { return text(e); }
  const Expr *peel(const Expr *e) { for (;;) { e = e->IgnoreParens(); if (auto *ic = dyn_cast<ImplicitCastExpr>(e)) { e = ic->getSubExpr(); continue; } if (auto *cc = dyn_cast<CStyleCastExpr>(e)) { e = cc->getSubExpr(); continue; } return e; } }
  void conv(const CastExpr *ce, bool expl) {
    if (ce->getCastKind() != CK_IntegralCast || sys(ce->getBeginLoc()) || !cur) return;
    QualType to = ce->getType(), from = ce->getSubExpr()->getType();
    if (!to->isIntegerType() || !from->isIntegerType()) return;
    Expr::EvalResult er; if (!ce->isValueDependent() && ce->EvaluateAsInt(er, C)) return;
    uint64_t tw = C.getIntWidth(to), fw = C.getIntWidth(from);
    if (tw < fw) {
      const Expr *p = peel(ce->getSubExpr());
      narrows.push_back(J::Object{{"fn", fn()}, {"file", file(ce->getBeginLoc())}, {"line", line(ce->getBeginLoc())}, {"from", tname(from)}, {"to", tname(to)}, {"fw", (int64_t)fw}, {"tw", (int64_t)tw}, {"explicit", expl}, {"text", text(ce->getSubExpr())}, {"td", tdefs(from)}, {"ptd", tdefs(p->getType())}, {"ptype", tname(p->getType())}});
    } else if (tw > fw || to->isUnsignedIntegerType() != from->isUnsignedIntegerType()) {
      // widening of a plain (signed) char
      const Expr *s = ce->getSubExpr()->IgnoreParenImpCasts();
      if (from->isCharType() && from->isSignedIntegerType() && tw > fw)
        convs.push_back(J::Object{{"fn", fn()}, {"file", file(ce->getBeginLoc())}, {"line", line(ce->getBeginLoc())}, {"from", tname(from)}, {"to", tname(to)}, {"explicit", expl}, {"text", text(s)}, {"use", use(ce)}});
    }
  }
  // how the value of a widened expression is used
  std::string use(const Expr *e) {
    DynTypedNode n = DynTypedNode::create(*static_cast<const Stmt *>(e)); const Stmt *child = e;
    for (int i = 0; i < 12; i++) {
      auto ps = C.getParents(n); if (ps.empty()) return "?";
      n = ps[0]; const Stmt *p = n.get<Stmt>(); 
      if (!p) { if (auto *vd = n.get<VarDecl>()) return "init:" + tname(vd->getType()); return "?"; }
      if (isa<ParenExpr>(p) || isa<ImplicitCastExpr>(p) || isa<CStyleCastExpr>(p)) {
        if (auto *cs = dyn_cast<CStyleCastExpr>(p)) { if (cs->getType()->isVoidType()) return "void"; if (C.getTypeSize(cs->getType()) == 8) return "narrow"; }
        child = p; continue; }
      if (auto *as = dyn_cast<ArraySubscriptExpr>(p)) { return as->getIdx() == child ? "index" : "base"; }
      if (auto *c = dyn_cast<CallExpr>(p)) { std::string nm = "?"; if (auto *d = c->getDirectCallee()) nm = d->getNameAsString(); int ix = -1; for (unsigned k = 0; k < c->getNumArgs(); k++) if (c->getArg(k) == child) ix = k; return "arg:" + nm + ":" + std::to_string(ix); }
      if (auto *b = dyn_cast<BinaryOperator>(p)) {
        if (b->isAssignmentOp()) return "assign:" + tname(b->getLHS()->getType());
        if (b->isComparisonOp()) { const Expr *o = b->getLHS() == child ? b->getRHS() : b->getLHS(); Expr::EvalResult er; if (!o->isValueDependent() && o->EvaluateAsInt(er, C)) return std::string("cmpconst:") + b->getOpcodeStr().str() + ":" + std::to_string(er.Val.getInt().getExtValue()); return std::string("cmp:") + b->getOpcodeStr().str() + ":" + tname(origType(o)); }
        if (b->isShiftOp()) return "shift";
        return std::string("arith:") + b->getOpcodeStr().str();
      }
      if (isa<SwitchStmt>(p)) return "switch"; if (isa<CaseStmt>(p)) return "case"; if (isa<ReturnStmt>(p)) return "return:" + (cur ? tname(cur->getReturnType()) : std::string());
      if (isa<InitListExpr>(p)) return "initlist"; if (isa<ConditionalOperator>(p)) { child = p; continue; }
      if (isa<UnaryOperator>(p)) return "unary"; if (isa<IfStmt>(p) || isa<WhileStmt>(p) || isa<ForStmt>(p) || isa<DoStmt>(p)) return "cond";
      return std::string("other:") + p->getStmtClassName();
    }
    return "?";
  }
  bool VisitImplicitCastExpr(ImplicitCastExpr *e) { conv(e, false); return true; }
  bool VisitCStyleCastExpr(CStyleCastExpr *e) { conv(e, true); return true; }
  // assignments to bit-fields
  // ---- per function: calls made and objects written to
  struct Eff { std::map<std::string, int64_t> calls, writes; std::set<std::string> decls, moves; }; std::map<std::string, Eff> eff; std::set<std::string> freads; std::set<const Expr *> lhs;
  std::string curKey() { return cur->getNameAsString() + "@" + file(cur->getLocation()) + ":" + std::to_string(line(cur->getLocation())); }
  static std::string target(const Expr *e) {
    e = e->IgnoreParenCasts();
    if (auto *m = dyn_cast<MemberExpr>(e)) { auto *r = dyn_cast<RecordDecl>(m->getMemberDecl()->getDeclContext()); return "." + (r ? r->getNameAsString() : std::string()) + "." + m->getMemberDecl()->getNameAsString(); }
    if (auto *d = dyn_cast<DeclRefExpr>(e)) return d->getDecl()->getNameAsString();
    if (auto *a = dyn_cast<ArraySubscriptExpr>(e)) return target(a->getBase()) + "[]";
    if (auto *u = dyn_cast<UnaryOperator>(e)) if (u->getOpcode() == UO_Deref) return "*" + target(u->getSubExpr());
    return "?"; }
  bool VisitMemberExpr(MemberExpr *m) { if (!lhs.count(m)) freads.insert(target(m)); return true; }
  bool VisitUnaryOperator(UnaryOperator *u) { if (cur && u->isIncrementDecrementOp()) eff[curKey()].writes[target(u->getSubExpr())]++; return true; }
  bool VisitDeclStmt(DeclStmt *d) { if (cur) for (auto *x : d->decls()) if (auto *v = dyn_cast<VarDecl>(x)) { auto &e = eff[curKey()]; e.decls.insert(v->getNameAsString()); if (v->hasInit()) e.writes[v->getNameAsString()]++; } return true; }
  bool VisitBinaryOperator(BinaryOperator *b) {
    // a plain char compared with what no signed char can be, or with the last it can be
    if (b->isComparisonOp() && cur) for (int i = 0; i < 2; i++) { const Expr *a = (i ? b->getRHS() : b->getLHS())->IgnoreParenImpCasts(), *k = i ? b->getLHS() : b->getRHS(); Expr::EvalResult er; if (!a->getType()->isSpecificBuiltinType(BuiltinType::Char_S) || k->isValueDependent() || !k->EvaluateAsInt(er, C)) continue; int64_t n = er.Val.getInt().getExtValue(); auto op = i ? BinaryOperator::reverseComparisonOp(b->getOpcode()) : b->getOpcode();
      bool vac = op == BO_GT ? n >= 127 || n < -128 : op == BO_GE ? n > 127 || n <= -128 : op == BO_LT ? n > 127 || n <= -128 : op == BO_LE ? n >= 127 || n < -128 : n > 127 || n < -128;
      if (vac) charcmps.push_back(J::Object{{"fn", fn()}, {"file", file(b->getBeginLoc())}, {"line", line(b->getBeginLoc())}, {"op", BinaryOperator::getOpcodeStr(op).str()}, {"n", n}}); }
    if (b->getOpcode() == BO_Assign) lhs.insert(b->getLHS()->IgnoreParens());
    if (b->isAssignmentOp() && cur) eff[curKey()].writes[target(b->getLHS())]++;
    if (b->getOpcode() == BO_Assign && cur && isa<MemberExpr>(b->getLHS()->IgnoreParens()) && isa<MemberExpr>(b->getRHS()->IgnoreParenCasts()) && target(b->getLHS()) == target(b->getRHS())) eff[curKey()].moves.insert(target(b->getLHS()));
    if (!b->isAssignmentOp() || !cur) return true;
    if (auto *m = dyn_cast<MemberExpr>(b->getLHS()->IgnoreParens())) if (auto *f = dyn_cast<FieldDecl>(m->getMemberDecl())) if (f->isBitField()) {
      const Expr *p = peel(b->getRHS()); Expr::EvalResult er; if (!p->isValueDependent() && p->EvaluateAsInt(er, C)) return true;
      narrows.push_back(J::Object{{"fn", fn()}, {"file", file(b->getBeginLoc())}, {"line", line(b->getBeginLoc())}, {"from", tname(p->getType())}, {"to", "bitfield " + f->getNameAsString()}, {"fw", (int64_t)C.getIntWidth(p->getType())}, {"tw", (int64_t)f->getBitWidthValue(C)}, {"explicit", false}, {"text", text(b)}, {"td", tdefs(p->getType())}, {"ptd", tdefs(p->getType())}, {"ptype", tname(p->getType())}});
    }
    return true;
  }
  bool VisitCallExpr(CallExpr *c) {
    { unsigned from; if (auto *f = allocator(c, from)) if (f->getName().ends_with("realloc")) { auto t = c->getArg(from - 1)->IgnoreParenCasts()->getType(); if (t->isPointerType() && !t->getPointeeType()->isVoidType()) noteAlloc(c, t->getPointeeType(), 1); } }
    if (cur) { auto &e = eff[curKey()]; auto *dd = c->getDirectCallee(); e.calls[dd ? dd->getNameAsString() : "*"]++; }
    if (auto *d = c->getDirectCallee()) {
      std::string n = d->getNameAsString();
      if (n == "getopt" && c->getNumArgs() >= 3) { std::string s = "?"; if (auto *l = dyn_cast<StringLiteral>(c->getArg(2)->IgnoreParenImpCasts())) s = l->getString().str(); getopts.push_back(J::Object{{"fn", fn()}, {"file", file(c->getBeginLoc())}, {"line", line(c->getBeginLoc())}, {"opts", s}}); }
    }
    return true;
  }
};
struct Cons : ASTConsumer {
  std::string out; Cons(std::string o) : out(o) {}
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec; llvm::raw_fd_ostream O(out, ec);
    J::Object ef; for (auto &k : v.eff) { J::Object c, w; for (auto &x : k.second.calls) c[x.first] = x.second; for (auto &x : k.second.writes) w[x.first] = x.second; ef[k.first] = J::Object{{"calls", std::move(c)}, {"writes", std::move(w)}, {"decls", V::arr(k.second.decls)}, {"moves", V::arr(k.second.moves)}}; }
    O << J::Value(J::Object{{"enums", std::move(v.enums)}, {"switches", std::move(v.switches)}, {"asserts", std::move(v.asserts)}, {"funcs", std::move(v.funcs)}, {"tables", std::move(v.tables)}, {"allocs", std::move(v.allocs)}, {"narrows", std::move(v.narrows)}, {"charconv", std::move(v.convs)}, {"charcmps", std::move(v.charcmps)}, {"getopts", std::move(v.getopts)}, {"records", std::move(v.records)}, {"effects", std::move(ef)}, {"freads", V::arr(v.freads)}, {"inits", std::move(v.inits)}, {"errors", (int64_t)C.getDiagnostics().hasErrorOccurred()}}) << "\n";
  }
};
static std::string OUT;
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(OUT); } };
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  std::string src = argv[1]; OUT = argv[2];
  std::vector<std::string> fl; for (int i = 4; i < argc; i++) fl.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", fl);
  tooling::ClangTool T(db, {src});
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster({"-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"}, tooling::ArgumentInsertPosition::BEGIN));
  return T.run(tooling::newFrontendActionFactory<Act>().get()) ? 2 : 0;
}
