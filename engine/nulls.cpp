// nulls: where a null pointer is a value of its own (the empty set). Every function given one of these pointers, as an argument, through a
// pointer, or as a member of what an argument points to, is followed from its entry with that pointer null; and every load of a field that may
// be null is followed with its value null. What is dereferenced, asserted on, or passed to where it is, is recorded, and what is answered.
//   nulls LIB.bc OUT.json SPEC
// SPEC: "type NAME" (struct whose pointers are sets), "field STRUCT MEMBER" (other fields which may be null)
#include <set>
#include <vector>
#include "noret.h"
#include "walk.h"
static set<string> types; static set<pair<string, string>> extra; static int64_t nSteps = 0, nOver = 0;
static const DIType *strip(const DIType *d) { while (auto *x = dyn_cast_or_null<DIDerivedType>(d)) { auto t = x->getTag(); if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_restrict_type) d = x->getBaseType(); else break; } return d; }
static const DIType *pointee(const DIType *d) { auto *x = dyn_cast_or_null<DIDerivedType>(strip(d)); return x && x->getTag() == dwarf::DW_TAG_pointer_type ? strip(x->getBaseType()) : nullptr; }
static string isSet(const DIType *d) { auto *c = dyn_cast_or_null<DICompositeType>(pointee(d)); return c && types.count(c->getName().str()) ? c->getName().str() : ""; }
static map<string, const DICompositeType *> full;
static const DICompositeType *comp(const DIType *d) { auto *c = dyn_cast_or_null<DICompositeType>(d); if (!c || c->getTag() != dwarf::DW_TAG_structure_type) return nullptr; if (c->isForwardDecl()) { auto i = full.find(c->getName().str()); return i == full.end() ? nullptr : i->second; } return c; }
static void members(const DICompositeType *c, int64_t base, const string &pre, vector<std::tuple<string, int64_t, string>> &out, int d = 0) { if (d > 3) return; for (auto *e : c->getElements()) { auto *m = dyn_cast<DIDerivedType>(e); if (!m || m->getTag() != dwarf::DW_TAG_member || m->isBitField()) continue; int64_t o = base + m->getOffsetInBits() / 8; string n = pre + m->getName().str(); string t = isSet(m->getBaseType()); if (!t.empty() || extra.count({c->getName().str(), m->getName().str()})) out.push_back({n, o, t}); else if (auto *s = comp(strip(m->getBaseType()))) members(s, o, n + ".", out, d + 1); } }
static set<string> tagged; static Val nullV() { if (!Walk::tagMode) return C(0, true); Val v; v.k = 3; v.c = 1; v.t = true; return v; }
static bool needsIt(const Function *F, unsigned i) {
	string n = F->getName().str(); if (Walk::tagMode && (n == "f_free" || n == "f_realloc" || n == "free" || n == "realloc")) return i == (n[0] == 'f' && n[1] == '_'); if (F->isDeclaration()) { static set<string> bad{"strlen", "strcmp", "memcmp", "strcpy", "strcat", "strchr", "strdup", "memcpy", "strncmp", "qsort", "fputs", "puts", "strtol", "strtoul"}; return bad.count(n) && (n != "qsort" || i == 0); }
	if (n == "f_free" || i >= F->arg_size()) return false; static map<std::tuple<const Function *, unsigned, bool>, int> memo; auto k = std::make_tuple(F, i, Walk::tagMode); auto it = memo.find(k); if (it != memo.end()) return it->second > 0; memo[k] = 0; bool r = false;
	Walk w(F); w.cap = 400; w.onRet = [](const ReturnInst *, const Env &, Val) {}; w.onUse = [&](const Instruction *, const char *, const Function *) { r = true; };
	Env e; e.f[ssaNode(F->getArg(i))] = nullV(); w.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w.run(); memo[k] = r; return r; }
static Val answer(const Function *F, const vector<B> &args) {
	vector<std::tuple<unsigned, Val>> in; for (unsigned i = 0; i < args.size() && i < F->arg_size(); i++) if ((args[i].v.k == 1 || (Walk::tagMode && args[i].v.k == 3)) && args[i].v.t && !args[i].off) in.push_back({i, args[i].v}); if (in.empty() || F->getReturnType()->isVoidTy()) return Val();
	static map<pair<const Function *, vector<std::tuple<unsigned, Val>>>, Val> memo; auto k = std::make_pair(F, in); auto it = memo.find(k); if (it != memo.end()) return it->second; memo[k] = Val();
	set<Val> out; Walk w(F); w.cap = 400; w.onRet = [&](const ReturnInst *, const Env &, Val v) { v.t = false; out.insert(v); }; w.onUse = [](const Instruction *, const char *, const Function *) {};
	Env e; for (auto &x : in) e.f[ssaNode(F->getArg(std::get<0>(x)))] = std::get<1>(x); w.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w.run(); nSteps += w.steps; if (w.over || out.size() != 1 || out.begin()->k != 1) return Val(); return memo[k] = *out.begin(); }
static bool needsCell(const Function *F, unsigned i, int64_t off) {
	static map<std::tuple<const Function *, unsigned, int64_t, bool>, int> memo; if (i >= F->arg_size()) return false; auto k = std::make_tuple(F, i, off, Walk::tagMode); auto it = memo.find(k); if (it != memo.end()) return it->second > 0; memo[k] = 0; bool r = false;
	Walk w(F); w.cap = 400; w.onRet = [](const ReturnInst *, const Env &, Val) {}; w.onUse = [&](const Instruction *, const char *, const Function *) { r = true; };
	Env e; MV m; m.b.v = nullV(); m.own = true; m.key = "flag"; e.m[{ssaNode(F->getArg(i)), off}] = m; w.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w.run(); nSteps += w.steps; memo[k] = r; return r; }
static Val told(const Function *F, const set<std::tuple<unsigned, int64_t, Val>> &in) {
	static map<pair<const Function *, set<std::tuple<unsigned, int64_t, Val>>>, Val> memo; auto k = std::make_pair(F, in); auto it = memo.find(k); if (it != memo.end()) return it->second; memo[k] = Val();
	set<Val> out; Walk w(F); w.cap = 400; w.onRet = [&](const ReturnInst *, const Env &, Val v) { v.t = false; out.insert(v); }; w.onUse = [](const Instruction *, const char *, const Function *) {};
	Env e; for (auto &x : in) { unsigned i = std::get<0>(x); if (i >= F->arg_size()) return Val(); MV m; m.b.v = std::get<2>(x); m.own = true; m.key = "flag"; e.m[{ssaNode(F->getArg(i)), std::get<1>(x)}] = m; }
	w.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w.run(); nSteps += w.steps; if (w.over || out.size() != 1 || out.begin()->k != 1) return Val(); return memo[k] = *out.begin(); }
static J::Array out;
static void entry(const Function *F, unsigned i, const string &pname, const string &member, int64_t off, int kind) {   // kind 0 the argument, 1 what it points to
	J::Array uses; set<string> seen; set<Val> rets; Walk w(F); w.onRet = [&](const ReturnInst *, const Env &, Val v) { v.t = false; rets.insert(v); };
	w.onUse = [&](const Instruction *in, const char *how, const Function *g) { string d = string(how) + (g ? " " + nameOf(g) + "()" : ""); if (seen.insert(d).second) uses.push_back(J::Array{d, loc(in)}); };
	Env e; if (kind == 0) { e.f[ssaNode(F->getArg(i))] = nullV(); } else { MV m; m.b.v = nullV(); m.own = true; m.key = "flag"; e.m[{ssaNode(F->getArg(i)), off}] = m; }
	w.from(&F->getEntryBlock(), &F->getEntryBlock().front(), e); w.run(); nSteps += w.steps; nOver += w.over;
	J::Array rs; if (!F->getReturnType()->isVoidTy()) for (auto &r : rets) rs.push_back(r.k == 1 ? std::to_string(r.c) : r.k >= 2 ? "nonzero" : "?");
	out.push_back(J::Object{{"fn", nameOf(F)}, {"file", fileOf(F)}, {"where", F->getSubprogram() ? fileOf(F) + ":" + std::to_string(F->getSubprogram()->getLine()) : ""}, {"static", F->hasLocalLinkage()}, {"param", pname}, {"member", member}, {"kind", kind}, {"tag", Walk::tagMode}, {"uses", std::move(uses)}, {"returns", std::move(rs)}, {"over", w.over}}); }
// a set read from memory, and given to a function which takes sets, may be the empty one
static J::Array sites; static int64_t nLoads = 0, nLoadOver = 0;
static void loaded(Function &F, const LoadInst *l, const string &to) {
	nLoads++; set<string> seen; J::Array uses; Walk w0(&F); w0.target = l; w0.onRet = [](const ReturnInst *, const Env &, Val) {}; w0.onUse = [](const Instruction *, const char *, const Function *) {}; w0.from(&F.getEntryBlock(), &F.getEntryBlock().front(), Env()); w0.run(); nSteps += w0.steps;
	vector<Env> st = w0.hits; if (w0.over) { st.clear(); st.push_back(w0.seed(l)); }
	Walk w(&F); w.onRet = [](const ReturnInst *, const Env &, Val) {}; w.onUse = [&](const Instruction *in, const char *how, const Function *g) { string d = string(how) + (g ? " " + nameOf(g) + "()" : ""); if (seen.insert(d).second) uses.push_back(J::Array{d, loc(in)}); };
	for (auto &h : st) { Env e = h; B p = w.eval(e, l->getPointerOperand()); if (p.v.k == 1) continue; B was = w.eval(e, l->getPointerOperand()); w.exec(e, l); if (e.b.count(l)) { auto &b = e.b[l]; if (b.v.k >= 2 || (b.v.k == 1 && b.v.c)) continue; if (b.node) { Val k = w.known(e, b.node); if (k.k >= 2 || (k.k == 1 && k.c)) continue; e.f[b.node] = nullV(); } } B b; b.v = nullV(); e.b[l] = b; w.startAfter(l, e); }
	nSteps += w.steps; if (w.over) nLoadOver++; if (!uses.empty()) sites.push_back(J::Object{{"fn", nameOf(&F)}, {"file", fileOf(&F)}, {"where", loc(l)}, {"to", to}, {"tag", Walk::tagMode}, {"uses", std::move(uses)}}); }
int main(int argc, char **argv) {
	LLVMContext X; SMDiagnostic er; auto Mp = parseIRFile(argv[1], er, X); if (!Mp) { er.print("nulls", errs()); return 2; } M = Mp.get(); DL = &M->getDataLayout(); inferNoReturn(*M); inlineParts(*M);
	{ std::ifstream f(argv[3]); string l; while (std::getline(f, l)) { std::istringstream s(l); string k, a, b; s >> k >> a >> b; if (k == "type") types.insert(a); else if (k == "tagged") tagged.insert(a); else if (k == "field") extra.insert({a, b}); } }
	{ PassBuilder PB; LoopAnalysisManager L; FunctionAnalysisManager FA_; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA_); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA_, CG, MA);
	  FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::PreserveCFG)); for (auto &F : *M) if (!F.isDeclaration()) FP.run(F, FA_); }
	computeMod(); Walk::nullDeref = needsIt; Walk::flagIn = told; Walk::needsCell = needsCell; Walk::argIn = answer;
	DebugInfoFinder D; D.processModule(*M); for (auto *t : D.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_structure_type && !c->isForwardDecl()) full[c->getName().str()] = c;
	int64_t nf = 0;
	for (int mode = 0; mode < 2; mode++) { Walk::tagMode = mode; if (mode) { types = tagged; extra.clear(); if (types.empty()) break; }
	for (auto &F : *M) { auto *sp = F.getSubprogram(); if (F.isDeclaration() || !sp) continue; auto el = sp->getType()->getTypeArray(); nf++; if (el.size() != F.arg_size() + 1) continue;
		map<unsigned, string> names; for (auto *n : sp->getRetainedNodes()) if (auto *v = dyn_cast<DILocalVariable>(n)) if (v->getArg()) names[v->getArg() - 1] = v->getName().str();
		for (unsigned i = 0; i < F.arg_size(); i++) { auto *t = el[i + 1]; string pn = "#" + std::to_string(i); if (!F.getArg(i)->getType()->isPointerTy()) continue;
			if (!isSet(t).empty()) { entry(&F, i, pn, "", 0, 0); continue; } auto *p = pointee(t); if (!p) continue; if (!isSet(p).empty()) { entry(&F, i, pn, "", 0, 1); continue; }
			if (auto *c = comp(p)) { vector<std::tuple<string, int64_t, string>> ms; members(c, 0, "", ms); for (auto &m : ms) entry(&F, i, pn, c->getName().str() + "." + std::get<0>(m), std::get<1>(m), 1); } } }
	for (auto &F : *M) { map<const LoadInst *, string> ls; for (auto &Bk : F) for (auto &I : Bk) if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = callee(c); auto *sp = g ? g->getSubprogram() : nullptr; if (!sp) continue; auto el = sp->getType()->getTypeArray(); if (el.size() != g->arg_size() + 1) continue;
		for (unsigned i = 0; i < c->arg_size() && i < g->arg_size(); i++) if (!isSet(el[i + 1]).empty()) if (auto *l = dyn_cast<LoadInst>(c->getArgOperand(i))) if (!isa<AllocaInst>(getUnderlyingObject(l->getPointerOperand())) && !(mode && isa<Argument>(l->getPointerOperand()))) ls[l] = nameOf(g); }
		for (auto &l : ls) loaded(F, l.first, l.second); }
	}
	std::error_code ec; raw_fd_ostream O(argv[2], ec); O << J::Value(J::Object{{"entries", std::move(out)}, {"sites", std::move(sites)}, {"loads", nLoads}, {"loadover", nLoadOver}, {"functions", nf}, {"steps", nSteps}, {"over", nOver}}) << "\n"; return 0;
}
