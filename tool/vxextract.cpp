// vxextract: dump the resolved (type-checked) program of one C translation
// unit as compact JSON.  Built against the installed clang 18 libraries.
// Output: {"file":..,"types":[..],"funcs":[..],"globals":[..],"records":[..],
//          "enums":[..],"errors":n}
// Expressions: [kind, line, typeidx, ...]; statements: [kind, line, ...].
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Attr.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace clang;
using namespace clang::tooling;

static std::string OutPath;

static std::string esc(llvm::StringRef s) {
  std::string o = "\"";
  char b[16];
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    case '\r': o += "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char)c;
    }
  }
  return o + "\"";
}

class Dumper {
  ASTContext &C;
  SourceManager &SM;
  const LangOptions &LO;
  std::string out;
  std::map<std::string, int> tix;
  std::vector<std::string> types;
  std::map<const Decl *, int> dix;
  std::string base;

public:
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), LO(c.getLangOpts()) {
    auto fe = SM.getFileEntryRefForID(SM.getMainFileID());
    base = fe ? fe->getName().str() : "?";
    auto p = base.rfind('/');
    if (p != std::string::npos) base = base.substr(p + 1);
  }
  int ty(QualType q) {
    std::string s = q.isNull() ? "?" : q.getUnqualifiedType().getAsString();
    auto it = tix.find(s);
    if (it != tix.end()) return it->second;
    int n = types.size();
    // spelled, canonical
    types.push_back(s);
    tix[s] = n;
    ctypes.push_back(q.isNull() ? "?" : q.getCanonicalType().getUnqualifiedType().getAsString());
    return n;
  }
  std::vector<std::string> ctypes;
  int line(SourceLocation l) {
    if (l.isInvalid()) return 0;
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    return p.isValid() ? (int)p.getLine() : 0;
  }
  std::string pfile(SourceLocation l) {
    if (l.isInvalid()) return "";
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    return p.isValid() ? std::string(p.getFilename()) : "";
  }
  std::string shortf(SourceLocation l) {
    std::string f = pfile(l);
    auto p = f.rfind('/');
    return p == std::string::npos ? f : f.substr(p + 1);
  }
  std::string dname(const ValueDecl *d) {
    std::string n = d->getNameAsString();
    if (auto *v = dyn_cast<VarDecl>(d)) {
      if (v->isLocalVarDeclOrParm() && !v->isStaticLocal() && !v->hasExternalStorage()) {
        const Decl *cd = v->getCanonicalDecl();
        auto it = dix.find(cd);
        int id;
        if (it == dix.end()) { id = dix.size() + 1; dix[cd] = id; } else id = it->second;
        return n + "#" + std::to_string(id);
      }
      if (v->isStaticLocal()) {
        auto *fd = dyn_cast<FunctionDecl>(v->getDeclContext());
        return n + "@" + base + ":" + (fd ? fd->getNameAsString() : "?");
      }
      if (v->getFormalLinkage() == Linkage::Internal) return n + "@" + base;
      return n;
    }
    if (auto *f = dyn_cast<FunctionDecl>(d)) {
      if (f->getFormalLinkage() == Linkage::Internal) {
	// static functions from headers keep plain file of definition
	return n + "@" + base;
      }
      return n;
    }
    return n;
  }
  std::string macroName(SourceLocation l) {
    if (!l.isMacroID()) return "";
    // outermost macro whose expansion this is
    SourceLocation cur = l;
    std::string name;
    int guard = 0;
    while (cur.isMacroID() && guard++ < 64) {
      if (SM.isMacroArgExpansion(cur)) { cur = SM.getImmediateSpellingLoc(cur); name = ""; continue; }
      name = Lexer::getImmediateMacroName(cur, SM, LO).str();
      return name;
    }
    return name;
  }
  void open(const char *k, SourceLocation l) {
    out += "[\""; out += k; out += "\","; out += std::to_string(line(l));
  }
  void expr(const Expr *e) {
    if (!e) { out += "null"; return; }
    SourceLocation L = e->getExprLoc();
    // strip
    const Expr *s = e;
    while (true) {
      if (auto *p = dyn_cast<ParenExpr>(s)) s = p->getSubExpr();
      else if (auto *i = dyn_cast<ImplicitCastExpr>(s)) s = i->getSubExpr();
      else if (auto *f = dyn_cast<FullExpr>(s)) s = f->getSubExpr();
      else if (auto *o = dyn_cast<OpaqueValueExpr>(s)) { if (!o->getSourceExpr()) break; s = o->getSourceExpr(); }
      else if (auto *g = dyn_cast<GenericSelectionExpr>(s)) s = g->getResultExpr();
      else break;
    }
    e = s;
    std::string T = "," + std::to_string(ty(e->getType()));
    // integer constants (not for things with side effects)
    if (e->getType()->isIntegralOrEnumerationType() && !isa<DeclRefExpr>(e) && !e->isValueDependent()) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && !r.HasSideEffects) {
        open("int", L); out += T + ",";
        llvm::SmallString<24> b; r.Val.getInt().toString(b, 10);
        // beyond 2^53 is fine for python
        out += b.str(); 
        out += "," + esc(macroName(e->getBeginLoc()));
        if (auto *c = dyn_cast<CharacterLiteral>(e)) { (void)c; out += ",\"chr\""; }
        else if (isa<UnaryExprOrTypeTraitExpr>(e)) {
          auto *u = cast<UnaryExprOrTypeTraitExpr>(e);
          if (u->getKind() == UETT_SizeOf) {
            out += ",\"sizeof\"," + std::to_string(ty(u->getTypeOfArgument()));
            if (!u->isArgumentType()) { out += ","; expr(u->getArgumentExpr()); }
          }
        }
        out += "]"; return;
      }
    }
    if (e->getType()->isPointerType() && !isa<DeclRefExpr>(e) && !isa<StringLiteral>(e)) {
      if (e->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNotNull) != Expr::NPCK_NotNull) {
        open("int", L); out += T + ",0,\"NULL\"]"; return;
      }
    }
    if (auto *d = dyn_cast<DeclRefExpr>(e)) {
      auto *vd = d->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(vd)) {
        open("int", L); out += T + ",";
        llvm::SmallString<24> b; ec->getInitVal().toString(b, 10);
        out += b.str(); out += ","; out += esc(ec->getNameAsString()); out += ",\"enum\"]"; return;
      }
      if (isa<FunctionDecl>(vd)) { open("fn", L); out += T + "," + esc(dname(vd)) + "]"; return; }
      const char *k = "g";
      if (auto *v = dyn_cast<VarDecl>(vd)) {
        if (isa<ParmVarDecl>(v)) k = "p";
        else if (v->isStaticLocal()) k = "s";
        else if (v->isLocalVarDecl() && !v->hasExternalStorage()) k = "l";
      }
      open("var", L); out += T + "," + esc(dname(vd)) + ",\"" + k + "\"]"; return;
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { open("int", L); llvm::SmallString<24> b; x->getValue().toString(b,10,true); out += T + "," + b.str().str() + ",\"\"]"; return; }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { open("flt", L); llvm::SmallString<24> b; x->getValue().toString(b); out += T + "," + esc(b) + "]"; return; }
    if (auto *x = dyn_cast<StringLiteral>(e)) { open("str", L); out += T + "," + esc(x->isOrdinary() || x->isUTF8() ? x->getString() : "") + "]"; return; }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) { open("str", L); out += T + "," + esc(x->getFunctionName() ? x->getFunctionName()->getString() : "") + "]"; return; }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      open("call", L); out += T + ","; expr(x->getCallee()); out += ",[";
      for (unsigned i = 0; i < x->getNumArgs(); i++) { if (i) out += ","; expr(x->getArg(i)); }
      out += "]," + esc(macroName(x->getBeginLoc())) + "]"; return;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      open("mem", L); out += T + ","; expr(x->getBase());
      out += "," + esc(x->getMemberDecl()->getNameAsString()) + (x->isArrow() ? ",1," : ",0,");
      std::string rn;
      if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) rn = recName(fd->getParent());
      out += esc(rn) + "]"; return;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { open("idx", L); out += T + ","; expr(x->getBase()); out += ","; expr(x->getIdx()); out += "]"; return; }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      open("un", L); std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) op = "p" + op;
      out += T + "," + esc(op) + ","; expr(x->getSubExpr()); out += "]"; return;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      open("bin", L); out += T + "," + esc(x->getOpcodeStr()) + ","; expr(x->getLHS()); out += ","; expr(x->getRHS()); out += "]"; return;
    }
    if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) {
      open("cond", L); out += T + ",";
      if (auto *b = dyn_cast<BinaryConditionalOperator>(e)) { expr(b->getCommon()); out += ","; expr(b->getCommon()); out += ","; expr(b->getFalseExpr()); }
      else { expr(x->getCond()); out += ","; expr(x->getTrueExpr()); out += ","; expr(x->getFalseExpr()); }
      out += "]"; return;
    }
    if (auto *x = dyn_cast<CStyleCastExpr>(e)) { open("cast", L); out += T + ","; expr(x->getSubExpr()); out += "]"; return; }
    if (auto *x = dyn_cast<CompoundLiteralExpr>(e)) { expr(x->getInitializer()); return; }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr *sem = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!sem) sem = x;
      open("init", L); out += T + ",[";
      for (unsigned i = 0; i < sem->getNumInits(); i++) { if (i) out += ","; expr(sem->getInit(i)); }
      out += "]]"; return;
    }
    if (auto *x = dyn_cast<StmtExpr>(e)) { open("stmtexpr", L); out += T + ","; stmt(x->getSubStmt()); out += "]"; return; }
    if (auto *x = dyn_cast<VAArgExpr>(e)) { open("vaarg", L); out += T + ","; expr(x->getSubExpr()); out += "]"; return; }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      open("szof", L); out += T + "," + std::to_string(ty(x->getTypeOfArgument())) + "]"; return;
    }
    // generic: keep the children
    open("other", L); out += T + "," + esc(e->getStmtClassName()) + ",[";
    bool first = true;
    for (const Stmt *c : e->children()) {
      if (auto *ce = dyn_cast_or_null<Expr>(c)) { if (!first) out += ","; first = false; expr(ce); }
    }
    out += "]]";
  }
  std::string recName(const RecordDecl *r) {
    std::string n = r->getNameAsString();
    if (n.empty()) { if (auto *t = r->getTypedefNameForAnonDecl()) n = t->getNameAsString(); }
    if (n.empty()) n = "anon:" + shortf(r->getLocation()) + ":" + std::to_string(line(r->getLocation()));
    return n;
  }
  void list(const Stmt *s) { stmt(s); }
  void stmt(const Stmt *s) {
    if (!s) { out += "null"; return; }
    SourceLocation L = s->getBeginLoc();
    if (auto *e = dyn_cast<Expr>(s)) { open("expr", L); out += ","; expr(e); out += "]"; return; }
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      open("block", L); out += ",["; bool f = true;
      for (auto *c : x->body()) { if (!f) out += ","; f = false; stmt(c); }
      out += "]," + esc(macroName(L)) + "," + std::to_string(line(x->getRBracLoc())) + "]"; return;
    }
    if (auto *x = dyn_cast<IfStmt>(s)) { open("if", L); out += ","; expr(x->getCond()); out += ","; stmt(x->getThen()); out += ","; stmt(x->getElse()); out += "]"; return; }
    if (auto *x = dyn_cast<WhileStmt>(s)) { open("while", L); out += ","; expr(x->getCond()); out += ","; stmt(x->getBody()); out += "]"; return; }
    if (auto *x = dyn_cast<DoStmt>(s)) { open("do", L); out += ","; stmt(x->getBody()); out += ","; expr(x->getCond()); out += "]"; return; }
    if (auto *x = dyn_cast<ForStmt>(s)) { open("for", L); out += ","; stmt(x->getInit()); out += ","; expr(x->getCond()); out += ","; expr(x->getInc()); out += ","; stmt(x->getBody()); out += "]"; return; }
    if (auto *x = dyn_cast<SwitchStmt>(s)) { open("switch", L); out += ","; expr(x->getCond()); out += ","; stmt(x->getBody()); out += "]"; return; }
    if (auto *x = dyn_cast<CaseStmt>(s)) { open("case", L); out += ","; expr(x->getLHS()); out += ","; expr(x->getRHS()); out += ","; stmt(x->getSubStmt()); out += "]"; return; }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { open("default", L); out += ","; stmt(x->getSubStmt()); out += "]"; return; }
    if (auto *x = dyn_cast<LabelStmt>(s)) { open("label", L); out += "," + esc(x->getDecl()->getNameAsString()) + ","; stmt(x->getSubStmt()); out += "]"; return; }
    if (auto *x = dyn_cast<GotoStmt>(s)) { open("goto", L); out += "," + esc(x->getLabel()->getNameAsString()) + "]"; return; }
    if (auto *x = dyn_cast<ReturnStmt>(s)) { open("ret", L); out += ","; expr(x->getRetValue()); out += "]"; return; }
    if (isa<BreakStmt>(s)) { open("break", L); out += "]"; return; }
    if (isa<ContinueStmt>(s)) { open("cont", L); out += "]"; return; }
    if (isa<NullStmt>(s)) { open("null", L); out += "]"; return; }
    if (auto *x = dyn_cast<AttributedStmt>(s)) { stmt(x->getSubStmt()); return; }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      open("decl", L); out += ",["; bool f = true;
      for (auto *d : x->decls()) {
        auto *v = dyn_cast<VarDecl>(d);
        if (!v) continue;
        if (!f) out += ","; f = false;
        bool loc = v->isLocalVarDecl() && !v->isStaticLocal() && !v->hasExternalStorage();
        out += "[" + esc(dname(v)) + "," + std::to_string(ty(v->getType())) + ",";
        if (v->hasInit() && !v->isStaticLocal()) expr(v->getInit()); else out += "null";
        out += loc ? ",1]" : ",0]";
      }
      out += "]]"; return;
    }
    open("ostmt", L); out += "," + esc(s->getStmtClassName()) + "]";
  }
  void func(const FunctionDecl *f, bool &first) {
    if (!first) out += ",\n"; first = false;
    out += "{\"name\":" + esc(dname(f)) + ",\"short\":" + esc(f->getNameAsString()) + ",\"file\":" + esc(shortf(f->getLocation())) +
           ",\"line\":" + std::to_string(line(f->getLocation())) + ",\"end\":" + std::to_string(line(f->getEndLoc())) +
           ",\"static\":" + (f->getFormalLinkage() == Linkage::Internal ? "1" : "0") +
           ",\"var\":" + (f->isVariadic() ? "1" : "0") +
           ",\"noret\":" + ((f->isNoReturn()) ? "1" : "0") +
           ",\"ret\":" + std::to_string(ty(f->getReturnType())) + ",\"params\":[";
    bool pf = true;
    for (auto *p : f->parameters()) {
      if (!pf) out += ","; pf = false;
      out += "[" + esc(dname(p)) + "," + std::to_string(ty(p->getType())) + "]";
    }
    out += "],\"body\":"; stmt(f->getBody()); out += "}";
  }
  void run(unsigned errs) {
    std::ostringstream head;
    out = "{\"file\":" + esc(base) + ",\"errors\":" + std::to_string(errs) + ",\n\"funcs\":[";
    bool first = true;
    std::vector<const VarDecl *> vars;
    std::set<const RecordDecl *> recs;
    std::vector<const RecordDecl *> recl;
    std::vector<const EnumDecl *> enums;
    std::vector<const FunctionDecl *> protos;
    std::vector<const TypedefNameDecl *> tdefs;
    std::function<void(const DeclContext *)> walk = [&](const DeclContext *dc) {
      for (auto *d : dc->decls()) {
        if (auto *ls = dyn_cast<LinkageSpecDecl>(d)) { walk(ls); continue; }
        if (auto *ns = dyn_cast<NamespaceDecl>(d)) { (void)ns; continue; }
        bool sys = SM.isInSystemHeader(SM.getExpansionLoc(d->getLocation()));
        if (auto *f = dyn_cast<FunctionDecl>(d)) {
          if (f->doesThisDeclarationHaveABody()) { if (!sys) func(f, first); }
          else if (!f->isImplicit() && !sys) protos.push_back(f);
          else if (f->isNoReturn()) protos.push_back(f);
        }
        else if (auto *v = dyn_cast<VarDecl>(d)) { if (!sys) vars.push_back(v); }
        else if (auto *r = dyn_cast<RecordDecl>(d)) { if (!sys && r->isCompleteDefinition() && recs.insert(r).second) recl.push_back(r); }
        else if (auto *en = dyn_cast<EnumDecl>(d)) { if (!sys) enums.push_back(en); }
        else if (auto *t = dyn_cast<TypedefNameDecl>(d)) { if (!sys) tdefs.push_back(t); }
      }
    };
    walk(C.getTranslationUnitDecl());
    out += "],\n\"globals\":["; first = true;
    for (auto *v : vars) {
      if (!first) out += ",\n"; first = false;
      out += "[" + esc(dname(v)) + "," + std::to_string(ty(v->getType())) + "," + std::to_string(line(v->getLocation())) + "," + esc(shortf(v->getLocation())) + ",";
      out += v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly ? "1," : "0,";
      if (v->hasInit()) expr(v->getInit()); else out += "null";
      out += "]";
    }
    out += "],\n\"records\":["; first = true;
    for (auto *r : recl) {
      if (r->isInvalidDecl()) continue;
      if (!first) out += ",\n"; first = false;
      out += "[" + esc(recName(r)) + "," + esc(shortf(r->getLocation())) + "," + std::to_string(line(r->getLocation())) + "," + (r->isUnion() ? "1" : "0") + ",[";
      bool ff = true;
      for (auto *f : r->fields()) {
        if (!ff) out += ","; ff = false;
        out += "[" + esc(f->getNameAsString()) + "," + std::to_string(ty(f->getType())) + "," + (f->isBitField() ? "1" : "0") + "]";
      }
      out += "]]";
    }
    out += "],\n\"enums\":["; first = true;
    for (auto *e : enums) {
      if (!first) out += ","; first = false;
      std::string n = e->getNameAsString();
      if (n.empty()) if (auto *t = e->getTypedefNameForAnonDecl()) n = t->getNameAsString();
      out += "[" + esc(n) + ",[";
      bool ff = true;
      for (auto *c : e->enumerators()) { if (!ff) out += ","; ff = false; llvm::SmallString<24> b; c->getInitVal().toString(b, 10); out += "[" + esc(c->getNameAsString()) + "," + b.str().str() + "]"; }
      out += "]]";
    }
    out += "],\n\"protos\":["; first = true;
    for (auto *f : protos) {
      if (!first) out += ","; first = false;
      out += "[" + esc(dname(f)) + "," + std::to_string(ty(f->getReturnType())) + "," + (f->isNoReturn() ? "1" : "0") + "]";
    }
    out += "],\n\"typedefs\":["; first = true;
    for (auto *t : tdefs) {
      if (!first) out += ","; first = false;
      out += "[" + esc(t->getNameAsString()) + "," + std::to_string(ty(t->getUnderlyingType())) + "]";
    }
    out += "],\n\"types\":[";
    for (size_t i = 0; i < types.size(); i++) { if (i) out += ","; out += esc(types[i]); }
    out += "],\n\"ctypes\":[";
    for (size_t i = 0; i < ctypes.size(); i++) { if (i) out += ","; out += esc(ctypes[i]); }
    out += "]}\n";
    std::ofstream o(OutPath);
    o << out;
  }
};

class Cons : public ASTConsumer {
  CompilerInstance &CI;
public:
  Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper d(C);
    d.run(CI.getDiagnostics().getClient()->getNumErrors());
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(CI); }
};

int main(int argc, const char **argv) {
  // vxextract OUT SRC -- flags...
  if (argc < 4) { llvm::errs() << "usage: vxextract out src -- flags\n"; return 2; }
  OutPath = argv[1];
  std::string src = argv[2];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) return 2;
  FixedCompilationDatabase db(cwd, flags);
  ClangTool tool(db, {src});
  tool.clearArgumentsAdjusters();
  tool.appendArgumentsAdjuster(getClangSyntaxOnlyAdjuster());
  int r = tool.run(newFrontendActionFactory<Act>().get());
  return r;
}
