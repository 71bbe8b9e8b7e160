// astscan: type-check the library's headers (all of them, in one translation unit) and write the facts
// about state and effects that engine/effects.py judges, one JSON object per line.  Template patterns are
// visited as written, so functions nobody instantiates are covered as well.  No code is run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <sstream>
using namespace clang;
namespace json = llvm::json;

static std::string Root;

struct Deps : RecursiveASTVisitor<Deps> {
  std::vector<std::string> found;
  bool VisitDeclRefExpr(DeclRefExpr* e) {
    if (auto* v = dyn_cast<VarDecl>(e->getDecl())) var(v);
    return true;
  }
  void var(VarDecl* v) {
    if (v->hasGlobalStorage() || v->isConstexpr()) return;
    // a constant local is as constant as its initializer
    if (!isa<ParmVarDecl>(v) && v->getType().isConstQualified() && v->getInit() && found.size() < 50) {
      TraverseStmt(v->getInit());
      return;
    }
    found.push_back(v->getNameAsString());
  }
  bool VisitCXXThisExpr(CXXThisExpr*) { found.push_back("this"); return true; }
  bool TraverseLambdaExpr(LambdaExpr* e) {
    // the parameters of a lambda in the initializer are not arguments of the function
    for (auto& c : e->captures())
      if (c.capturesVariable()) {
        if (auto* v = dyn_cast<VarDecl>(c.getCapturedVar())) var(v);
      } else if (c.capturesThis()) found.push_back("this");
    return true;
  }
};

struct V : RecursiveASTVisitor<V> {
  ASTContext& C;
  std::vector<const FunctionDecl*> fs;
  explicit V(ASTContext& c) : C(c) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }

  bool in(SourceLocation l, std::string* f = nullptr, unsigned* ln = nullptr) {
    auto& sm = C.getSourceManager();
    auto e = sm.getExpansionLoc(l);
    if (e.isInvalid()) return false;
    std::string name = sm.getFilename(e).str();
    if (name.rfind(Root, 0) != 0) return false;
    if (f) *f = name.substr(Root.size());
    if (ln) *ln = sm.getExpansionLineNumber(e);
    return true;
  }
  void emit(const char* k, SourceLocation l, json::Object o) {
    std::string f; unsigned ln = 0;
    if (!in(l, &f, &ln)) return;
    o["k"] = k; o["file"] = f; o["line"] = (int64_t)ln;
    o["func"] = fs.empty() ? "" : fs.back()->getQualifiedNameAsString();
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
  bool TraverseDecl(Decl* d) {
    if (!d) return true;
    // skip what lies outside the library, but enter namespaces
    if (!isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !in(d->getLocation()) && !in(d->getBeginLoc())) return true;
    auto* f = dyn_cast<FunctionDecl>(d);
    if (f) fs.push_back(f);
    bool r = RecursiveASTVisitor::TraverseDecl(d);
    if (f) fs.pop_back();
    return r;
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    json::Array ps;
    for (auto* p : f->parameters()) {
      QualType t = p->getType();
      std::string m;
      if (t->isLValueReferenceType() && !t.getNonReferenceType().isConstQualified() && !t.getNonReferenceType()->isFunctionType()) m = "ref";
      else if (t->isPointerType() && !t->getPointeeType().isConstQualified() && !t->getPointeeType()->isFunctionType()) m = "ptr";
      if (!m.empty()) ps.push_back(json::Object{{"name", p->getNameAsString()}, {"type", t.getAsString()}, {"how", m}});
    }
    auto* m = dyn_cast<CXXMethodDecl>(f);
    emit("fn", f->getLocation(), json::Object{{"name", f->getQualifiedNameAsString()}, {"constexpr", f->isConstexpr()}, {"body", f->doesThisDeclarationHaveABody()},
         {"method", m && !m->isStatic()}, {"const", m && m->isConst()}, {"mut", std::move(ps)}});
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (isa<ParmVarDecl>(v) || !v->hasGlobalStorage()) return true;
    Deps d;
    if (v->isStaticLocal() && v->getInit() && !v->isConstexpr()) d.TraverseStmt(v->getInit());
    json::Array deps;
    for (auto& s : d.found) deps.push_back(s);
    QualType t = v->getType();
    if (t->isReferenceType()) t = t.getNonReferenceType();
    bool cst = v->isConstexpr() || C.getBaseElementType(t).isConstQualified();
    // a constant pointer to something mutable is not constant state
    if (cst && t->isPointerType() && !t->getPointeeType().isConstQualified()) cst = false;
    emit("var", v->getLocation(), json::Object{{"name", v->getQualifiedNameAsString()}, {"type", v->getType().getAsString()}, {"const", cst}, {"constexpr", v->isConstexpr()},
         {"tls", v->getTLSKind() != VarDecl::TLS_None}, {"local", v->isStaticLocal()}, {"deps", std::move(deps)}});
    return true;
  }
  bool VisitFieldDecl(FieldDecl* f) {
    json::Object o{{"name", f->getQualifiedNameAsString()}, {"type", f->getType().getAsString()}, {"mutable", f->isMutable()},
                   {"indirect", f->getType()->isPointerType() || f->getType()->isReferenceType()}};
    emit("field", f->getLocation(), std::move(o));
    return true;
  }
  bool VisitExplicitCastExpr(ExplicitCastExpr* e) {
    QualType to = e->getTypeAsWritten(), from = e->getSubExpr()->getType();
    bool drop = false;
    auto quals = [](QualType t) { return t->isPointerType() || t->isReferenceType() ? t->getPointeeType().getQualifiers() : Qualifiers(); };
    if (to->isPointerType() || to->isReferenceType()) {
      Qualifiers q = from->isPointerType() && to->isPointerType() ? quals(from) : from.getQualifiers();
      if (auto* u = dyn_cast<UnaryOperator>(e->getSubExpr()->IgnoreParenImpCasts()))
        if (u->getOpcode() == UO_AddrOf) q = u->getSubExpr()->getType().getQualifiers();
      drop = q.hasConst() && !quals(to).hasConst() && !to->isRValueReferenceType();
    }
    const char* kind = isa<CXXConstCastExpr>(e) ? "const_cast" : isa<CXXReinterpretCastExpr>(e) ? "reinterpret_cast" : isa<CStyleCastExpr>(e) ? "c-style" : isa<CXXStaticCastExpr>(e) ? "static_cast" : "functional";
    Deps d;
    d.TraverseStmt(e->getSubExpr());
    bool self = false, other = false;
    for (auto& x : d.found) (x == "this" ? self : other) = true;
    auto* m = fs.empty() ? nullptr : dyn_cast<CXXMethodDecl>(fs.back());
    // the idiom that implements a mutable accessor by its const twin changes nothing but the object it is called on
    bool own = drop && self && m && !m->isConst() && !m->isStatic();
    (void)other;
    if (own) drop = false;
    emit("cast", e->getBeginLoc(), json::Object{{"kind", kind}, {"from", from.getAsString()}, {"to", to.getAsString()}, {"drops_const", drop}, {"indirect", to->isPointerType() || to->isReferenceType()}});
    return true;
  }
  void ref(const std::string& n, bool var, SourceLocation l) { emit("ref", l, json::Object{{"name", n}, {"var", var}}); }
  bool VisitDeclRefExpr(DeclRefExpr* e) {
    auto* d = e->getDecl();
    if (in(d->getLocation())) return true;
    if (isa<FunctionDecl>(d)) ref(d->getQualifiedNameAsString(), false, e->getBeginLoc());
    else if (auto* v = dyn_cast<VarDecl>(d)) {
      if (v->hasGlobalStorage() && !v->isConstexpr() && !C.getBaseElementType(v->getType()).isConstQualified()) ref(d->getQualifiedNameAsString(), true, e->getBeginLoc());
    }
    return true;
  }
  bool VisitUnresolvedLookupExpr(UnresolvedLookupExpr* e) {
    for (auto* d : e->decls())
      if (!in(d->getLocation())) { ref(d->getQualifiedNameAsString(), false, e->getBeginLoc()); break; }
    return true;
  }
  bool VisitCXXMemberCallExpr(CXXMemberCallExpr* e) {
    if (auto* m = e->getMethodDecl())
      if (!in(m->getLocation())) ref(m->getQualifiedNameAsString(), false, e->getBeginLoc());
    return true;
  }
  bool VisitCXXConstructExpr(CXXConstructExpr* e) {
    auto* m = e->getConstructor();
    if (!in(m->getLocation())) ref(m->getParent()->getQualifiedNameAsString(), false, e->getBeginLoc());
    return true;
  }
  bool VisitGCCAsmStmt(GCCAsmStmt* s) { emit("asm", s->getBeginLoc(), json::Object{}); return true; }
  bool VisitCXXNewExpr(CXXNewExpr* e) { emit("new", e->getBeginLoc(), json::Object{}); return true; }
  bool VisitCXXDeleteExpr(CXXDeleteExpr* e) { emit("delete", e->getBeginLoc(), json::Object{}); return true; }
};

struct Act : ASTFrontendAction {
  struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext& c) override { V(c).TraverseDecl(c.getTranslationUnitDecl()); }
  };
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, char** argv) {
  // astscan ROOT SOURCE ARGS...
  Root = argv[1];
  std::ifstream f(argv[2]);
  std::stringstream ss;
  ss << f.rdbuf();
  std::vector<std::string> args(argv + 3, argv + argc);
  bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), ss.str(), args, argv[2], "clang-tool", std::make_shared<PCHContainerOperations>());
  return ok ? 0 : 1;
}
