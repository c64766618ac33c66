// limbo-link: type-checks one translation unit and reports, as JSON, the compile errors with their instantiation stacks, what was
// instantiated from the given root, which definitions there have strong external linkage (a second translation unit including the
// same header would define them again), and which functions and variables declared there are odr-used but nowhere defined.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string gRoot, gOut;
static json::Array gErrors, gStrong, gUndef, gFiles, gMutable;
static std::set<std::string> gClasses, gFuncs;

static json::Object at(SourceManager &SM, SourceLocation L) {
  json::Object o;
  PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
  if (P.isValid()) { o["file"] = P.getFilename(); o["line"] = P.getLine(); }
  return o;
}
struct Diag : DiagnosticConsumer {
  bool last = false;
  void HandleDiagnostic(DiagnosticsEngine::Level Lv, const Diagnostic &D) override {
    DiagnosticConsumer::HandleDiagnostic(Lv, D);
    if (Lv == DiagnosticsEngine::Warning || Lv == DiagnosticsEngine::Remark || Lv == DiagnosticsEngine::Ignored) { last = false; return; }
    SmallString<200> m; D.FormatDiagnostic(m);
    json::Object o;
    if (D.hasSourceManager() && D.getLocation().isValid()) o = at(D.getSourceManager(), D.getLocation());
    o["msg"] = m.str().str();
    if (Lv == DiagnosticsEngine::Note) { if (last && gErrors.size()) (*gErrors.back().getAsObject())["stack"].getAsArray()->push_back(std::move(o)); return; }
    o["stack"] = json::Array(); last = true;
    if (gErrors.size() < 200) gErrors.push_back(std::move(o)); else last = false;
  }
};
struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::set<const Decl *> seen;
  V(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) { PP.SuppressScope = false; }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  std::string path(SourceLocation L) { PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L)); return P.isValid() ? P.getFilename() : ""; }
  bool in(SourceLocation L) { return StringRef(path(L)).startswith(gRoot); }
  std::string name(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s); D->getNameForDiagnostic(os, PP, true); return os.str();
  }
  void out(json::Array &A, const NamedDecl *D, const char *k) {
    auto o = at(SM, D->getLocation()); o["q"] = name(D); o["kind"] = k; A.push_back(std::move(o));
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *D) {
    if (D->isThisDeclarationADefinition() && in(D->getLocation()) && !D->isDependentContext() && !D->isLambda()) gClasses.insert(name(D));
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl *D) {
    if (D->isDependentContext() || !in(D->getLocation()) || D->isImplicit()) return true;
    if (D->isThisDeclarationADefinition() && D->hasBody()) {
      gFuncs.insert(name(D) + path(D->getLocation()) + std::to_string(SM.getExpansionLineNumber(D->getLocation())));
      if (C.GetGVALinkageForFunction(D) == GVA_StrongExternal) out(gStrong, D, "function");
    }
    auto *CD = D->getCanonicalDecl();
    if (D->isUsed(false) && !D->isDefined() && !D->isPureVirtual() && !D->isDeleted() && !D->isDefaulted() && !D->getBuiltinID() && !CD->getTemplateInstantiationPattern() && seen.insert(CD).second) out(gUndef, D, "function");
    if (D->isUsed(false) && !D->isDefined() && !D->isPureVirtual() && !D->isDeleted() && !D->isDefaulted())
      if (auto *P = CD->getTemplateInstantiationPattern()) if (!P->isDefined() && seen.insert(CD).second) out(gUndef, D, "function");
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (isa<ParmVarDecl>(D) || D->getDeclContext()->isDependentContext() || !in(D->getLocation())) return true;
    if (!D->hasGlobalStorage() || D->isStaticLocal()) return true;
    if (D->isThisDeclarationADefinition() == VarDecl::Definition && C.GetGVALinkageForVariable(D) == GVA_StrongExternal) out(gStrong, D, "variable");
    if (D->isThisDeclarationADefinition() == VarDecl::Definition && C.GetGVALinkageForVariable(D) == GVA_Internal && !D->getType().isConstQualified() && !D->isInAnonymousNamespace()) out(gMutable, D, "variable");
    if (D->isUsed(false) && !D->getDefinition() && !D->getTemplateInstantiationPattern() && seen.insert(D->getCanonicalDecl()).second) out(gUndef, D, "variable");
    if (D->isUsed(false) && !D->getDefinition())
      if (auto *P = D->getTemplateInstantiationPattern()) if (!P->getDefinition() && seen.insert(D->getCanonicalDecl()).second) out(gUndef, D, "variable");
    return true;
  }
};
struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    V v(Ctx); v.TraverseDecl(Ctx.getTranslationUnitDecl());
    auto &SM = Ctx.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it)
      if (it->first.getName().startswith(gRoot)) gFiles.push_back(it->first.getName().str());
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
struct Fac : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
int main(int argc, const char **argv) {
  // limbo-link OUT.json SRC ROOT -- flags
  if (argc < 5) return 2;
  gOut = argv[1]; gRoot = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  flags.push_back("-ferror-limit=0");
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool T(db, {std::string(argv[2])});
  Diag D; T.setDiagnosticConsumer(&D);
  Fac f; T.run(&f);
  json::Object r;
  r["errors"] = std::move(gErrors); r["strong"] = std::move(gStrong); r["undefined"] = std::move(gUndef); r["files"] = std::move(gFiles); r["mutable"] = std::move(gMutable);
  json::Array c; for (auto &s : gClasses) c.push_back(s);
  r["classes"] = std::move(c); r["functions"] = (int64_t)gFuncs.size();
  std::error_code EC; llvm::raw_fd_ostream os(gOut, EC); os << json::Value(std::move(r));
  return 0;
}
