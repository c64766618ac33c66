// limbo-extract: dumps the resolved program (type-checked AST, template
// instantiations included) of every function whose definition lies under a given
// root directory, as a compact JSON document.  One invocation = one translation
// unit.  Nothing is executed; this is a syntax/type extractor.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gRoots;
static std::string gOut;
static bool gOk = true;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  llvm::DenseMap<const Decl *, int> declIds;
  std::map<std::string, int> typeIds;
  json::Array types;
  std::map<std::string, int> fileIds;
  json::Array files;
  json::Array funcs, classes, vars;
  std::vector<const FunctionDecl *> queue;
  llvm::DenseMap<const FunctionDecl *, int> funcSeen;
  llvm::DenseMap<const CXXRecordDecl *, int> classSeen;
  std::vector<const CXXRecordDecl *> classQueue;
  llvm::DenseMap<const VarDecl *, int> gvarSeen;
  std::vector<const VarDecl *> gvarQueue;
  json::Array patterns;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressUnwrittenScope = true;
    PP.TerseOutput = true;
    PP.SuppressTagKeyword = true;
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[D] = n;
    return n;
  }
  std::string path(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    std::string p = FE->getFileEntry().tryGetRealPathName().str();
    if (p.empty()) p = FE->getName().str();
    return p;
  }
  int fileId(const std::string &p) {
    auto it = fileIds.find(p);
    if (it != fileIds.end()) return it->second;
    int n = files.size();
    fileIds[p] = n;
    files.push_back(p);
    return n;
  }
  bool inRoot(SourceLocation L) {
    std::string p = path(L);
    for (auto &r : gRoots)
      if (p.rfind(r, 0) == 0) return true;
    return false;
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  int typeId(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    std::string s = CT.getAsString(PP);
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    json::Object o;
    if (s.size() > 600) o["s"] = s.substr(0, 600); else o["s"] = s;
    QualType B = CT;
    if (B->isReferenceType()) {
      o["ref"] = B->isRValueReferenceType() ? 2 : 1;
      B = B->getPointeeType();
    } else if (B->isPointerType()) {
      o["ptr"] = 1;
      B = B->getPointeeType();
    }
    if (B.isConstQualified()) o["const"] = 1;
    QualType U = B.getUnqualifiedType();
    if (U->isDependentType()) o["dep"] = 1;
    else if (U->isEnumeralType()) { o["b"] = "enum"; }
    else if (U->isBooleanType()) o["b"] = "bool";
    else if (U->isIntegerType()) { o["b"] = "int"; o["sg"] = U->isSignedIntegerType() ? 1 : 0; o["w"] = (int64_t)C.getTypeSize(U); }
    else if (U->isFloatingType()) { o["b"] = "float"; o["w"] = (int64_t)C.getTypeSize(U); }
    else if (U->isVoidType()) o["b"] = "void";
    else if (U->isPointerType()) o["b"] = "ptr";
    else if (U->isArrayType()) { o["b"] = "array"; if (auto *AT = C.getAsArrayType(U)) o["el"] = -1; }
    else if (U->isRecordType()) o["b"] = "rec";
    else if (U->isFunctionType()) o["b"] = "func";
    else o["b"] = "other";
    int n = types.size();
    typeIds[s] = n;
    types.push_back(nullptr);
    if (auto *AT = C.getAsArrayType(U)) o["el"] = typeId(AT->getElementType());
    if (auto *RD = U->getAsCXXRecordDecl()) {
      o["rec"] = recName(RD);
      o["rid"] = classId(RD);
    }
    types[n] = std::move(o);
    return n;
  }
  // simple head name without template args
  std::string recName(const RecordDecl *RD) {
    std::string s;
    std::vector<std::string> parts;
    if (auto *CR = dyn_cast<CXXRecordDecl>(RD); CR && CR->isLambda()) return "(lambda)";
    const DeclContext *DC = RD;
    while (DC && !DC->isTranslationUnit()) {
      if (auto *ND = dyn_cast<NamedDecl>(DC)) {
        if (auto *NS = dyn_cast<NamespaceDecl>(DC)) { if (!NS->isInline() && !NS->isAnonymousNamespace()) parts.push_back(NS->getNameAsString()); }
        else parts.push_back(ND->getNameAsString());
      }
      DC = DC->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!s.empty()) s += "::"; s += *it; }
    return s;
  }
  int classId(const CXXRecordDecl *RD) {
    if (const CXXRecordDecl *D = RD->getDefinition()) RD = D;
    RD = cast<CXXRecordDecl>(RD->getCanonicalDecl());
    auto it = classSeen.find(RD);
    if (it != classSeen.end()) return it->second;
    int n = classQueue.size();
    classSeen[RD] = n;
    classQueue.push_back(RD);
    return n;
  }
  int funcId(const FunctionDecl *FD) {
    FD = FD->getCanonicalDecl();
    auto it = funcSeen.find(FD);
    if (it != funcSeen.end()) return it->second;
    int n = queue.size();
    funcSeen[FD] = n;
    queue.push_back(FD);
    return n;
  }
  std::string fqname(const FunctionDecl *FD) {
    std::string s;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) s = recName(MD->getParent());
    else {
      std::vector<std::string> parts;
      const DeclContext *DC = FD->getDeclContext();
      while (DC && !DC->isTranslationUnit()) {
        if (auto *NS = dyn_cast<NamespaceDecl>(DC)) { if (!NS->isInline() && !NS->isAnonymousNamespace()) parts.push_back(NS->getNameAsString()); }
        else if (auto *ND = dyn_cast<NamedDecl>(DC)) parts.push_back(ND->getNameAsString());
        DC = DC->getParent();
      }
      for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!s.empty()) s += "::"; s += *it; }
    }
    if (!s.empty()) s += "::";
    return s + FD->getNameAsString();
  }
  int gvarId(const VarDecl *VD) {
    VD = VD->getCanonicalDecl();
    auto it = gvarSeen.find(VD);
    if (it != gvarSeen.end()) return it->second;
    int n = gvarQueue.size();
    gvarSeen[VD] = n;
    gvarQueue.push_back(VD);
    return n;
  }
  json::Object var(const VarDecl *VD) {
    json::Object o;
    o["id"] = declId(VD);
    o["n"] = VD->getNameAsString();
    o["t"] = typeId(VD->getType());
    o["l"] = line(VD->getLocation());
    if (VD->isStaticLocal()) o["static"] = 1;
    if (VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
    if (VD->isConstexpr()) o["cx"] = 1;
    return o;
  }
  json::Value none() { return nullptr; }

  static const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
        case CK_ConstructorConversion: case CK_UserDefinedConversion:
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
        case CK_ArrayToPointerDecay:
          E = X->getSubExpr(); continue;
        default: break;
        }
      }
      break;
    }
    return E;
  }
  json::Object node(const char *k, SourceLocation L) {
    json::Object o;
    o["k"] = k;
    int l = line(L);
    if (l) o["l"] = l;
    return o;
  }
  json::Array exprs(llvm::ArrayRef<const Expr *> es) {
    json::Array a;
    for (auto *e : es) a.push_back(expr(e));
    return a;
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    E = strip(E);
    json::Object o = exprI(E);
    if (!o.get("t")) o["t"] = typeId(E->getType());
    if (E->isLValue()) o["lv"] = 1;
    return json::Value(std::move(o));
  }
  void callee(json::Object &o, const FunctionDecl *FD) { o["fn"] = funcId(FD); }
  json::Object exprI(const Expr *E) {
    SourceLocation L = E->getExprLoc();
    if (L.isInvalid()) L = E->getBeginLoc();
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      auto o = node("lit", L); o["lk"] = "int";
      llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str()); return o; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      auto o = node("lit", L); o["lk"] = "float";
      llvm::SmallString<40> s; X->getValue().toString(s, 25);
      o["v"] = std::string(s.str()); return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = node("lit", L); o["lk"] = "bool"; o["v"] = X->getValue() ? "1" : "0"; return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { auto o = node("lit", L); o["lk"] = "int"; o["v"] = std::to_string(X->getValue()); return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { auto o = node("lit", L); o["lk"] = "str"; o["v"] = X->isOrdinary() || X->isUTF8() ? llvm::json::fixUTF8(X->getString()) : std::string("?"); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { auto o = node("lit", L); o["lk"] = "null"; o["v"] = "0"; return o; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        auto o = node("lit", L); o["lk"] = "enum"; o["n"] = EC->getNameAsString();
        llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s.str()); return o; }
      auto o = node("ref", L);
      o["n"] = D->getNameAsString();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; callee(o, FD); return o; }
      o["d"] = declId(D);
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(VD)) o["dk"] = "param";
        else if (VD->isLocalVarDecl() && !VD->isStaticLocal()) o["dk"] = "var";
        else { o["dk"] = VD->isStaticLocal() ? "slocal" : "global"; o["g"] = gvarId(VD); }
      } else o["dk"] = "other";
      return o; }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      auto o = node("mem", X->getMemberLoc());
      o["n"] = D->getNameAsString();
      if (auto *VD = dyn_cast<VarDecl>(D)) { o["k"] = "ref"; o["dk"] = "global"; o["d"] = declId(D); o["g"] = gvarId(VD); return o; }
      o["d"] = declId(D);
      if (auto *FD = dyn_cast<FieldDecl>(D)) { if (auto *RD = dyn_cast<CXXRecordDecl>(FD->getParent())) o["cls"] = classId(RD); if (FD->isMutable()) o["mut"] = 1; }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) callee(o, FD);
      o["arrow"] = X->isArrow() ? 1 : 0;
      o["c"] = json::Array{expr(X->getBase())};
      return o; }
    if (isa<CXXThisExpr>(E)) return node("this", L);
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = node("call", L);
      if (auto *MD = X->getMethodDecl()) {
        callee(o, MD);
        o["m"] = 1;
        json::Array a;
        const Expr *Obj = X->getImplicitObjectArgument();
        bool arrow = false;
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { arrow = ME->isArrow(); o["l"] = line(ME->getMemberLoc()); }
        o["arrow"] = arrow ? 1 : 0;
        o["obj"] = expr(Obj);
        for (auto *A : X->arguments()) a.push_back(expr(A));
        o["a"] = std::move(a);
        if (MD->isVirtual()) o["virt"] = 1;
      } else { o["callee"] = expr(X->getCallee()); json::Array a; for (auto *A : X->arguments()) a.push_back(expr(A)); o["a"] = std::move(a); }
      return o; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = node("call", L);
      o["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl *FD = X->getDirectCallee();
      json::Array a;
      unsigned i = 0;
      if (FD) {
        callee(o, FD);
        if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) { o["m"] = 1; o["obj"] = expr(X->getArg(0)); i = 1; }
      }
      for (; i < X->getNumArgs(); ++i) a.push_back(expr(X->getArg(i)));
      o["a"] = std::move(a);
      return o; }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto o = node("call", L);
      if (auto *FD = X->getDirectCallee()) callee(o, FD);
      else o["callee"] = expr(X->getCallee());
      json::Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["a"] = std::move(a);
      return o; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      // elidable copies/moves collapse onto their source
      if (X->isElidable() && X->getNumArgs() == 1) return exprNested(X->getArg(0));
      auto o = node("ctor", L);
      callee(o, X->getConstructor());
      json::Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["a"] = std::move(a);
      const CXXConstructorDecl *CD = X->getConstructor();
      if (CD->isCopyConstructor()) o["copy"] = 1;
      if (CD->isMoveConstructor()) o["move"] = 1;
      if (CD->isDefaultConstructor()) o["dflt"] = 1;
      if (X->requiresZeroInitialization()) o["zero"] = 1;
      return o; }
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
      const Expr *S = X->getSubExpr();
      if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_NoOp) return exprNested(S);
      auto o = node("cast", L); o["ck"] = X->getCastKindName(); o["c"] = json::Array{expr(S)}; o["expl"] = 1; return o; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      if (X->getCastKind() == CK_ConstructorConversion) return exprNested(X->getSubExpr());
      auto o = node("cast", L); o["ck"] = X->getCastKindName(); o["c"] = json::Array{expr(X->getSubExpr())};
      if (isa<ExplicitCastExpr>(X)) o["expl"] = 1;
      if (isa<CXXConstCastExpr>(X)) o["constcast"] = 1;
      if (isa<CXXReinterpretCastExpr>(X)) o["rcast"] = 1;
      return o; }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      auto o = node("asg", L); o["op"] = X->getOpcodeStr().str();
      o["c"] = json::Array{expr(X->getLHS()), expr(X->getRHS())}; return o; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      auto o = node(X->isAssignmentOp() ? "asg" : "bin", X->getOperatorLoc()); o["op"] = X->getOpcodeStr().str();
      o["c"] = json::Array{expr(X->getLHS()), expr(X->getRHS())}; return o; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      auto o = node("un", L); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = 1;
      o["c"] = json::Array{expr(X->getSubExpr())}; return o; }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      auto o = node("cond", L);
      o["c"] = json::Array{expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())}; return o; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = node("idx", L); o["c"] = json::Array{expr(X->getBase()), expr(X->getIdx())}; return o; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      auto o = node("new", L); o["at"] = typeId(X->getAllocatedType());
      if (X->isArray()) { o["arr"] = 1; if (auto S = X->getArraySize()) o["size"] = expr(*S); }
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
      return o; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      auto o = node("delete", L); if (X->isArrayForm()) o["arr"] = 1;
      o["c"] = json::Array{expr(X->getArgument())}; return o; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto o = node("lambda", X->getBeginLoc());
      o["fn"] = funcId(X->getCallOperator());
      json::Array caps;
      auto fit = X->getLambdaClass()->field_begin();
      for (auto &Cp : X->captures()) {
        json::Object c;
        if (Cp.capturesThis()) { c["this"] = 1; if (Cp.getCaptureKind() == LCK_StarThis) c["copy"] = 1; }
        else if (Cp.capturesVariable()) {
          auto *VD = Cp.getCapturedVar();
          c["d"] = declId(VD); c["n"] = VD->getNameAsString();
          c["byref"] = Cp.getCaptureKind() == LCK_ByRef ? 1 : 0;
          if (auto *V = dyn_cast<VarDecl>(VD)) if (V->isInitCapture() && V->getInit()) c["init"] = expr(V->getInit());
        }
        caps.push_back(std::move(c));
        ++fit;
      }
      o["caps"] = std::move(caps);
      o["mutable"] = X->isMutable() ? 1 : 0;
      return o; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (!X->isSemanticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      auto o = node("ilist", L); json::Array a;
      for (auto *I : X->inits()) a.push_back(expr(I));
      o["a"] = std::move(a); return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      auto o = node("throw", L); if (X->getSubExpr()) o["c"] = json::Array{expr(X->getSubExpr())}; return o; }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return node("zero", L);
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      auto o = node("sizeof", L); o["tk"] = (int)X->getKind();
      if (X->isArgumentType()) o["at"] = typeId(X->getArgumentType());
      else { o["at"] = typeId(X->getArgumentExpr()->getType()); }
      Expr::EvalResult R; if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = std::string(s.str()); }
      return o; }
    if (auto *X = dyn_cast<StmtExpr>(E)) { auto o = node("stmtexpr", L); o["body"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { auto o = node("lit", L); o["lk"] = "bool"; o["v"] = (!X->isValueDependent() && X->getValue()) ? "1" : "0"; return o; }
    auto o = node("other", L);
    o["ck"] = E->getStmtClassName();
    json::Array a;
    for (const Stmt *S : E->children())
      if (S) { if (auto *CE = dyn_cast<Expr>(S)) a.push_back(expr(CE)); }
    o["c"] = std::move(a);
    return o;
  }
  json::Object exprNested(const Expr *E) {
    E = strip(E);
    json::Object o = exprI(E);
    if (!o.get("t")) o["t"] = typeId(E->getType());
    return o;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    SourceLocation L = S->getBeginLoc();
    if (auto *E = dyn_cast<Expr>(S)) { auto o = node("expr", L); o["e"] = expr(E); return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      auto o = node("block", L); json::Array a;
      for (auto *B : X->body()) a.push_back(stmt(B));
      o["c"] = std::move(a); o["el"] = line(X->getEndLoc()); return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      auto o = node("decl", L); json::Array a;
      for (auto *D : X->decls()) if (auto *VD = dyn_cast<VarDecl>(D)) {
        json::Object v = var(VD);
        if (VD->isStaticLocal()) v["g"] = gvarId(VD);
        if (VD->hasInit()) { v["init"] = expr(VD->getInit()); }
        a.push_back(std::move(v)); }
      o["v"] = std::move(a); return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      auto o = node("if", L);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["cond"] = expr(X->getCond()); o["then"] = stmt(X->getThen()); o["else"] = stmt(X->getElse());
      return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      auto o = node("for", L);
      o["init"] = stmt(X->getInit()); o["cond"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["body"] = stmt(X->getBody());
      return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      auto o = node("while", L); o["cond"] = expr(X->getCond()); o["body"] = stmt(X->getBody());
      if (X->getConditionVariable()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      auto o = node("do", L); o["cond"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = node("rfor", L); json::Object v = var(X->getLoopVariable());
      o["v"] = json::Value(std::move(v)); o["range"] = expr(X->getRangeInit()); o["body"] = stmt(X->getBody());
      return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { auto o = node("ret", L); if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return json::Value(std::move(o)); }
    if (isa<BreakStmt>(S)) return json::Value(node("break", L));
    if (isa<ContinueStmt>(S)) return json::Value(node("continue", L));
    if (isa<NullStmt>(S)) return json::Value(node("null", L));
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      auto o = node("try", L); o["body"] = stmt(X->getTryBlock()); json::Array a;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i); json::Object h;
        if (H->getExceptionDecl()) h["v"] = var(H->getExceptionDecl());
        h["l"] = line(H->getBeginLoc());
        h["body"] = stmt(H->getHandlerBlock()); a.push_back(std::move(h)); }
      o["h"] = std::move(a); return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      auto o = node("switch", L); o["cond"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      auto o = node("case", L); o["e"] = expr(X->getLHS()); o["body"] = stmt(X->getSubStmt()); return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { auto o = node("default", L); o["body"] = stmt(X->getSubStmt()); return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { auto o = node("label", L); o["n"] = X->getName(); o["body"] = stmt(X->getSubStmt()); return json::Value(std::move(o)); }
    if (auto *X = dyn_cast<GotoStmt>(S)) { auto o = node("goto", L); o["n"] = X->getLabel()->getNameAsString(); return json::Value(std::move(o)); }
    auto o = node("sother", L); o["ck"] = S->getStmtClassName();
    return json::Value(std::move(o));
  }
  json::Object function(const FunctionDecl *FD, int id) {
    json::Object o;
    o["id"] = id;
    o["n"] = FD->getNameAsString();
    o["q"] = fqname(FD);
    const FunctionDecl *Def = nullptr;
    bool has = FD->hasBody(Def);
    if (!Def) Def = FD;
    SourceLocation L = Def->getLocation();
    std::string p = path(L);
    o["f"] = fileId(p);
    o["l"] = line(L);
    o["rt"] = typeId(Def->getReturnType());
    if (auto *FPT = Def->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow()) o["noexc"] = 1;
    if (Def->isNoReturn()) o["noret"] = 1;
    if (Def->isDefaulted()) o["defaulted"] = 1;
    if (Def->isDeleted()) o["deleted"] = 1;
    if (FD->getBuiltinID()) o["builtin"] = 1;
    if (Def->isConstexpr()) o["cx"] = 1;
    if (Def->isVariadic()) o["vararg"] = 1;
    json::Array ps;
    for (auto *P : Def->parameters()) {
      json::Object v = var(P);
      ps.push_back(std::move(v));
    }
    o["p"] = std::move(ps);
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = classId(MD->getParent());
      if (MD->isConst()) o["const"] = 1;
      if (MD->isStatic()) o["sm"] = 1;
      if (MD->isVirtual()) o["virt"] = 1;
      if (MD->getAccess() == AS_public) o["pub"] = 1;
      if (MD->getParent()->isLambda()) o["lam"] = 1;
      if (isa<CXXConstructorDecl>(MD)) {
        o["ctor"] = 1;
        auto *CD = cast<CXXConstructorDecl>(Def);
        if (CD->isCopyConstructor()) o["copy"] = 1;
        if (CD->isMoveConstructor()) o["move"] = 1;
        if (CD->isDefaultConstructor()) o["dflt"] = 1;
      }
      if (isa<CXXDestructorDecl>(MD)) o["dtor"] = 1;
      if (isa<CXXConversionDecl>(MD)) o["conv"] = 1;
      if (MD->isCopyAssignmentOperator()) o["casg"] = 1;
      if (MD->isMoveAssignmentOperator()) o["masg"] = 1;
    }
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); if (s.size() > 300) s.resize(300); ta.push_back(s); }
      o["ta"] = std::move(ta);
    }
    bool want = has && inRoot(L) && !Def->isDependentContext();
    if (want) {
      o["repo"] = 1;
      if (Def->isImplicit()) o["implicit"] = 1;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(Def)) {
        json::Array is;
        for (auto *I : CD->inits()) {
          json::Object io;
          if (I->isAnyMemberInitializer()) { io["fd"] = declId(I->getAnyMember()); io["n"] = I->getAnyMember()->getNameAsString(); }
          else if (I->isBaseInitializer()) { io["base"] = typeId(QualType(I->getBaseClass(), 0)); }
          else io["deleg"] = 1;
          if (I->isWritten()) io["w"] = 1;
          io["l"] = line(I->getSourceLocation());
          if (I->getInit()) io["init"] = expr(I->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
      o["el"] = line(Def->getBody()->getEndLoc());
      o["body"] = stmt(Def->getBody());
    }
    return o;
  }
  void classesOut() {
    for (size_t i = 0; i < classQueue.size(); ++i) {
      const CXXRecordDecl *RD = classQueue[i];
      json::Object o;
      o["id"] = (int)i;
      o["q"] = recName(RD);
      const CXXRecordDecl *D = RD->getDefinition();
      o["f"] = fileId(path(RD->getLocation()));
      o["l"] = line(RD->getLocation());
      if (RD->isLambda()) o["lam"] = 1;
      if (auto *SP = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        json::Array ta;
        for (auto &A : SP->getTemplateArgs().asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); if (s.size() > 300) s.resize(300); ta.push_back(s); }
        o["ta"] = std::move(ta);
      }
      if (D && inRoot(RD->getLocation()) && !D->isDependentContext()) {
        o["repo"] = 1;
        json::Array fs, bs, ms;
        for (auto *F : D->fields()) {
          json::Object f; f["id"] = declId(F); f["n"] = F->getNameAsString(); f["t"] = typeId(F->getType()); f["l"] = line(F->getLocation());
          if (F->isMutable()) f["mut"] = 1;
          if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
          if (F->hasInClassInitializer()) f["hasinit"] = 1;
          f["acc"] = (int)F->getAccess();
          fs.push_back(std::move(f));
        }
        for (auto &B : D->bases()) { if (auto *BR = B.getType()->getAsCXXRecordDecl()) bs.push_back(classId(BR)); }
        for (auto *M : D->methods()) if (!M->isImplicit()) {
          json::Object m; m["fn"] = funcId(M); m["n"] = M->getNameAsString(); m["acc"] = (int)M->getAccess();
          ms.push_back(std::move(m)); }
        for (auto *SD : D->decls()) {
          if (auto *FT = dyn_cast<FunctionTemplateDecl>(SD)) {
            for (auto *S : FT->specializations()) { json::Object m; m["fn"] = funcId(S); m["n"] = S->getNameAsString(); m["acc"] = (int)FT->getAccess(); m["tmpl"] = 1; ms.push_back(std::move(m)); }
          }
        }
        o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["methods"] = std::move(ms);
        if (auto *Dt = D->getDestructor()) o["dtor"] = funcId(Dt);
      }
      classes.push_back(std::move(o));
    }
  }
};

struct Collector : RecursiveASTVisitor<Collector> {
  Dumper &D;
  Collector(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *Dc) {
    // prune system namespaces quickly: only descend where something under root may live
    if (Dc) {
      if (auto *NS = dyn_cast<NamespaceDecl>(Dc)) {
        std::string n = NS->getNameAsString();
        if (n == "std" || n == "Eigen" || n == "boost" || n == "__gnu_cxx" || n == "tbb" || n == "mpl_") return true;
      }
    }
    return RecursiveASTVisitor::TraverseDecl(Dc);
  }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->isThisDeclarationADefinition()) return true;
    if (!D.inRoot(FD->getLocation())) return true;
    json::Object o;
    if (FD->isDependentContext()) {
      o["q"] = D.fqname(FD); o["f"] = D.path(FD->getLocation()); o["l"] = D.line(FD->getLocation()); o["dep"] = 1;
      D.patterns.push_back(std::move(o));
      return true;
    }
    if (FD->isImplicit() || FD->isDefaulted() || FD->isDeleted()) return true;
    D.funcId(FD);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (RD->isThisDeclarationADefinition() && !RD->isDependentContext() && D.inRoot(RD->getLocation())) D.classId(RD);
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (!VD->isLocalVarDecl() && !isa<ParmVarDecl>(VD) && VD->hasGlobalStorage() && D.inRoot(VD->getLocation()) && !VD->getDeclContext()->isDependentContext())
      D.gvarId(VD);
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) { gOk = false; return; }
    Dumper D(Ctx);
    Collector Col(D);
    Col.TraverseDecl(Ctx.getTranslationUnitDecl());
    // functions grow while dumping (callees); classes too
    size_t ci = 0;
    json::Array fout;
    size_t fi = 0, gi = 0;
    json::Array gout;
    while (true) {
      for (; fi < D.queue.size(); ++fi) fout.push_back(D.function(D.queue[fi], fi));
      for (; gi < D.gvarQueue.size(); ++gi) {
        auto *VD = D.gvarQueue[gi];
        const VarDecl *Def = VD->getDefinition() ? VD->getDefinition() : VD;
        json::Object o = D.var(Def); o["f"] = D.fileId(D.path(Def->getLocation()));
        std::string q; llvm::raw_string_ostream os(q); Def->printQualifiedName(os, D.PP); o["q"] = os.str();
        if (D.inRoot(Def->getLocation()) && Def->getAnyInitializer() && !Def->getType()->isDependentType()) o["init"] = D.expr(Def->getAnyInitializer());
        if (Def->getType().isConstQualified()) o["constq"] = 1;
        gout.push_back(std::move(o));
      }
      if (fi == D.queue.size() && gi == D.gvarQueue.size()) {
        D.classes.clear();
        size_t before = D.queue.size() + D.gvarQueue.size();
        D.classesOut();
        if (D.queue.size() + D.gvarQueue.size() == before) break;
      }
      (void)ci;
    }
    json::Object root;
    root["functions"] = std::move(fout);
    root["classes"] = std::move(D.classes);
    root["gvars"] = std::move(gout);
    root["types"] = std::move(D.types);
    root["files"] = std::move(D.files);
    root["patterns"] = std::move(D.patterns);
    std::error_code EC;
    llvm::raw_fd_ostream os(gOut, EC);
    os << json::Value(std::move(root));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
struct Fac : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

int main(int argc, const char **argv) {
  // limbo-extract OUT.json SRC ROOT[:ROOT...] -- flags
  if (argc < 5) { llvm::errs() << "usage: limbo-extract OUT SRC ROOTS -- flags\n"; return 2; }
  gOut = argv[1];
  std::string src = argv[2];
  { llvm::SmallVector<StringRef, 4> v; StringRef(argv[3]).split(v, ':'); for (auto s : v) gRoots.push_back(s.str()); }
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool T(db, {src});
  Fac f;
  int r = T.run(&f);
  return (r || !gOk) ? 1 : 0;
}
