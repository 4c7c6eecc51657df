// Fact extractor: parses one translation unit with clang and prints, as JSON, every
// class, static-storage variable and function body that is spelled in a file below
// one of the given roots.  No decision is taken here; the rules are in pmlsa/.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <set>
#include <map>
using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("extract");
static llvm::cl::list<std::string> Roots("root", llvm::cl::cat(Cat), llvm::cl::ZeroOrMore);
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::cat(Cat), llvm::cl::init("-"));

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C; SourceManager &SM; std::unique_ptr<ItaniumMangleContext> MC;
  Array Funcs, Classes, Globals, Decls; PrintingPolicy PP;
  std::map<const Decl *, int> Ids; std::set<const Decl *> SeenDecl;
  int LambdaDepth = 0;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()),
    MC(ItaniumMangleContext::create(C, C.getDiagnostics())), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = Ids.find(D); if (it != Ids.end()) return it->second; int n = Ids.size() + 1; Ids[D] = n; return n; }
  std::string fileOf(SourceLocation L) { L = SM.getExpansionLoc(L); return SM.getFilename(L).str(); }
  long lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false; std::string f = fileOf(L);
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true; return false;
  }
  std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }
  std::string mangle(const FunctionDecl *F) {
    std::string s; llvm::raw_string_ostream os(s);
    if (F->getDeclContext()->isDependentContext() || F->isDependentContext()) return F->getQualifiedNameAsString() + "<dep>";
    GlobalDecl GD;
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(K, Ctor_Complete);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(D, Dtor_Complete);
    else GD = GlobalDecl(F);
    if (!C.getLangOpts().CPlusPlus) return F->getNameAsString();
    if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, os); else os << F->getNameAsString();
    os.flush();
    if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)) {
        std::string fl = fileOf(F->getLocation());
        size_t at = fl.rfind("/ntl-extras/");
        s += "@" + (at == std::string::npos ? fl : fl.substr(at + 1));
    }
    return s;
  }
  Object typeInfo(QualType T) {
    Object o; QualType U = T; bool ref = false, rref = false, ptr = false;
    if (U->isLValueReferenceType()) { ref = true; U = U.getNonReferenceType(); }
    else if (U->isRValueReferenceType()) { rref = true; U = U.getNonReferenceType(); }
    QualType V = U; if (V->isPointerType()) { ptr = true; V = V->getPointeeType(); }
    o["c"] = V.isConstQualified(); o["t"] = ty(V.getUnqualifiedType());
    if (ref) o["ref"] = true; if (rref) o["rref"] = true; if (ptr) o["ptr"] = true;
    if (ptr && U.isConstQualified()) o["cptr"] = true;
    return o;
  }
  Value fnRef(const FunctionDecl *F) {
    Object o; const FunctionDecl *P = F;
    o["q"] = F->getQualifiedNameAsString(); o["m"] = mangle(F); o["id"] = id(F);
    Array ps; for (auto *p : P->parameters()) { Object pi = typeInfo(p->getType()); pi["n"] = p->getNameAsString(); if (p->hasDefaultArg()) pi["def"] = true; ps.push_back(std::move(pi)); }
    o["ps"] = std::move(ps); o["rt"] = ty(F->getReturnType()); if (F->getReturnType()->isReferenceType()) o["rr"] = true;
    if (F->isNoReturn() || F->hasAttr<NoReturnAttr>()) o["nr"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getQualifiedNameAsString(); if (M->isConst()) o["cm"] = true; if (M->isStatic()) o["sm"] = true;
      if (M->isVirtual()) { o["virt"] = true; }
      if (isa<CXXConstructorDecl>(M)) o["ctor"] = true; if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
    }
    if (inRepo(F->getLocation())) o["repo"] = true;
    return o;
  }
  // function references are interned: expressions carry an index
  std::map<const FunctionDecl *, int> FnIdx; Array Fns;
  int fn(const FunctionDecl *F) {
    const FunctionDecl *K = F->getCanonicalDecl();
    auto it = FnIdx.find(K); if (it != FnIdx.end()) return it->second;
    int n = Fns.size(); FnIdx[K] = n; Fns.push_back(fnRef(K)); return n;
  }
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else break;
    }
    return E;
  }
  Value ex(const Expr *E0) {
    Object o;
    bool defarg = E0 && isa<CXXDefaultArgExpr>(E0);
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    o["l"] = lineOf(E->getExprLoc());
    if (defarg) o["defarg"] = true;
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { K("int"); llvm::SmallString<32> s; X->getValue().toString(s, 10, false); o["v"] = std::string(s); }
    else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { K("int"); o["v"] = X->getValue() ? "1" : "0"; o["bool"] = true; }
    else if (auto *X = dyn_cast<CharacterLiteral>(E)) { K("int"); o["v"] = std::to_string(X->getValue()); }
    else if (auto *X = dyn_cast<FloatingLiteral>(E)) { K("float"); llvm::SmallString<32> s; X->getValue().toString(s); o["v"] = std::string(s); }
    else if (auto *X = dyn_cast<StringLiteral>(E)) { K("str"); o["v"] = X->getCharByteWidth() == 1 ? X->getString().str() : ""; }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { K("null"); }
    else if (isa<CXXThisExpr>(E)) { K("this"); }
    else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { K("fnref"); o["fn"] = fn(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { K("int"); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s); o["enum"] = EC->getQualifiedNameAsString(); }
      else {
        K("var"); o["id"] = id(D); o["n"] = D->getNameAsString(); o["t"] = ty(D->getType().getNonReferenceType().getUnqualifiedType());
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (isa<ParmVarDecl>(V)) o["vk"] = "p"; else if (V->isLocalVarDecl() && !V->isStaticLocal()) o["vk"] = "l";
          else { o["vk"] = "g"; o["q"] = D->getQualifiedNameAsString(); if (V->isStaticLocal()) o["sl"] = true; }
          if (D->getType().getNonReferenceType().isConstQualified()) o["cq"] = true;
        }
      }
    }
    else if (auto *X = dyn_cast<MemberExpr>(E)) {
      K("mem"); o["b"] = ex(X->getBase()); o["f"] = X->getMemberDecl()->getNameAsString();
      o["t"] = ty(X->getType().getNonReferenceType().getUnqualifiedType());
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) { o["fid"] = id(FD); o["fq"] = FD->getQualifiedNameAsString(); }
      else if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl())) { o["k"] = "var"; o["vk"] = "g"; o["id"] = id(VD); o["n"] = VD->getNameAsString(); o["q"] = VD->getQualifiedNameAsString(); }
      else if (auto *MD = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) { o["mfn"] = fn(MD); }
    }
    else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      K("idx"); o["b"] = ex(X->getBase()); o["i"] = ex(X->getIdx()); o["raw"] = true;
      o["bt"] = ty(X->getBase()->IgnoreParenImpCasts()->getType().getNonReferenceType().getUnqualifiedType());
      o["t"] = ty(X->getType().getNonReferenceType().getUnqualifiedType());
    }
    else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) { K("asg"); o["op"] = X->getOpcodeStr().str(); }
      else { K("bin"); o["op"] = X->getOpcodeStr().str(); }
      o["t"] = ty(X->getType().getNonReferenceType().getUnqualifiedType());
      o["x"] = ex(X->getLHS()); o["y"] = ex(X->getRHS());
    }
    else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      K("un"); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) o["post"] = true; o["e"] = ex(X->getSubExpr());
    }
    else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) { K("cond"); o["c"] = ex(X->getCond()); o["x"] = ex(X->getTrueExpr()); o["y"] = ex(X->getFalseExpr()); }
    else if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      K("cast"); o["t"] = ty(X->getTypeAsWritten().getNonReferenceType().getUnqualifiedType()); o["e"] = ex(X->getSubExpr());
      if (isa<CXXConstCastExpr>(X)) o["ck"] = "const"; else if (isa<CXXReinterpretCastExpr>(X)) o["ck"] = "reinterpret"; else if (isa<CXXStaticCastExpr>(X)) o["ck"] = "static"; else if (isa<CStyleCastExpr>(X)) o["ck"] = "c"; else o["ck"] = "f";
      // does it drop const behind a pointer or reference?
      auto pointee = [&](QualType T) { QualType U = T.getNonReferenceType(); if (U->isPointerType()) return U->getPointeeType(); return U; };
      QualType ft = X->getSubExpr()->getType(), tt = X->getTypeAsWritten();
      if ((tt->isReferenceType() || tt->isPointerType()) && pointee(ft).isConstQualified() && !pointee(tt).isConstQualified() && (tt->isReferenceType() || ft->isPointerType() || ft->isArrayType())) o["dropconst"] = true;
    }
    else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { K("sizeof"); Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { o["k"] = "int"; llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = std::string(s); } }
    else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *F = X->getDirectCallee();
      OverloadedOperatorKind OK = X->getOperator();
      if (OK == OO_Subscript || (OK == OO_Call && F && X->getNumArgs() == 3)) {
        // v[i]  and m(i,j)
        if (OK == OO_Subscript) {
          K("idx"); o["b"] = ex(X->getArg(0)); o["i"] = ex(X->getArg(1));
          o["bt"] = ty(X->getArg(0)->getType().getNonReferenceType().getUnqualifiedType());
          if (X->getArg(0)->getType().getNonReferenceType().isConstQualified()) o["bc"] = true;
          o["t"] = ty(X->getType().getNonReferenceType().getUnqualifiedType());
          if (F) o["fn"] = fn(F);
          return o;
        }
      }
      K("call"); o["opc"] = getOperatorSpelling(OK);
      if (F) o["fn"] = fn(F);
      o["t"] = ty(X->getType().getNonReferenceType().getUnqualifiedType());
      Array a; unsigned i0 = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["obj"] = ex(X->getArg(0)); o["ot"] = ty(X->getArg(0)->getType().getNonReferenceType().getUnqualifiedType()); i0 = 1; }
      for (unsigned i = i0; i < X->getNumArgs(); ++i) a.push_back(ex(X->getArg(i)));
      o["a"] = std::move(a);
    }
    else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      K("call"); const CXXMethodDecl *M = X->getMethodDecl(); if (M) o["fn"] = fn(M);
      o["t"] = ty(X->getType().getNonReferenceType().getUnqualifiedType());
      if (const Expr *Ob = X->getImplicitObjectArgument()) {
        o["obj"] = ex(Ob);
        QualType OT = Ob->getType().getNonReferenceType(); if (OT->isPointerType()) { OT = OT->getPointeeType(); o["objptr"] = true; }
        o["ot"] = ty(OT.getUnqualifiedType()); if (OT.isConstQualified()) o["oc"] = true;
      }
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) if (ME->hasQualifier()) o["qual"] = true;
      Array a; for (auto *A : X->arguments()) a.push_back(ex(A)); o["a"] = std::move(a);
    }
    else if (auto *X = dyn_cast<CallExpr>(E)) {
      K("call"); if (const FunctionDecl *F = X->getDirectCallee()) o["fn"] = fn(F); else o["callee"] = ex(X->getCallee());
      o["t"] = ty(X->getType().getNonReferenceType().getUnqualifiedType());
      Array a; for (auto *A : X->arguments()) a.push_back(ex(A)); o["a"] = std::move(a);
    }
    else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      // a copy/move elision node around one argument of the same type is transparent
      K("ctor"); o["t"] = ty(X->getType().getUnqualifiedType()); o["fn"] = fn(X->getConstructor());
      if (X->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      Array a; for (auto *A : X->arguments()) a.push_back(ex(A)); o["a"] = std::move(a);
    }
    else if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { K("int"); o["v"] = "0"; }
    else if (isa<ImplicitValueInitExpr>(E)) { K("int"); o["v"] = "0"; }
    else if (auto *X = dyn_cast<InitListExpr>(E)) { K("list"); Array a; const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X); for (auto *I : S->inits()) a.push_back(ex(I)); o["a"] = std::move(a); o["t"] = ty(X->getType()); }
    else if (auto *X = dyn_cast<CXXNewExpr>(E)) { K("new"); o["t"] = ty(X->getAllocatedType()); if (X->getConstructExpr()) o["e"] = ex(X->getConstructExpr()); else if (X->getInitializer()) o["e"] = ex(X->getInitializer()); if (X->isArray()) { o["arr"] = true; if (X->getArraySize()) o["n"] = ex(*X->getArraySize()); } }
    else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { K("delete"); o["e"] = ex(X->getArgument()); }
    else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { K("throw"); if (X->getSubExpr()) o["e"] = ex(X->getSubExpr()); }
    else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      K("lambda"); Array ps; for (auto *p : X->getCallOperator()->parameters()) { Object pi = typeInfo(p->getType()); pi["n"] = p->getNameAsString(); pi["id"] = id(p); ps.push_back(std::move(pi)); }
      o["ps"] = std::move(ps); o["body"] = st(X->getBody());
    }
    else if (auto *X = dyn_cast<StmtExpr>(E)) { K("stmtexpr"); o["body"] = st(X->getSubStmt()); }
    else if (auto *X = dyn_cast<PredefinedExpr>(E)) { K("str"); o["v"] = ""; }
    else {
      K("other"); o["sc"] = E->getStmtClassName(); Array a;
      for (const Stmt *S : E->children()) if (S) if (auto *CE = dyn_cast<Expr>(S)) a.push_back(ex(CE));
      o["a"] = std::move(a);
    }
    if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegerType() && !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E)) {
      Expr::EvalResult R; if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["cv"] = std::string(s); }
    }
    return o;
  }
  Value var(const VarDecl *V) {
    Object o = typeInfo(V->getType()); o["id"] = id(V); o["n"] = V->getNameAsString(); o["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true; if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    QualType T = V->getType(); if (auto *AT = C.getAsConstantArrayType(T)) { o["arr"] = (int64_t)AT->getSize().getZExtValue(); o["et"] = ty(AT->getElementType().getUnqualifiedType()); if (AT->getElementType().isConstQualified()) o["c"] = true; }
    if (V->hasInit() && V->getInit()) { o["i"] = ex(V->getInit()); }
    o["style"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list";
    return o;
  }
  Value st(const Stmt *S) {
    if (!S) return nullptr;
    Object o; auto K = [&](const char *k) { o["k"] = k; };
    o["l"] = lineOf(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { K("blk"); Array a; for (auto *T : X->body()) a.push_back(st(T)); o["s"] = std::move(a); o["le"] = lineOf(X->getEndLoc()); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) { K("decl"); Array a; for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V)); o["v"] = std::move(a); }
    else if (auto *X = dyn_cast<IfStmt>(S)) { K("if"); if (X->getInit()) o["init"] = st(X->getInit()); if (X->getConditionVariable()) o["cvar"] = var(X->getConditionVariable()); o["c"] = ex(X->getCond()); o["x"] = st(X->getThen()); if (X->getElse()) o["y"] = st(X->getElse()); }
    else if (auto *X = dyn_cast<ForStmt>(S)) { K("for"); if (X->getInit()) o["i"] = st(X->getInit()); if (X->getCond()) o["c"] = ex(X->getCond()); if (X->getInc()) o["n"] = ex(X->getInc()); o["b"] = st(X->getBody()); }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { K("while"); o["c"] = ex(X->getCond()); o["b"] = st(X->getBody()); }
    else if (auto *X = dyn_cast<DoStmt>(S)) { K("do"); o["c"] = ex(X->getCond()); o["b"] = st(X->getBody()); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { K("rfor"); o["v"] = var(X->getLoopVariable()); o["r"] = ex(X->getRangeInit()); o["b"] = st(X->getBody()); }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { K("ret"); if (X->getRetValue()) o["e"] = ex(X->getRetValue()); }
    else if (isa<BreakStmt>(S)) K("break");
    else if (isa<ContinueStmt>(S)) K("continue");
    else if (isa<NullStmt>(S)) K("null");
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { K("switch"); o["c"] = ex(X->getCond()); o["b"] = st(X->getBody()); }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { K("case"); o["e"] = ex(X->getLHS()); o["b"] = st(X->getSubStmt()); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { K("default"); o["b"] = st(X->getSubStmt()); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) { K("try"); o["b"] = st(X->getTryBlock()); Array a; for (unsigned i = 0; i < X->getNumHandlers(); ++i) a.push_back(st(X->getHandler(i)->getHandlerBlock())); o["h"] = std::move(a); }
    else if (auto *X = dyn_cast<LabelStmt>(S)) { K("label"); o["n"] = X->getName(); o["b"] = st(X->getSubStmt()); }
    else if (auto *X = dyn_cast<GotoStmt>(S)) { K("goto"); o["n"] = X->getLabel()->getNameAsString(); }
    else if (auto *X = dyn_cast<AttributedStmt>(S)) { return st(X->getSubStmt()); }
    else if (auto *X = dyn_cast<Expr>(S)) { K("expr"); o["e"] = ex(X); }
    else { K("ostmt"); o["sc"] = S->getStmtClassName(); }
    return o;
  }
  std::set<std::string> Done;
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!inRepo(F->getLocation())) return true;
    if (F->isDependentContext()) return true;
    bool body = F->doesThisDeclarationHaveABody() && !F->isDefaulted() && !F->isDeleted();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    Object o; Value fr = fnRef(F); for (auto &kv : *fr.getAsObject()) o[kv.first] = kv.second;
    o["fn"] = fn(F);
    o["file"] = fileOf(F->getLocation()); o["line"] = lineOf(F->getLocation()); o["n"] = F->getNameAsString();
    if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)) o["internal"] = true;
    if (F->getAccess() == AS_private) o["acc"] = "private"; else if (F->getAccess() == AS_protected) o["acc"] = "protected";
    if (F->isDeleted()) o["deleted"] = true; if (F->isDefaulted()) o["defaulted"] = true;
    Array ps; for (auto *p : F->parameters()) { Object pi = typeInfo(p->getType()); pi["n"] = p->getNameAsString(); pi["id"] = id(p); if (p->hasDefaultArg()) { pi["def"] = true; if (!p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) pi["dv"] = ex(p->getDefaultArg()); } ps.push_back(std::move(pi)); }
    o["ps"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { Array ov; for (auto *B : M->overridden_methods()) ov.push_back(mangle(B)); if (!ov.empty()) o["overrides"] = std::move(ov); if (M->isPureVirtual()) o["pure"] = true; }
    if (!body) { Decls.push_back(std::move(o)); return true; }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      Array in; for (auto *I : K->inits()) { Object io; if (I->isMemberInitializer() && I->getMember()) { io["f"] = I->getMember()->getNameAsString(); io["fid"] = id(I->getMember()); } else if (I->isBaseInitializer()) { io["base"] = ty(QualType(I->getBaseClass(), 0)); } else if (I->isDelegatingInitializer()) io["delegate"] = true; io["w"] = I->isWritten(); io["e"] = ex(I->getInit()); in.push_back(std::move(io)); }
      o["inits"] = std::move(in);
    }
    o["body"] = st(F->getBody()); o["endline"] = lineOf(F->getBody()->getEndLoc());
    Funcs.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inRepo(R->getLocation()) || R->isLambda() || R->isDependentContext()) return true;
    Object o; o["q"] = R->getQualifiedNameAsString(); o["file"] = fileOf(R->getLocation()); o["line"] = lineOf(R->getLocation());
    Array fs; for (auto *F : R->fields()) { Object f = typeInfo(F->getType()); f["n"] = F->getNameAsString(); f["id"] = id(F); f["mut"] = F->isMutable(); f["sc"] = F->getType()->isScalarType(); f["l"] = lineOf(F->getLocation()); if (F->hasInClassInitializer()) f["ici"] = true; fs.push_back(std::move(f)); }
    o["fields"] = std::move(fs); Array bs; for (auto &B : R->bases()) bs.push_back(ty(B.getType())); o["bases"] = std::move(bs);
    o["ucc"] = R->hasUserDeclaredConstructor();
    Classes.push_back(std::move(o)); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || !inRepo(V->getLocation())) return true;
    Object o; Value v = var(V); o = std::move(*v.getAsObject()); o["q"] = V->getQualifiedNameAsString(); o["file"] = fileOf(V->getLocation());
    if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
    if (V->hasInit() && V->hasConstantInitialization()) o["cinit"] = true; if (V->isConstexpr()) o["cexpr"] = true;
    if (const auto *FD = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod())) o["infn"] = FD->getQualifiedNameAsString();
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) o["decl"] = true;
    Globals.push_back(std::move(o)); return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C); D.TraverseDecl(C.getTranslationUnitDecl());
    Object o; o["funcs"] = std::move(D.Funcs); o["decls"] = std::move(D.Decls); o["classes"] = std::move(D.Classes); o["globals"] = std::move(D.Globals); o["fns"] = std::move(D.Fns);
    o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC; 
    if (OutFile == "-") llvm::outs() << Value(std::move(o)) << "\n";
    else { llvm::raw_fd_ostream f(OutFile, EC); f << Value(std::move(o)) << "\n"; }
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat); if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 3; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
