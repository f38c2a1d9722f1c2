// tfx: extracts, from one translation unit of thermofun, a compact JSON model
// of the *resolved* program: every function defined in the repository (template
// patterns and their instantiations), every record, enumeration and global
// variable.  Parentheses, implicit conversions, temporaries, copies the
// compiler inserts and other syntax sugar are removed; callees, members and
// overloads are resolved.  The rules in /verif/rules work on this model.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::OStream;

static std::vector<std::string> Roots;

struct Ex : RecursiveASTVisitor<Ex> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP; OStream &J;
  std::map<const Decl *, int> ids;
  std::set<std::string> seenRec, seenEnum, seenVar;
  std::set<const FunctionDecl *> seenFn;
  int phase = 0; // 0 functions, 1 records, 2 enums, 3 globals
  Ex(ASTContext &c, OStream &j) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), J(j) {
    PP.SuppressTagKeyword = true; PP.SuppressUnwrittenScope = false; PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true; PP.Bool = true;
  }
  bool TraverseDecl(Decl *D) {
    if (D && !isa<TranslationUnitDecl>(D) && D->getLocation().isValid() && !inRepo(D->getLocation())) return true;
    return RecursiveASTVisitor<Ex>::TraverseDecl(D);
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    return SM.getFilename(L).str();
  }
  bool inRepo(SourceLocation L) {
    std::string f = file(L);
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string ty(QualType T) { if (T.isNull()) return ""; return T.getCanonicalType().getAsString(PP); }
  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream o(s); D->printQualifiedName(o, PP); return o.str(); }
  std::string enumName(const EnumDecl *E) { // enumerations inside `typedef struct { enum type {..} } Name;`
    if (auto *R = dyn_cast<CXXRecordDecl>(E->getDeclContext())) if (!R->getIdentifier()) if (auto *T = R->getTypedefNameForAnonDecl())
      return qn(T) + "::" + E->getNameAsString();
    return qn(E);
  }
  std::string usr(const Decl *D) { llvm::SmallString<128> b; if (index::generateUSRForDecl(D, b)) return ""; return b.str().str(); }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[D] = n; return n; }

  const Stmt *strip(const Stmt *S) {
    while (S) {
      if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<FullExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) S = E->getExpr();
      else if (auto *E = dyn_cast<CXXStdInitializerListExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<OpaqueValueExpr>(S)) { if (!E->getSourceExpr()) return S; S = E->getSourceExpr(); }
      else if (auto *E = dyn_cast<AttributedStmt>(S)) S = E->getSubStmt();
      else if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
        auto k = E->getCastKind();
        if (k == CK_IntegralToFloating || k == CK_FloatingToIntegral) return S;
        S = E->getSubExpr();
      } else return S;
    }
    return S;
  }
  void kids(std::initializer_list<const Stmt *> l) { J.attributeArray("c", [&] { for (auto *s : l) node(s); }); }
  template <class R> void kidsR(R &&r) { J.attributeArray("c", [&] { for (auto *s : r) node(s); }); }
  void calleeAttrs(const FunctionDecl *F) {
    if (!F) return;
    J.attribute("f", qn(F));
    J.attribute("fn", F->getNameAsString());
    const FunctionDecl *D = F;
    J.attribute("u", usr(D));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("mc", qn(M->getParent()));
      if (M->isConst()) J.attribute("mconst", true);
      if (M->isStatic()) J.attribute("mstatic", true);
    }
    std::string refs; // which parameters are non-const references / pointers
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      if (T->isReferenceType() && !T.getNonReferenceType().isConstQualified()) refs += T->isRValueReferenceType() ? 'm' : 'r';
      else if (T->isPointerType() && !T->getPointeeType().isConstQualified()) refs += 'p';
      else if (T->isReferenceType()) refs += 'c';
      else refs += 'v';
    }
    J.attribute("pr", refs);
    if (inRepo(F->getLocation())) J.attribute("repo", true);
    QualType RT = F->getReturnType();
    if (RT->isReferenceType()) J.attribute("rr", RT.getNonReferenceType().isConstQualified() ? "c" : "r");
    if (F->isNoReturn()) J.attribute("noret", true);
  }
  void declVar(const VarDecl *V) {
    J.object([&] {
      J.attribute("k", "Var"); J.attribute("l", line(V->getLocation()));
      J.attribute("n", V->getNameAsString()); J.attribute("d", id(V)); J.attribute("t", ty(V->getType()));
      if (V->isStaticLocal()) J.attribute("static", true);
      if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
      if (V->getType().isConstQualified()) J.attribute("const", true);
      if (V->getType()->isReferenceType()) J.attribute("ref", V->getType().getNonReferenceType().isConstQualified() ? "c" : "r");
      if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
        J.attributeArray("bind", [&] { for (auto *B : DD->bindings()) J.object([&] { J.attribute("n", B->getNameAsString()); J.attribute("d", id(B)); }); });
      }
      if (V->getInit()) {
        const char *st = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "()" : "{}";
        J.attribute("is", st);
        J.attributeArray("c", [&] { node(V->getInit()); });
      }
    });
  }
  void lam(const LambdaExpr *L) {
    J.attribute("t", ty(L->getType()));
    J.attributeArray("cap", [&] {
      auto ii = L->capture_init_begin();
      for (auto &c : L->captures()) {
        J.object([&] {
          if (c.capturesThis()) J.attribute("cap", c.getCaptureKind() == LCK_StarThis ? "*this" : "this");
          else if (c.capturesVariable()) {
            J.attribute("cap", c.getCaptureKind() == LCK_ByRef ? "ref" : "val");
            J.attribute("d", id(c.getCapturedVar())); J.attribute("n", c.getCapturedVar()->getNameAsString());
            if (auto *V = dyn_cast<VarDecl>(c.getCapturedVar())) {
              J.attribute("t", ty(V->getType()));
              if (V->isInitCapture() && V->getInit()) J.attributeArray("c", [&] { node(V->getInit()); });
            }
          }
        });
        ++ii;
      }
    });
    // a generic lambda is represented by the bodies its calls instantiate
    std::vector<const CXXMethodDecl *> Ms;
    if (L->isGenericLambda())
      if (auto *T = L->getLambdaClass()->getDependentLambdaCallOperator())
        for (auto *S : T->specializations()) if (S->getBody()) Ms.push_back(cast<CXXMethodDecl>(S));
    if (Ms.empty()) Ms.push_back(L->getCallOperator());
    J.attribute("mutable", !L->getCallOperator()->isConst());
    auto one = [&](const CXXMethodDecl *M) {
      J.attribute("lop", id(M));
      params(M);
      J.attribute("rt", ty(M->getReturnType()));
      if (M->getReturnType()->isReferenceType()) J.attribute("rr", M->getReturnType().getNonReferenceType().isConstQualified() ? "c" : "r");
      J.attributeArray("c", [&] { node(M == L->getCallOperator() ? L->getBody() : M->getBody()); });
    };
    one(Ms[0]);
    if (Ms.size() > 1) J.attributeArray("insts", [&] { for (size_t i = 1; i < Ms.size(); ++i) J.object([&] { one(Ms[i]); }); });
  }
  void params(const FunctionDecl *F) {
    J.attributeArray("params", [&] {
      for (auto *P : F->parameters()) J.object([&] {
        J.attribute("n", P->getNameAsString()); J.attribute("d", id(P)); J.attribute("t", ty(P->getType()));
        QualType T = P->getType();
        if (T->isReferenceType()) J.attribute("ref", T.getNonReferenceType().isConstQualified() ? "c" : (T->isRValueReferenceType() ? "m" : "r"));
        if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() && P->getDefaultArg()) J.attributeArray("c", [&] { node(P->getDefaultArg()); });
      });
    });
  }
  void node(const Stmt *S0) {
    const Stmt *S = strip(S0);
    if (!S) { J.value(nullptr); return; }
    J.object([&] {
      J.attribute("k", kind(S));
      J.attribute("l", line(S->getBeginLoc()));
      if (auto *E = dyn_cast<Expr>(S)) {
        J.attribute("t", ty(E->getType()));
        if (!E->getType().isNull() && !E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E)) {
          Expr::EvalResult R;
          if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.getInt().isRepresentableByInt64()) J.attribute("cv", R.Val.getInt().getExtValue());
        }
      }
      body(S);
    });
  }
  const char *kind(const Stmt *S) {
    if (isa<CXXConstructExpr>(S)) return "Construct";
    if (isa<CXXOperatorCallExpr>(S)) return "OpCall";
    if (isa<CXXMemberCallExpr>(S)) return "MCall";
    if (isa<CallExpr>(S)) return "Call";
    if (isa<CompoundAssignOperator>(S)) return "CompAssign";
    if (isa<BinaryOperator>(S)) return "BinOp";
    if (isa<UnaryOperator>(S)) return "UnOp";
    if (isa<DeclRefExpr>(S)) return "Ref";
    if (isa<MemberExpr>(S)) return "Member";
    if (isa<ExplicitCastExpr>(S) || isa<ImplicitCastExpr>(S)) return "Cast";
    if (isa<CXXRewrittenBinaryOperator>(S)) return "Rewritten";
    return S->getStmtClassName();
  }
  void body(const Stmt *S) {
    if (auto *E = dyn_cast<IntegerLiteral>(S)) { J.attribute("v", (int64_t)E->getValue().getLimitedValue(INT64_MAX)); return; }
    if (auto *E = dyn_cast<FloatingLiteral>(S)) {
      J.attribute("v", E->getValue().convertToDouble());
      llvm::SmallString<32> b; bool inv = false;
      auto T = Lexer::getSpelling(SM.getSpellingLoc(E->getLocation()), b, SM, C.getLangOpts(), &inv);
      if (!inv) J.attribute("txt", T.str());
      return;
    }
    if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) { J.attribute("v", E->getValue()); return; }
    if (auto *E = dyn_cast<CharacterLiteral>(S)) { J.attribute("v", (int64_t)E->getValue()); return; }
    if (auto *E = dyn_cast<StringLiteral>(S)) { J.attribute("v", llvm::json::fixUTF8(E->getCharByteWidth() == 1 ? E->getString() : llvm::StringRef("?"))); return; }
    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      auto *D = E->getDecl();
      J.attribute("n", D->getNameAsString());
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) { J.attribute("g", qn(V)); if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
          if (V->getType().isConstQualified() || V->isConstexpr() || (V->getType()->isArrayType() && V->getASTContext().getBaseElementType(V->getType()).isConstQualified())) J.attribute("gconst", true); if (V->isStaticLocal()) { J.attribute("slocal", true); J.attribute("d", id(V)); }
          if (inRepo(V->getLocation())) J.attribute("repo", true); }
        else { J.attribute("d", id(D)); if (isa<ParmVarDecl>(V)) J.attribute("parm", true); if (E->refersToEnclosingVariableOrCapture()) J.attribute("capd", true); }
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { J.attribute("enum", enumName(cast<EnumDecl>(EC->getDeclContext())) + "::" + EC->getNameAsString()); J.attribute("v", EC->getInitVal().isRepresentableByInt64() ? EC->getInitVal().getExtValue() : (int64_t)-1); }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { calleeAttrs(F); }
      else if (isa<BindingDecl>(D)) { J.attribute("d", id(D)); auto *B = cast<BindingDecl>(D); J.attribute("binding", true); if (B->getBinding()) J.attributeArray("c", [&] { node(B->getBinding()); }); }
      else J.attribute("d", id(D));
      return;
    }
    if (auto *E = dyn_cast<MemberExpr>(S)) {
      auto *D = E->getMemberDecl();
      J.attribute("n", D->getNameAsString());
      if (auto *F = dyn_cast<FieldDecl>(D)) { J.attribute("fc", qn(F->getParent())); if (inRepo(F->getLocation())) J.attribute("repo", true); J.attribute("field", true); }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) calleeAttrs(F);
      else if (auto *V = dyn_cast<VarDecl>(D)) { J.attribute("g", qn(V)); }
      if (E->isArrow()) J.attribute("arrow", true);
      kids({E->getBase()});
      return;
    }
    if (auto *E = dyn_cast<CXXRewrittenBinaryOperator>(S)) {
      auto d = E->getDecomposedForm();
      J.attribute("op", BinaryOperator::getOpcodeStr(d.Opcode));
      J.attributeArray("c", [&] { node(d.LHS); node(d.RHS); node(E->getSemanticForm()); });
      return;
    }
    if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      J.attribute("op", getOperatorSpelling(E->getOperator()));
      if (auto *F = E->getDirectCallee()) {
        calleeAttrs(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) J.attribute("lop", id(M));
      }
      kidsR(E->arguments());
      return;
    }
    if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      if (auto *F = E->getDirectCallee()) calleeAttrs(F);
      J.attribute("objt", E->getImplicitObjectArgument() ? ty(E->getImplicitObjectArgument()->getType()) : "");
      J.attributeArray("c", [&] { node(E->getImplicitObjectArgument()); for (auto *a : E->arguments()) node(a); });
      return;
    }
    if (auto *E = dyn_cast<CallExpr>(S)) {
      if (auto *F = E->getDirectCallee()) { calleeAttrs(F); kidsR(E->arguments()); }
      else { J.attribute("indirect", true); J.attributeArray("c", [&] { node(E->getCallee()); for (auto *a : E->arguments()) node(a); }); }
      return;
    }
    if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      auto *K = E->getConstructor();
      J.attribute("cls", qn(K->getParent()));
      J.attribute("ctor", K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other");
      J.attribute("u", usr(K));
      if (inRepo(K->getLocation())) J.attribute("repo", true);
      if (E->isElidable()) J.attribute("elide", true);
      if (E->isListInitialization()) J.attribute("list", true);
      if (E->requiresZeroInitialization()) J.attribute("zero", true);
      if (K->isImplicit()) J.attribute("implicit", true);
      std::string refs;
      for (auto *P : K->parameters()) { QualType T = P->getType();
        if (T->isReferenceType() && !T.getNonReferenceType().isConstQualified()) refs += T->isRValueReferenceType() ? 'm' : 'r';
        else if (T->isPointerType() && !T->getPointeeType().isConstQualified()) refs += 'p';
        else if (T->isReferenceType()) refs += 'c'; else refs += 'v'; }
      J.attribute("pr", refs);
      kidsR(E->arguments());
      return;
    }
    if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      J.attribute("nt", ty(E->getAllocatedType()));
      if (E->isArray()) J.attribute("array", true);
      J.attributeArray("c", [&] { if (E->isArray() && E->getArraySize()) node(*E->getArraySize()); else J.value(nullptr); if (E->getInitializer()) node(E->getInitializer()); });
      return;
    }
    if (auto *E = dyn_cast<CXXDeleteExpr>(S)) { if (E->isArrayForm()) J.attribute("array", true); kids({E->getArgument()}); return; }
    if (auto *E = dyn_cast<CompoundAssignOperator>(S)) { J.attribute("op", E->getOpcodeStr()); kids({E->getLHS(), E->getRHS()}); return; }
    if (auto *E = dyn_cast<BinaryOperator>(S)) { J.attribute("op", E->getOpcodeStr()); kids({E->getLHS(), E->getRHS()}); return; }
    if (auto *E = dyn_cast<UnaryOperator>(S)) { J.attribute("op", UnaryOperator::getOpcodeStr(E->getOpcode())); if (E->isPostfix()) J.attribute("post", true); kids({E->getSubExpr()}); return; }
    if (auto *E = dyn_cast<ExplicitCastExpr>(S)) { J.attribute("ck", E->getCastKindName()); kids({E->getSubExpr()}); return; }
    if (auto *E = dyn_cast<ImplicitCastExpr>(S)) { J.attribute("ck", E->getCastKindName()); J.attribute("impl", true); kids({E->getSubExpr()}); return; }
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { J.attributeArray("c", [&] { node(E->getExpr()); }); return; }
    if (auto *E = dyn_cast<LambdaExpr>(S)) { lam(E); return; }
    if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { (void)E; return; }
    if (auto *E = dyn_cast<InitListExpr>(S)) { auto *X = E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E);
      if (auto *F = X->getArrayFiller()) { (void)F; J.attribute("filler", true); }
      J.attributeArray("c", [&] { for (unsigned i = 0; i < X->getNumInits(); i++) node(X->getInit(i)); }); return; }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      J.attributeArray("c", [&] { for (auto *d : D->decls()) { if (auto *V = dyn_cast<VarDecl>(d)) declVar(V); } });
      return;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      J.attributeArray("c", [&] { node(I->getInit()); if (I->getConditionVariable()) { declVar(I->getConditionVariable()); } else J.value(nullptr); node(I->getCond()); node(I->getThen()); node(I->getElse()); });
      return;
    }
    if (auto *I = dyn_cast<SwitchStmt>(S)) { kids({I->getInit(), I->getCond(), I->getBody()}); return; }
    if (auto *I = dyn_cast<CaseStmt>(S)) { kids({I->getLHS(), I->getSubStmt()}); return; }
    if (auto *I = dyn_cast<DefaultStmt>(S)) { kids({I->getSubStmt()}); return; }
    if (auto *I = dyn_cast<ForStmt>(S)) { kids({I->getInit(), I->getCond(), I->getInc(), I->getBody()}); return; }
    if (auto *I = dyn_cast<CXXForRangeStmt>(S)) {
      J.attributeArray("c", [&] { declVar(I->getLoopVariable()); node(I->getRangeInit()); node(I->getBody()); }); return; }
    if (auto *I = dyn_cast<WhileStmt>(S)) { kids({I->getCond(), I->getBody()}); return; }
    if (auto *I = dyn_cast<DoStmt>(S)) { kids({I->getBody(), I->getCond()}); return; }
    if (auto *I = dyn_cast<CXXCatchStmt>(S)) { J.attribute("ct", I->getExceptionDecl() ? ty(I->getCaughtType()) : "..."); J.attributeArray("c", [&] { if (I->getExceptionDecl()) declVar(I->getExceptionDecl()); else J.value(nullptr); node(I->getHandlerBlock()); }); return; }
    if (auto *G = dyn_cast<GotoStmt>(S)) { J.attribute("n", G->getLabel()->getNameAsString()); return; }
    if (auto *G = dyn_cast<LabelStmt>(S)) { J.attribute("n", G->getName()); kids({G->getSubStmt()}); return; }
    if (auto *E = dyn_cast<CXXDependentScopeMemberExpr>(S)) { J.attribute("n", E->getMember().getAsString()); J.attribute("arrow", E->isArrow()); J.attributeArray("c", [&] { if (!E->isImplicitAccess()) node(E->getBase()); }); return; }
    if (auto *E = dyn_cast<OverloadExpr>(S)) { J.attribute("n", E->getName().getAsString()); return; }
    if (auto *E = dyn_cast<DependentScopeDeclRefExpr>(S)) { J.attribute("n", E->getDeclName().getAsString()); return; }
    if (isa<SizeOfPackExpr>(S)) return;
    J.attributeArray("c", [&] { for (auto *c : S->children()) node(c); });
  }

  void emitFn(const FunctionDecl *F, const char *instOf) {
    J.object([&] {
      J.attribute("f", qn(F)); J.attribute("n", F->getNameAsString());
      J.attribute("u", usr(F));
      J.attribute("file", file(F->getLocation())); J.attribute("l", line(F->getLocation()));
      J.attribute("rt", ty(F->getReturnType()));
      if (F->getReturnType()->isReferenceType()) J.attribute("rr", F->getReturnType().getNonReferenceType().isConstQualified() ? "c" : "r");
      if (instOf) J.attribute("inst", instOf);
      if (F->isDependentContext()) J.attribute("dep", true);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("cls", qn(M->getParent()));
        if (M->isConst()) J.attribute("const", true);
        if (M->isStatic()) J.attribute("static", true);
        J.attribute("access", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected");
        if (M->getParent()->isLambda()) J.attribute("lambdaop", true);
      } else if (F->getStorageClass() == SC_Static || F->isInAnonymousNamespace()) J.attribute("static", true);
      if (F->isOverloadedOperator()) J.attribute("op", getOperatorSpelling(F->getOverloadedOperator()));
      if (F->isDefaulted()) J.attribute("defaulted", true);
      if (F->isNoReturn()) J.attribute("noret", true);
      params(F);
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
        J.attribute("ctor", K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other");
        J.attributeArray("inits", [&] {
          for (auto *I : K->inits()) J.object([&] {
            if (I->isAnyMemberInitializer()) J.attribute("n", I->getAnyMember()->getNameAsString());
            else if (I->isBaseInitializer()) J.attribute("base", ty(QualType(I->getBaseClass(), 0)));
            else if (I->isDelegatingInitializer()) J.attribute("deleg", true);
            J.attribute("written", I->isWritten());
            J.attributeArray("c", [&] { node(I->getInit()); });
          });
        });
      }
      J.attributeArray("c", [&] { node(F->getBody()); });
    });
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (phase != 0) return true;
    if (!F->isThisDeclarationADefinition() || !F->getBody()) return true;
    if (!inRepo(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true; // inline in its LambdaExpr
    if (!seenFn.insert(F).second) return true;
    const char *inst = nullptr;
    if (F->isTemplateInstantiation() || (F->getTemplateInstantiationPattern())) inst = "t";
    emitFn(F, inst);
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R0) {
    if (phase != 1) return true;
    auto *R = dyn_cast<CXXRecordDecl>(R0);
    if (!R || !R->isThisDeclarationADefinition() || R->isLambda() || !inRepo(R->getLocation())) return true;
    if (!seenRec.insert(qn(R)).second) return true;
    J.object([&] {
      J.attribute("n", qn(R)); J.attribute("file", file(R->getLocation())); J.attribute("l", line(R->getLocation()));
      if (R->isDependentContext()) J.attribute("dep", true);
      if (isa<ClassTemplateSpecializationDecl>(R)) J.attribute("inst", true);
      J.attributeArray("bases", [&] { for (auto &b : R->bases()) J.value(ty(b.getType())); });
      J.attributeArray("fields", [&] {
        for (auto *F : R->fields()) J.object([&] {
          J.attribute("n", F->getNameAsString()); J.attribute("t", ty(F->getType())); J.attribute("l", line(F->getLocation()));
          J.attribute("access", F->getAccess() == AS_public ? "public" : "nonpublic");
          if (F->isMutable()) J.attribute("mutable", true);
          if (F->hasInClassInitializer() && F->getInClassInitializer()) J.attributeArray("c", [&] { node(F->getInClassInitializer()); });
        });
      });
      J.attributeArray("methods", [&] {
        for (auto *M : R->methods()) { J.object([&] {
          J.attribute("n", M->getNameAsString()); J.attribute("u", usr(M)); J.attribute("l", line(M->getLocation()));
          J.attribute("access", M->getAccess() == AS_public ? "public" : "nonpublic");
          J.attribute("rt", ty(M->getReturnType()));
          if (M->getReturnType()->isReferenceType()) J.attribute("rr", M->getReturnType().getNonReferenceType().isConstQualified() ? "c" : "r");
          if (M->isConst()) J.attribute("const", true);
          if (M->isStatic()) J.attribute("static", true);
          if (M->isImplicit()) J.attribute("implicit", true);
          if (M->isDeleted()) J.attribute("deleted", true);
          if (M->isDefaulted()) J.attribute("defaulted", true);
          if (M->isUserProvided()) J.attribute("user", true);
          if (auto *K = dyn_cast<CXXConstructorDecl>(M)) J.attribute("ctor", K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other");
          if (M->isCopyAssignmentOperator()) J.attribute("assign", "copy");
          if (M->isMoveAssignmentOperator()) J.attribute("assign", "move");
          if (M->isOverloadedOperator()) J.attribute("op", getOperatorSpelling(M->getOverloadedOperator()));
          J.attribute("defined", M->isDefined());
          params(M);
        }); }
      });
      J.attribute("implCopyCtor", R->needsImplicitCopyConstructor() || R->hasSimpleCopyConstructor());
      J.attribute("needImplCopyAssign", R->needsImplicitCopyAssignment());
      J.attribute("hasUserCopyAssign", R->hasUserDeclaredCopyAssignment());
      J.attribute("hasUserCopyCtor", R->hasUserDeclaredCopyConstructor());
      J.attribute("hasUserMove", R->hasUserDeclaredMoveConstructor() || R->hasUserDeclaredMoveAssignment());
    });
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (phase != 2) return true;
    if (!E->isThisDeclarationADefinition() || !inRepo(E->getLocation())) return true;
    if (!seenEnum.insert(enumName(E)).second) return true;
    J.object([&] {
      J.attribute("n", enumName(E)); J.attribute("file", file(E->getLocation())); J.attribute("l", line(E->getLocation()));
      J.attributeArray("e", [&] { for (auto *c : E->enumerators()) J.object([&] { J.attribute("n", c->getNameAsString()); J.attribute("v", c->getInitVal().isRepresentableByInt64() ? c->getInitVal().getExtValue() : (int64_t)-1); J.attribute("l", line(c->getLocation())); }); });
    });
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (phase != 3) return true;
    if (!V->hasGlobalStorage() || !inRepo(V->getLocation()) || isa<ParmVarDecl>(V)) return true;
    if (V->isThisDeclarationADefinition() != VarDecl::Definition && !V->getInit()) return true;
    std::string key = qn(V) + "@" + file(V->getLocation()) + std::to_string(line(V->getLocation()));
    if (!seenVar.insert(key).second) return true;
    J.object([&] {
      J.attribute("n", qn(V)); J.attribute("file", file(V->getLocation())); J.attribute("l", line(V->getLocation())); J.attribute("t", ty(V->getType()));
      if (V->isStaticLocal()) J.attribute("slocal", true);
      J.attribute("const", V->getType().isConstQualified() || V->isConstexpr() || (V->getType()->isArrayType() && C.getBaseElementType(V->getType()).isConstQualified()));
      if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
      if (V->getInit()) J.attributeArray("c", [&] { node(V->getInit()); });
    });
    return true;
  }
};

struct Cons : ASTConsumer {
  std::string out, in; std::vector<std::string> *deps;
  Cons(std::string o, std::string i) : out(o), in(i) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code ec; llvm::raw_fd_ostream os(out, ec);
    OStream J(os);
    Ex X(C, J);
    J.object([&] {
      J.attribute("tu", in);
      const char *names[] = {"functions", "records", "enums", "globals"};
      for (int p = 0; p < 4; p++) { X.phase = p; J.attributeArray(names[p], [&] { X.TraverseDecl(C.getTranslationUnitDecl()); }); }
      J.attributeArray("files", [&] {
        auto &SM = C.getSourceManager(); std::set<std::string> s;
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) s.insert(it->first.getName().str());
        for (auto &f : s) { bool in = false; for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) in = true; if (in) J.value(f); }
      });
    });
  }
};
struct Act : ASTFrontendAction {
  std::string out; Act(std::string o) : out(o) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef in) override { return std::make_unique<Cons>(out, in.str()); }
};
struct Fac : tooling::FrontendActionFactory {
  std::string out; Fac(std::string o) : out(o) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(out); }
};
// usage: tfx OUT.json SOURCE root1:root2 -- flags...
int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  std::string out = argv[1], src = argv[2], roots = argv[3];
  size_t p = 0; while (p < roots.size()) { size_t q = roots.find(':', p); if (q == std::string::npos) q = roots.size(); Roots.push_back(roots.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> flags; int i = 4; if (std::string(argv[i]) == "--") i++;
  for (; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool T(db, {src});
  Fac f(out);
  return T.run(&f);
}
