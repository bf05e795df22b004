// slatx: export the resolved program (AST with resolved callees, captures,
// template instantiations, OpenMP directives) of one translation unit as JSON.
// Only declarations located under the given source root are exported.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>

using namespace clang;
namespace json = llvm::json;
using json::Object; using json::Array; using json::Value;

static std::string Root;
static std::string TuTag;

class Exporter {
public:
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  Array Records, Functions, Vars, Enums;
  std::map<const Decl*, std::string> Ids;
  std::set<const Decl*> DoneFn, DoneRec, DoneVar, DoneEnum;
  std::deque<const FunctionDecl*> Queue;
  unsigned Next = 0;
  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.starts_with(Root);
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string F = SM.getFilename(L).str();
    if (F.compare(0, Root.size(), Root) == 0) F = F.substr(Root.size());
    return F;
  }
  int64_t lineOf(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }
  std::string id(const Decl *D) {
    if (!D) return "";
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    std::string R;
    bool local = false;
    const DeclContext *DC = D->getDeclContext();
    if (isa<ParmVarDecl>(D)) local = true;
    else if (auto *V = dyn_cast<VarDecl>(D)) local = V->isLocalVarDecl();
    for (const DeclContext *P = DC; P && !local; P = P->getParent())
      if (P->isFunctionOrMethod()) local = true;
    if (auto *RD = dyn_cast<CXXRecordDecl>(D)) if (RD->isLambda()) local = true;
    if (auto *FD = dyn_cast<FieldDecl>(D)) if (auto *RD = dyn_cast<CXXRecordDecl>(FD->getParent())) if (RD->isLambda()) local = true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(D)) if (MD->getParent()->isLambda()) local = true;
    llvm::SmallString<256> Buf;
    if (!local && !index::generateUSRForDecl(D, Buf)) R = Buf.str().str();
    if (R.empty()) R = "L:" + TuTag + ":" + std::to_string(++Next);
    Ids[D] = R;
    return R;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string recName(QualType T) {
    if (T.isNull()) return "";
    T = T.getNonReferenceType().getCanonicalType();
    if (auto *RD = T->getAsCXXRecordDecl()) return recQ(RD);
    return "";
  }
  std::string recQ(const CXXRecordDecl *RD) {
    if (!RD) return "";
    if (RD->isLambda()) return "lambda#" + id(RD);
    std::string S; llvm::raw_string_ostream OS(S);
    RD->getNameForDiagnostic(OS, PP, true);
    return OS.str();
  }
  void need(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (F->isDependentContext()) return;
    if (F->hasBody(Def) && Def && inRoot(Def->getLocation())) Queue.push_back(Def);
    else if (F->isDefaulted() && inRoot(F->getLocation())) Queue.push_back(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) noteRec(M->getParent());
  }
  void noteRec(const CXXRecordDecl *RD) {
    if (!RD || !RD->getDefinition()) return;
    RD = RD->getDefinition();
    if (RD->isDependentContext()) return;
    if (!inRoot(RD->getLocation())) return;
    if (!DoneRec.insert(RD).second) return;
    Object O;
    O["id"] = id(RD); O["q"] = recQ(RD); O["name"] = RD->getNameAsString();
    O["file"] = fileOf(RD->getLocation()); O["line"] = lineOf(RD->getLocation());
    O["lambda"] = RD->isLambda();
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
      O["tmpl"] = S->getSpecializedTemplate()->getQualifiedNameAsString();
      Array A; for (auto &T : S->getTemplateArgs().asArray()) if (T.getKind()==TemplateArgument::Type) A.push_back(ty(T.getAsType())); O["targs"] = std::move(A);
    }
    Array B;
    for (auto &Bs : RD->bases()) {
      auto *BR = Bs.getType()->getAsCXXRecordDecl();
      B.push_back(recQ(BR)); noteRec(BR);
    }
    O["bases"] = std::move(B);
    Array Fs;
    for (auto *F : RD->fields()) {
      Object FO; FO["id"] = id(F); FO["name"] = F->getNameAsString(); FO["t"] = ty(F->getType()); FO["rec"] = recName(F->getType());
      FO["line"] = lineOf(F->getLocation());
      if (F->isMutable()) FO["mutable"] = true;
      if (F->getInClassInitializer()) FO["init"] = expr(F->getInClassInitializer());
      noteRec(F->getType().getNonReferenceType()->getAsCXXRecordDecl());
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    Array Ms;
    for (auto *D : RD->decls()) {
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        Object MO; MO["id"] = id(M); MO["name"] = M->getNameAsString(); MO["t"] = ty(M->getType());
        MO["access"] = (int)M->getAccess(); MO["virtual"] = M->isVirtual(); MO["const"] = M->isConst(); MO["static"]=M->isStatic();
        MO["deleted"] = M->isDeleted(); MO["defaulted"] = M->isDefaulted(); MO["implicit"] = M->isImplicit(); MO["pure"] = M->isPureVirtual();
        Array Ov; for (auto *OM : M->overridden_methods()) Ov.push_back(id(OM)); MO["ovr"] = std::move(Ov);
        if (isa<CXXDestructorDecl>(M)) MO["k"] = "dtor"; else if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { MO["k"] = "ctor"; MO["copy"] = CD->isCopyConstructor(); MO["move"] = CD->isMoveConstructor(); }
        else { MO["k"]="method"; MO["copyassign"] = M->isCopyAssignmentOperator(); }
        Array Ps; for (auto *P : M->parameters()) Ps.push_back(P->getNameAsString()); MO["params"] = std::move(Ps);
        MO["nparams"] = (int64_t)M->getNumParams(); MO["line"] = lineOf(M->getLocation()); MO["file"] = fileOf(M->getLocation());
        Ms.push_back(std::move(MO));
        need(M);
      } else if (auto *V = dyn_cast<VarDecl>(D)) noteVar(V);
      else if (auto *R = dyn_cast<CXXRecordDecl>(D)) noteRec(R);
      else if (auto *E = dyn_cast<EnumDecl>(D)) noteEnum(E);
    }
    O["methods"] = std::move(Ms);
    if (auto *DD = RD->getDestructor()) { O["dtor"] = id(DD); O["dtor_virtual"] = DD->isVirtual(); O["dtor_user"]=DD->isUserProvided(); }
    O["trivial_dtor"] = RD->hasTrivialDestructor();
    Records.push_back(std::move(O));
  }
  void noteEnum(const EnumDecl *E) {
    if (!inRoot(E->getLocation()) || !DoneEnum.insert(E->getCanonicalDecl()).second) return;
    if (E->isDependentContext()) return;
    Object O; O["id"] = id(E); O["q"] = E->getQualifiedNameAsString(); O["t"] = ty(C.getTypeDeclType(E));
    O["file"]=fileOf(E->getLocation()); O["line"]=lineOf(E->getLocation());
    Array A; for (auto *K : E->enumerators()) { Object KO; KO["id"]=id(K); KO["name"] = K->getNameAsString(); KO["v"] = K->getInitVal().getExtValue(); A.push_back(std::move(KO)); }
    O["consts"] = std::move(A); Enums.push_back(std::move(O));
  }
  void noteVar(const VarDecl *V) {
    if (V->isLocalVarDecl() && !V->isStaticLocal()) return;
    if (isa<ParmVarDecl>(V)) return;
    if (!inRoot(V->getLocation()) || V->getDeclContext()->isDependentContext()) return;
    if (!DoneVar.insert(V).second) return;
    Object O; O["id"] = id(V); O["q"] = V->getQualifiedNameAsString(); O["t"] = ty(V->getType()); O["rec"] = recName(V->getType());
    O["file"] = fileOf(V->getLocation()); O["line"] = lineOf(V->getLocation());
    O["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    O["staticlocal"] = V->isStaticLocal(); O["const"] = V->getType().isConstQualified();
    O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    if (V->getInit()) O["init"] = expr(V->getInit());
    Vars.push_back(std::move(O));
  }
  void fn(const FunctionDecl *F) {
    if (!DoneFn.insert(F->getCanonicalDecl()).second) return;
    Object O;
    O["id"] = id(F); O["name"] = F->getNameAsString();
    std::string S; { llvm::raw_string_ostream OS(S); F->getNameForDiagnostic(OS, PP, true); }
    O["q"] = S; O["t"] = ty(F->getType()); O["ret"] = ty(F->getReturnType()); O["retrec"] = recName(F->getReturnType());
    O["file"] = fileOf(F->getLocation()); O["line"] = lineOf(F->getLocation());
    O["endline"] = lineOf(F->getEndLoc());
    O["static"] = !F->isExternallyVisible();
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType())) O["noexcept"] = FPT->isNothrow();
    Array Ps; for (auto *P : F->parameters()) { Object PO; PO["id"] = id(P); PO["name"] = P->getNameAsString(); PO["t"] = ty(P->getType()); PO["rec"]=recName(P->getType()); if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) PO["def"] = expr(P->getDefaultArg()); Ps.push_back(std::move(PO)); }
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["rec"] = recQ(M->getParent()); O["const"] = M->isConst(); O["virtual"] = M->isVirtual(); O["smethod"] = M->isStatic(); O["access"]=(int)M->getAccess();
      Array Ov; for (auto *OM : M->overridden_methods()) Ov.push_back(id(OM)); O["ovr"] = std::move(Ov);
      O["islambda"] = M->getParent()->isLambda();
    }
    O["k"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : isa<CXXMethodDecl>(F) ? "method" : "function";
    O["implicit"] = F->isImplicit(); O["defaulted"] = F->isDefaulted();
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      O["copy"] = CD->isCopyConstructor(); O["move"] = CD->isMoveConstructor();
      Array Is;
      for (auto *I : CD->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer()) { IO["field"] = id(I->getAnyMember()); IO["name"] = I->getAnyMember()->getNameAsString(); }
        else if (I->isBaseInitializer()) IO["base"] = recName(QualType(I->getBaseClass(),0));
        else IO["delegating"] = true;
        IO["written"] = I->isWritten(); IO["l"] = lineOf(I->getSourceLocation());
        IO["e"] = expr(I->getInit());
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    if (auto *B = F->getBody()) O["body"] = stmt(B);
    Functions.push_back(std::move(O));
  }
  // ---------------------------------------------------------------- statements
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return Object{{"k","expr"},{"l",lineOf(S->getBeginLoc())},{"e",expr(E)}};
    Object O; O["l"] = lineOf(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { O["k"]="block"; Array A; for (auto *T : X->body()) A.push_back(stmt(T)); O["s"]=std::move(A); O["le"]=lineOf(X->getEndLoc()); return O; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"]="decl"; Array A;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V)); else if (auto *R = dyn_cast<CXXRecordDecl>(D)) noteRec(R);
      O["vars"]=std::move(A); return O; }
    if (auto *X = dyn_cast<IfStmt>(S)) { O["k"]="if"; if (X->getInit()) O["init"]=stmt(X->getInit()); if (X->getConditionVariable()) O["cv"]=var(X->getConditionVariable()); O["c"]=expr(X->getCond()); O["t"]=stmt(X->getThen()); if (X->getElse()) O["e"]=stmt(X->getElse()); return O; }
    if (auto *X = dyn_cast<ForStmt>(S)) { O["k"]="for"; if (X->getInit()) O["i"]=stmt(X->getInit()); if (X->getCond()) O["c"]=expr(X->getCond()); if (X->getInc()) O["n"]=expr(X->getInc()); O["b"]=stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"]="while"; if (X->getConditionVariable()) O["cv"]=var(X->getConditionVariable()); O["c"]=expr(X->getCond()); O["b"]=stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["k"]="do"; O["c"]=expr(X->getCond()); O["b"]=stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { O["k"]="rangefor"; O["r"]=expr(X->getRangeInit()); O["v"]=var(X->getLoopVariable(), false); O["b"]=stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"]="switch"; if (X->getInit()) O["init"]=stmt(X->getInit()); O["c"]=expr(X->getCond()); O["b"]=stmt(X->getBody()); O["alle"]=X->isAllEnumCasesCovered(); return O; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"]="case"; O["v"]=expr(X->getLHS()); O["s"]=stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"]="default"; O["s"]=stmt(X->getSubStmt()); return O; }
    if (isa<BreakStmt>(S)) { O["k"]="break"; return O; }
    if (isa<ContinueStmt>(S)) { O["k"]="continue"; return O; }
    if (isa<NullStmt>(S)) { O["k"]="null"; return O; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"]="return"; if (X->getRetValue()) O["e"]=expr(X->getRetValue()); return O; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { O["k"]="try"; O["b"]=stmt(X->getTryBlock()); Array H; for (unsigned i=0;i<X->getNumHandlers();++i){ auto *h=X->getHandler(i); Object HO; HO["l"]=lineOf(h->getBeginLoc()); HO["t"]=h->getExceptionDecl()?ty(h->getCaughtType()):"..."; if (h->getExceptionDecl()) HO["v"]=var(h->getExceptionDecl()); HO["b"]=stmt(h->getHandlerBlock()); H.push_back(std::move(HO)); } O["h"]=std::move(H); return O; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { O["k"]="label"; O["n"]=X->getName(); O["s"]=stmt(X->getSubStmt()); return O; }
    if (isa<GotoStmt>(S)) { O["k"]="goto"; return O; }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
    if (auto *X = dyn_cast<OMPCanonicalLoop>(S)) return stmt(X->getLoopStmt());
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      O["k"]="omp"; O["d"]=llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      Array Cl;
      for (auto *Cc : X->clauses()) { if (!Cc || Cc->isImplicit()) continue; Object CO; CO["n"]=llvm::omp::getOpenMPClauseName(Cc->getClauseKind()).str();
        Array Vs; for (auto *Ch : Cc->children()) if (Ch) if (auto *Ex=dyn_cast<Expr>(Ch)) Vs.push_back(expr(Ex)); CO["a"]=std::move(Vs); Cl.push_back(std::move(CO)); }
      O["cl"]=std::move(Cl);
      if (auto *Cr = dyn_cast<OMPCriticalDirective>(X)) O["name"]=Cr->getDirectiveName().getAsString();
      if (X->hasAssociatedStmt()) {
        const Stmt *B = X->getAssociatedStmt();
        while (B) { if (auto *CS = dyn_cast<CapturedStmt>(B)) B = CS->getCapturedStmt(); else if (auto *CL = dyn_cast<OMPCanonicalLoop>(B)) B = CL->getLoopStmt(); else break; }
        O["b"]=stmt(B);
      }
      return O; }
    O["k"]="other"; O["cls"]=S->getStmtClassName();
    Array A; for (auto *Ch : S->children()) if (Ch) A.push_back(stmt(Ch)); O["s"]=std::move(A);
    return O;
  }
  Value var(const VarDecl *V, bool withInit = true) {
    Object O; O["id"]=id(V); O["n"]=V->getNameAsString(); O["t"]=ty(V->getType()); O["rec"]=recName(V->getType()); O["l"]=lineOf(V->getLocation());
    O["ref"]=V->getType()->isReferenceType();
    O["static"]=V->isStaticLocal();
    noteRec(V->getType().getNonReferenceType()->getAsCXXRecordDecl());
    if (withInit && V->getInit()) O["i"]=expr(V->getInit());
    if (V->isStaticLocal()) noteVar(V);
    return O;
  }
  Array args(llvm::ArrayRef<const Expr*> A) { Array R; for (auto *E : A) R.push_back(expr(E)); return R; }
  template <class T> Array argsR(T A) { Array R; for (auto *E : A) R.push_back(expr(E)); return R; }
  void callee(Object &O, const FunctionDecl *F) {
    O["f"]=id(F); O["n"]=F->getNameAsString();
    std::string S; { llvm::raw_string_ostream OS(S); F->printQualifiedName(OS, PP); } O["q"]=S;
    O["inrepo"]=inRoot(F->getLocation());
    O["ft"]=ty(F->getType());
    if (F->isVariadic()) O["variadic"]=true;
    Array PT; for (auto *P : F->parameters()) PT.push_back(ty(P->getType())); O["pt"]=std::move(PT);
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow()) O["nothrow"]=true;
    if (F->isExternC()) O["externc"]=true;
    need(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["cl"]=recQ(M->getParent()); if (M->isConst()) O["cm"]=true; if (M->isVirtual()) O["virt"]=true; if (M->isStatic()) O["smeth"]=true;
      if (auto *S2 = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) O["tmpl"]=S2->getSpecializedTemplate()->getQualifiedNameAsString(); }
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    Object O; O["l"]=lineOf(E->getExprLoc());
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) if (X->getSourceExpr()) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<UserDefinedLiteral>(E)) { O["k"]="lit"; O["v"]="udl"; return O; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_FloatingToIntegral: case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean:
        case CK_FloatingCast: case CK_IntegralToFloating: case CK_IntegralCast: {
          if (X->getCastKind()==CK_FloatingToIntegral || (isa<ExplicitCastExpr>(E))) { O["k"]="cast"; O["ck"]=X->getCastKindName(); O["t"]=ty(X->getType()); O["e"]=expr(X->getSubExpr()); return O; }
          if (X->getCastKind()==CK_FloatingCast || X->getCastKind()==CK_IntegralCast || X->getCastKind()==CK_IntegralToFloating) {
             Value V = expr(X->getSubExpr()); if (auto *Ob = V.getAsObject()) if (!Ob->get("ict")) (*Ob)["ict"]=ty(X->getType()); return V; }
          return expr(X->getSubExpr()); }
        default: return expr(X->getSubExpr());
      }
    }
    O["t"]=ty(E->getType());
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { O["k"]="lit"; O["v"]=(int64_t)X->getValue().getLimitedValue(INT64_MAX); return O; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { O["k"]="lit"; O["v"]=X->getValueAsApproximateDouble(); if (!std::isfinite(X->getValueAsApproximateDouble())) O["v"]="inf"; return O; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"]="lit"; O["v"]=X->getValue(); return O; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { O["k"]="lit"; O["v"]= X->getCharByteWidth()==1 ? json::fixUTF8(X->getString()) : std::string("wide"); O["str"]=true; return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"]="lit"; O["v"]=(int64_t)X->getValue(); return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"]="lit"; O["v"]=nullptr; O["null"]=true; return O; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["k"]="lit"; O["v"]=0; O["zeroinit"]=true; return O; }
    if (isa<CXXThisExpr>(E)) { O["k"]="this"; return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      O["k"]="ref"; O["d"]=id(X->getDecl()); O["n"]=X->getDecl()->getNameAsString();
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"]="func"; O["q"]=F->getQualifiedNameAsString(); need(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["dk"]="enum"; O["v"]=EC->getInitVal().getExtValue(); O["q"]=EC->getQualifiedNameAsString(); if (auto *ED=dyn_cast<EnumDecl>(EC->getDeclContext())) { O["en"]=ED->getQualifiedNameAsString(); noteEnum(ED);} }
      else if (isa<ParmVarDecl>(D)) O["dk"]="parm";
      else if (auto *V = dyn_cast<VarDecl>(D)) { bool g = V->hasGlobalStorage(); O["dk"]= g ? "gvar" : "var"; if (g) { O["q"]=V->getQualifiedNameAsString(); noteVar(V);
            if (V->getType().isConstQualified() || V->isConstexpr()) { const VarDecl *DV=nullptr; if (auto *I = V->getAnyInitializer(DV)) { Expr::EvalResult R; if (!I->isValueDependent() && I->EvaluateAsRValue(R, C)) { if (R.Val.isInt()) O["cv"]=R.Val.getInt().getExtValue(); else if (R.Val.isFloat()) O["cv"]=R.Val.getFloat().convertToDouble(); } } } } 
        if (V->getType()->isReferenceType()) O["isref"]=true; }
      else O["dk"]="other";
      return O; }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["k"]="mem"; O["f"]=id(F); O["n"]=F->getNameAsString(); O["cl"]=recQ(dyn_cast<CXXRecordDecl>(F->getParent())); O["arrow"]=X->isArrow(); O["b"]=expr(X->getBase()); return O; }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { O["k"]="ref"; O["d"]=id(V); O["n"]=V->getNameAsString(); O["dk"]="gvar"; O["q"]=V->getQualifiedNameAsString(); noteVar(V); return O; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(X->getMemberDecl())) { O["k"]="ref"; O["d"]=id(EC); O["n"]=EC->getNameAsString(); O["dk"]="enum"; O["v"]=EC->getInitVal().getExtValue(); return O; }
      O["k"]="memfn"; O["n"]=X->getMemberDecl()->getNameAsString(); O["b"]=expr(X->getBase()); return O; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { O["k"]="un"; O["op"]=UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"]=X->isPostfix(); O["e"]=expr(X->getSubExpr()); return O; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) { O["k"]= X->isAssignmentOp() ? "assign":"bin"; O["op"]=X->getOpcodeStr().str(); O["a"]=expr(X->getLHS()); O["b"]=expr(X->getRHS());
      { QualType CT = X->getType(); if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) CT = CA->getComputationResultType(); if ((X->getOpcode()==BO_Div || X->getOpcode()==BO_DivAssign) && !CT.isNull() && CT->isIntegerType()) O["it"]=true; }
      if (X->getOpcode()==BO_EQ || X->getOpcode()==BO_NE) { QualType QT = X->getLHS()->getType(); if (QT->isRealFloatingType()) O["fl"]=true; }
      return O; }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) { O["k"]="cond"; O["c"]=expr(X->getCond()); O["a"]=expr(X->getTrueExpr()); O["b"]=expr(X->getFalseExpr()); return O; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"]="idx"; O["a"]=expr(X->getBase()); O["i"]=expr(X->getIdx()); return O; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"]="lambda"; O["f"]=id(X->getCallOperator()); O["cls"]=recQ(X->getLambdaClass());
      Array Cs; auto IB = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        Object CO;
        if (Cp.capturesThis()) CO["k"]= Cp.getCaptureKind()==LCK_This ? "this" : "starthis";
        else if (Cp.capturesVariable()) { CO["k"]= Cp.getCaptureKind()==LCK_ByRef ? "ref":"copy"; CO["d"]=id(Cp.getCapturedVar()); CO["n"]=Cp.getCapturedVar()->getNameAsString(); if (*IB) CO["e"]=expr(*IB); }
        CO["impl"]=Cp.isImplicit();
        ++IB; Cs.push_back(std::move(CO)); }
      O["caps"]=std::move(Cs);
      DoneRec.insert(X->getLambdaClass());
      Queue.push_back(X->getCallOperator());
      return O; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"]="call"; O["op"]=getOperatorSpelling(X->getOperator());
      auto *F = X->getDirectCallee();
      llvm::SmallVector<const Expr*,4> A(X->arg_begin(), X->arg_end());
      if (F) callee(O,F); else O["fe"]=expr(X->getCallee());
      if (F && isa<CXXMethodDecl>(F) && !A.empty()) { O["o"]=expr(A[0]); A.erase(A.begin()); }
      O["a"]=args(A); return O; }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"]="call"; auto *M = X->getMethodDecl();
      if (M) callee(O,M); else O["fe"]=expr(X->getCallee());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { O["o"]=expr(ME->getBase()); O["arrow"]=ME->isArrow(); if (ME->hasQualifier()) O["qual"]=true; }
      else if (X->getImplicitObjectArgument()) O["o"]=expr(X->getImplicitObjectArgument());
      O["a"]=argsR(X->arguments()); return O; }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"]="call"; if (auto *F = X->getDirectCallee()) callee(O,F); else O["fe"]=expr(X->getCallee());
      O["a"]=argsR(X->arguments()); return O; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      if (X->isElidable() && X->getNumArgs()==1) return expr(X->getArg(0));
      O["k"]="ctor"; callee(O, X->getConstructor()); O["cls"]=recQ(X->getConstructor()->getParent()); O["copy"]=X->getConstructor()->isCopyOrMoveConstructor();
      noteRec(X->getConstructor()->getParent());
      O["a"]=argsR(X->arguments()); return O; }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { O["k"]="ctor"; callee(O, X->getConstructor()); O["a"]=Array(); return O; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { O["k"]="new"; O["at"]=ty(X->getAllocatedType()); O["rec"]=recName(X->getAllocatedType()); if (X->getInitializer()) O["e"]=expr(X->getInitializer()); return O; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"]="delete"; O["e"]=expr(X->getArgument()); return O; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"]="throw"; if (X->getSubExpr()) { O["e"]=expr(X->getSubExpr()); O["tt"]=ty(X->getSubExpr()->getType()); } return O; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      auto *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      O["k"]="init"; O["rec"]=recName(X->getType()); O["a"]=argsR(S->inits());
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) { Array Fs; for (auto *F : RD->fields()) Fs.push_back(F->getNameAsString()); O["fields"]=std::move(Fs); }
      return O; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { O["k"]="lit"; O["v"]="sizeof"; return O; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { return expr(X->getCommonExpr()); }
    O["k"]="unk"; O["cls"]=E->getStmtClassName();
    Array A; for (auto *Ch : E->children()) if (auto *Ce = dyn_cast_or_null<Expr>(Ch)) A.push_back(expr(Ce)); O["a"]=std::move(A);
    return O;
  }
};

class Vis : public RecursiveASTVisitor<Vis> {
public:
  Exporter &X; Vis(Exporter &X):X(X){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !F->isThisDeclarationADefinition()) return true;
    if (!X.inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true; // exported on demand
    if (F->hasBody()) X.Queue.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !R->isLambda()) X.noteRec(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { X.noteEnum(E); return true; }
  bool VisitVarDecl(VarDecl *V) { if (V->hasGlobalStorage()) X.noteVar(V); return true; }
};

static std::string OutPath;
static int Errors = 0;
class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C); Vis V(X);
    for (auto *D : C.getTranslationUnitDecl()->decls()) {
      // visit only declarations that can lie under the root (instantiations hang
      // off the primary templates, which do)
      if (X.inRoot(D->getLocation())) V.TraverseDecl(D);
    }
    while (!X.Queue.empty()) { auto *F = X.Queue.front(); X.Queue.pop_front(); X.fn(F); }
    Object O; O["tu"]=TuTag; O["records"]=std::move(X.Records); O["functions"]=std::move(X.Functions); O["vars"]=std::move(X.Vars); O["enums"]=std::move(X.Enums);
    O["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC); OS << Value(std::move(O));
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
  // slatx ROOT/ OUT.json FILE.cpp -- flags...
  if (argc < 5) { llvm::errs() << "usage: slatx ROOT OUT FILE -- FLAGS\n"; return 2; }
  Root = argv[1]; if (Root.back() != '/') Root += '/';
  OutPath = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Flags; for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  TuTag = llvm::StringRef(File).rsplit('/').second.str(); if (TuTag.empty()) TuTag = File;
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
