// equiv: candidate edits which change no behaviour, of the sources below a root
// (development tool; no registered check uses it). One JSON object per line:
// {"kind":..., "file":..., "edits":[[offset, length, text], ...]}
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root;
static unsigned Counter = 0;

class V : public RecursiveASTVisitor<V> {
public:
  ASTContext &C; SourceManager &SM; LangOptions LO;
  std::map<const VarDecl*, std::vector<SourceLocation>> Uses;
  std::set<const VarDecl*> Bad;
  std::vector<const VarDecl*> Locals;
  std::set<std::string> Seen;
  int InCtorInit = 0;
  V(ASTContext &C) : C(C), SM(C.getSourceManager()), LO(C.getLangOpts()) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool ours(SourceLocation L) {
    if (L.isInvalid() || L.isMacroID()) return false;
    return SM.getFilename(L).starts_with(Root);
  }
  bool range(SourceRange R, unsigned &o, unsigned &l, FileID *f = nullptr) {
    if (R.getBegin().isMacroID() || R.getEnd().isMacroID()) {
      CharSourceRange CR = Lexer::makeFileCharRange(CharSourceRange::getTokenRange(R), SM, LO);
      if (CR.isInvalid()) return false;
      auto b = SM.getDecomposedLoc(CR.getBegin()), e = SM.getDecomposedLoc(CR.getEnd());
      if (b.first != e.first) return false;
      o = b.second; l = e.second - b.second; return SM.getFilename(CR.getBegin()).starts_with(Root);
    }
    if (!ours(R.getBegin()) || !ours(R.getEnd())) return false;
    auto b = SM.getDecomposedLoc(R.getBegin());
    auto e = SM.getDecomposedLoc(Lexer::getLocForEndOfToken(R.getEnd(), 0, SM, LO));
    if (b.first != e.first || e.second < b.second) return false;
    o = b.second; l = e.second - b.second;
    return true;
  }
  std::string text(SourceRange R) {
    unsigned o, l;
    if (!range(R, o, l)) return "";
    return SM.getBufferData(SM.getFileID(SM.getFileLoc(R.getBegin()))).substr(o, l).str();
  }
  std::string text(const Stmt *S) { return text(S->getSourceRange()); }
  void emit(const char *kind, SourceLocation at, std::vector<std::pair<SourceRange, std::string>> es) {
    json::Array A;
    for (auto &e : es) {
      unsigned o, l;
      if (!range(e.first, o, l)) return;
      A.push_back(json::Array{(int64_t)o, (int64_t)l, e.second});
    }
    out(kind, at, std::move(A));
  }
  void out(const char *kind, SourceLocation at, json::Array A) {
    std::string f = SM.getFilename(SM.getFileLoc(at)).str();
    json::Object O{{"kind", kind}, {"file", f}, {"line", (int64_t)SM.getExpansionLineNumber(at)}, {"edits", std::move(A)}};
    std::string s;
    llvm::raw_string_ostream(s) << json::Value(std::move(O));
    if (Seen.insert(s).second) llvm::outs() << s << "\n";
  }
  // a whole statement, with its semicolon
  bool stmtRange(const Stmt *S, unsigned &o, unsigned &l) {
    if (!range(S->getSourceRange(), o, l)) return false;
    if (isa<Expr>(S) || isa<ReturnStmt>(S)) {
      auto Next = Lexer::findNextToken(S->getEndLoc(), SM, LO);
      if (!Next || Next->isNot(tok::semi)) return false;
      l = SM.getDecomposedLoc(Next->getLocation()).second + 1 - o;
    }
    return true;
  }
  bool inBlock(const Stmt *S) {
    auto P = C.getParents(*S);
    return P.size() == 1 && P[0].get<CompoundStmt>();
  }
  bool inLambdaOrBlock(const Stmt *S) { return inBlock(S); }
  struct Find : RecursiveASTVisitor<Find> {
    bool ret = false, jump = false, decl = false, omp = false;
    bool VisitReturnStmt(ReturnStmt *) { ret = true; return true; }
    bool VisitBreakStmt(BreakStmt *) { jump = true; return true; }
    bool VisitContinueStmt(ContinueStmt *) { jump = true; return true; }
    bool VisitOMPExecutableDirective(OMPExecutableDirective *) { omp = true; return true; }
    bool TraverseLambdaExpr(LambdaExpr *) { return true; }
  };
  Find has(const Stmt *S) { Find F; F.TraverseStmt(const_cast<Stmt*>(S)); return F; }
  bool plain(const Expr *E) {
    return E && !E->isTypeDependent() && !E->isValueDependent() && !E->isInstantiationDependent();
  }
  bool arith(const Expr *E) { return plain(E) && E->getType()->isArithmeticType(); }
  bool isOMPLoopPart(const Stmt *S) {
    // the loop of an OpenMP directive has to keep its form
    DynTypedNode N = DynTypedNode::create(*S);
    for (int i = 0; i < 6; i++) {
      auto P = C.getParents(N);
      if (P.size() < 1) return false;
      if (P[0].get<OMPExecutableDirective>()) return true;
      if (P[0].get<CompoundStmt>()) return false;
      N = P[0];
    }
    return false;
  }
  bool VisitBinaryOperator(BinaryOperator *B) {
    if (!ours(B->getOperatorLoc()) || !arith(B->getLHS()) || !arith(B->getRHS()) || isOMPLoopPart(B)) return true;
    std::string l = text(B->getLHS()), r = text(B->getRHS());
    if (l.empty() || r.empty()) return true;
    auto op = B->getOpcode();
    auto both = [&](const char *kind, std::string t) { emit(kind, B->getOperatorLoc(), {{B->getSourceRange(), t}}); };
    switch (op) {
    case BO_Mul: both("commute", "((" + r + ") * (" + l + "))"); break;
    case BO_Add: both("commute", "((" + r + ") + (" + l + "))"); break;
    case BO_Sub: both("subneg", "(-(" + r + ") + (" + l + "))"); break;
    case BO_Div: if (B->getType()->isFloatingType()) both("divinv", "((" + l + ") * (1.0 / (" + r + ")))"); break;
    case BO_LT: both("flip", "((" + r + ") > (" + l + "))"); both("notge", B->getLHS()->getType()->isIntegerType() && B->getRHS()->getType()->isIntegerType() ? "(!((" + l + ") >= (" + r + ")))" : "((" + r + ") > (" + l + "))"); break;
    case BO_GT: both("flip", "((" + r + ") < (" + l + "))"); break;
    case BO_LE: both("flip", "((" + r + ") >= (" + l + "))"); break;
    case BO_GE: both("flip", "((" + r + ") <= (" + l + "))"); break;
    case BO_EQ: both("noteq", "(!((" + l + ") != (" + r + ")))"); break;
    case BO_NE: both("noteq", "(!((" + l + ") == (" + r + ")))"); break;
    case BO_LAnd: both("demorgan", "(!(!(" + l + ") || !(" + r + ")))"); both("tern", "((" + l + ") ? bool(" + r + ") : false)"); break;
    case BO_LOr: both("demorgan", "(!(!(" + l + ") && !(" + r + ")))"); break;
    case BO_AddAssign: both("expand", l + " = " + l + " + (" + r + ")"); break;
    case BO_MulAssign: both("expand", l + " = " + l + " * (" + r + ")"); break;
    case BO_SubAssign: both("expand", l + " = " + l + " - (" + r + ")"); break;
    default: break;
    }
    if (op == BO_Mul || op == BO_Add || op == BO_Sub || op == BO_Div) extract(B);
    if ((op == BO_Mul || op == BO_Add || op == BO_Sub || op == BO_Div) && B->getType()->isFloatingType() && !InCtorInit)
      both("iife", "([&]() -> double { return " + l + " " + B->getOpcodeStr().str() + " " + r + "; }())");
    return true;
  }
  bool VisitCallExpr(CallExpr *E) {
    if (!ours(E->getBeginLoc()) || !plain(E) || isOMPLoopPart(E) || InCtorInit) return true;
    extract(E);
    if (E->getType()->isRealFloatingType()) {
      std::string t = text(E);
      if (!t.empty()) emit("iifecall", E->getBeginLoc(), {{E->getSourceRange(), "([&]() -> double { double value_" + std::to_string(++Counter) + " = " + t + "; return value_" + std::to_string(Counter) + "; }())"}});
    }
    return true;
  }
  bool VisitUnaryOperator(UnaryOperator *U) {
    if (!ours(U->getOperatorLoc()) || isOMPLoopPart(U)) return true;
    if (U->getOpcode() == UO_PostInc && U->getSubExpr()->getType()->isIntegerType()) {
      auto P = C.getParents(*U);
      bool stmt = P.size() == 1 && (P[0].get<CompoundStmt>() || (P[0].get<ForStmt>() && P[0].get<ForStmt>()->getInc() == U));
      if (stmt) emit("preinc", U->getOperatorLoc(), {{U->getSourceRange(), text(U->getSubExpr()) + " += 1"}});
    }
    return true;
  }
  bool VisitIfStmt(IfStmt *I) {
    if (!ours(I->getIfLoc()) || I->getConditionVariable() || I->getInit() || isOMPLoopPart(I) || !plain(I->getCond())) return true;
    std::string c = text(I->getCond()), t = text(I->getThen());
    if (c.empty() || t.empty()) return true;
    bool blk = isa<CompoundStmt>(I->getThen());
    if (I->getElse()) {
      std::string e = text(I->getElse());
      if (e.empty() || !blk) return true;
      if (isa<CompoundStmt>(I->getElse()) || isa<IfStmt>(I->getElse()))
        emit("swapif", I->getIfLoc(), {{I->getSourceRange(), "if (!(" + c + ")) { " + e + " } else " + t}});
      auto *CT = cast<CompoundStmt>(I->getThen());
      if (CT->size() && (isa<ReturnStmt>(CT->body_back())) && inBlock(I))
        emit("noelse", I->getIfLoc(), {{I->getSourceRange(), "if (" + c + ") " + t + "\n{ " + e + " }"}});
      // if (c) return a; else return b;
      if (auto *CE = dyn_cast<CompoundStmt>(I->getElse()))
        if (CT->size() == 1 && CE->size() == 1)
          if (auto *R1 = dyn_cast<ReturnStmt>(CT->body_front()))
            if (auto *R2 = dyn_cast<ReturnStmt>(CE->body_front()))
              if (R1->getRetValue() && R2->getRetValue() && C.hasSameType(R1->getRetValue()->getType(), R2->getRetValue()->getType()) &&
                  !isa<InitListExpr>(R1->getRetValue()) && !isa<InitListExpr>(R2->getRetValue()))
                emit("ternary", I->getIfLoc(), {{I->getSourceRange(), "return (" + c + ") ? (" + text(R1->getRetValue()) + ") : (" + text(R2->getRetValue()) + ");"}});
    } else if (blk) {
      emit("emptythen", I->getIfLoc(), {{I->getSourceRange(), "if (!(" + c + ")) { } else " + t}});
      if (auto *B = dyn_cast<BinaryOperator>(I->getCond()->IgnoreParenImpCasts()))
        if (B->getOpcode() == BO_LAnd)
          emit("nestif", I->getIfLoc(), {{I->getSourceRange(), "if (" + text(B->getLHS()) + ") { if (" + text(B->getRHS()) + ") " + t + " }"}});
    }
    if (inBlock(I)) {
      std::string n = "cond_" + std::to_string(++Counter);
      emit("condvar", I->getIfLoc(), {{SourceRange(I->getIfLoc(), I->getIfLoc()), "const bool " + n + " = bool(" + c + ");\nif"}, {I->getCond()->getSourceRange(), n}});
    }
    if (I->getCond()->IgnoreParenImpCasts()->getType()->isAnyPointerType())
      emit("nonnull", I->getIfLoc(), {{I->getCond()->getSourceRange(), "(" + c + ") != nullptr"}});
    return true;
  }
  bool VisitWhileStmt(WhileStmt *W) {
    if (!ours(W->getWhileLoc()) || W->getConditionVariable()) return true;
    std::string c = text(W->getCond()), b = text(W->getBody());
    if (c.empty() || b.empty()) return true;
    emit("whilefor", W->getWhileLoc(), {{W->getSourceRange(), "for ( ; " + c + " ; ) " + b}});
    if (auto *CS = dyn_cast<CompoundStmt>(W->getBody()))
      emit("whilebreak", W->getWhileLoc(), {{W->getCond()->getSourceRange(), "true"}, {SourceRange(CS->getLBracLoc(), CS->getLBracLoc()), "{ if (!(" + c + ")) { break; }\n"}});
    return true;
  }
  const Expr *strip(const Expr *E) {
    for (;;) {
      E = E->IgnoreImplicit();
      auto *X = dyn_cast<CXXConstructExpr>(E);
      if (!X || X->getNumArgs() != 1) return E;
      E = X->getArg(0);
    }
  }
  bool VisitForStmt(ForStmt *F) {
    if (!ours(F->getForLoc()) || isOMPLoopPart(F) || F->getConditionVariable() || !F->getCond() || !F->getInc() || !F->getInit()) return true;
    struct Cont : RecursiveASTVisitor<Cont> { bool c = false; bool VisitContinueStmt(ContinueStmt *) { c = true; return true; } } X;
    X.TraverseStmt(F->getBody());
    std::string i = text(F->getInit()), c = text(F->getCond()), n = text(F->getInc()), b = text(F->getBody());
    if (c.empty() || b.empty() || n.empty() || i.empty() || X.c || !isa<CompoundStmt>(F->getBody())) return true;
    if (i.back() != ';') i += ";";
    if (auto *DS = dyn_cast<DeclStmt>(F->getInit()))
      if (DS->isSingleDecl())
        if (auto *D = dyn_cast<VarDecl>(DS->getSingleDecl()))
          if (D->getInit())
            if (auto *MC = dyn_cast<CXXMemberCallExpr>(strip(D->getInit())))
              if (MC->getMethodDecl() && MC->getMethodDecl()->getNameAsString() == "begin") {
                std::string k = std::to_string(++Counter), cn = text(MC->getImplicitObjectArgument());
                emit("iterrange", F->getForLoc(), {{F->getSourceRange(), "for (auto &el_" + k + " : " + cn + ") { auto " + D->getNameAsString() + " = &el_" + k + "; " + b + " }"}});
              }
    emit("forwhile", F->getForLoc(), {{F->getSourceRange(), "{ " + i + " while (" + c + ") { " + b + " " + n + "; } }"}});
    return true;
  }
  bool VisitCXXForRangeStmt(CXXForRangeStmt *F) {
    if (!ours(F->getForLoc()) || isOMPLoopPart(F)) return true;
    auto *D = F->getLoopVariable();
    std::string r = text(F->getRangeInit()), b = text(F->getBody()), d = text(SourceRange(D->getBeginLoc(), D->getLocation()));
    if (r.empty() || b.empty() || d.empty() || !isa<CompoundStmt>(F->getBody())) return true;
    std::string n = "it_" + std::to_string(++Counter);
    emit("rangeiter", F->getForLoc(), {{F->getSourceRange(), "for (auto " + n + " = std::begin(" + r + "); " + n + " != std::end(" + r + "); ++" + n + ") { " + d + " = *" + n + "; " + b + " }"}});
    return true;
  }
  bool VisitConditionalOperator(ConditionalOperator *Q) {
    if (!ours(Q->getQuestionLoc()) || !plain(Q) || InCtorInit) return true;
    emit("swapcond", Q->getQuestionLoc(), {{Q->getSourceRange(), "(!(" + text(Q->getCond()) + ") ? (" + text(Q->getFalseExpr()) + ") : (" + text(Q->getTrueExpr()) + "))"}});
    return true;
  }
  bool VisitReturnStmt(ReturnStmt *R) {
    if (!ours(R->getReturnLoc()) || !R->getRetValue() || !inBlock(R)) return true;
    auto *E = R->getRetValue();
    if (!plain(E) || isa<InitListExpr>(E->IgnoreImplicit()) || E->getType()->isVoidType()) return true;
    std::string e = text(E);
    if (e.empty() || e[0] == '{') return true;
    if (E->isGLValue() && !isa<DeclRefExpr>(E->IgnoreImplicit())) return true;
    std::string n = "answer_" + std::to_string(++Counter);
    emit("retvar", R->getReturnLoc(), {{R->getSourceRange(), "auto " + n + " = " + e + ";\n return " + n}});
    if (E->getType()->isRealFloatingType())
      emit("retlambda", R->getReturnLoc(), {{R->getSourceRange(), "auto " + n + " = [&]() -> double { return " + e + "; };\n return " + n + "()"}});
    return true;
  }
  bool VisitDeclStmt(DeclStmt *D) {
    if (!ours(D->getBeginLoc()) || !D->isSingleDecl() || !inBlock(D)) return true;
    auto *X = dyn_cast<VarDecl>(D->getSingleDecl());
    if (!X || !X->getInit() || X->isStaticLocal() || X->isConstexpr() || !plain(X->getInit())) return true;
    if (!X->getType()->isArithmeticType() || X->getType().isConstQualified() || X->getInitStyle() != VarDecl::CInit) return true;
    std::string t = text(SourceRange(X->getBeginLoc(), X->getLocation())), e = text(X->getInit());
    if (e.empty() || t.find("auto") == 0) return true;
    emit("splitinit", D->getBeginLoc(), {{D->getSourceRange(), t + ";\n" + X->getNameAsString() + " = " + e + ";"}});
    emit("constlocal", D->getBeginLoc(), {{SourceRange(X->getInit()->getBeginLoc(), X->getInit()->getEndLoc()), "(" + e + ")"}});
    return true;
  }
  bool VisitCompoundStmt(CompoundStmt *S) {
    if (!ours(S->getLBracLoc())) return true;
    std::vector<Stmt*> b(S->body_begin(), S->body_end());
    for (size_t i = 0; i < b.size(); i++) {
      unsigned o, l;
      auto *E = dyn_cast<Expr>(b[i]);
      if (!E || !ours(E->getBeginLoc()) || !stmtRange(b[i], o, l)) continue;
      auto f = has(b[i]);
      if (f.ret || f.jump || f.omp || !plain(E) || InCtorInit) continue;
      std::string t = SM.getBufferData(SM.getFileID(E->getBeginLoc())).substr(o, l).str();
      json::Array A; A.push_back(json::Array{(int64_t)o, (int64_t)l, "[&]() { " + t + " }();"});
      out("stmtlambda", E->getBeginLoc(), std::move(A));
      json::Array A2; A2.push_back(json::Array{(int64_t)o, (int64_t)l, "{ " + t + " }"});
      out("block", E->getBeginLoc(), std::move(A2));
      json::Array A3; A3.push_back(json::Array{(int64_t)o, (int64_t)l, "do { " + t + " } while (false);"});
      out("dowhile", E->getBeginLoc(), std::move(A3));
    }
    return true;
  }
  // the statement of a block the expression is evaluated in, unconditionally, and whether only once before its effects
  const Stmt *home(const Expr *E, bool &cond) {
    DynTypedNode N = DynTypedNode::create(*E);
    cond = false;
    for (int i = 0; i < 40; i++) {
      auto P = C.getParents(N);
      if (P.size() != 1) return nullptr;
      auto Q = P[0];
      if (Q.get<CompoundStmt>()) return N.get<Stmt>();
      if (Q.get<LambdaExpr>() || Q.get<ForStmt>() || Q.get<WhileStmt>() || Q.get<DoStmt>() || Q.get<CXXForRangeStmt>() || Q.get<CaseStmt>() ||
          Q.get<OMPExecutableDirective>() || Q.get<CXXCtorInitializer>() || Q.get<FunctionDecl>() || Q.get<CXXCatchStmt>() || Q.get<DefaultStmt>() || Q.get<SwitchStmt>()) return nullptr;
      if (auto *I = Q.get<IfStmt>()) if (N.get<Stmt>() != I->getCond()) return nullptr;
      if (Q.get<ConditionalOperator>()) cond = true;
      if (auto *B = Q.get<BinaryOperator>()) if (B->isLogicalOp()) cond = true;
      N = Q;
    }
    return nullptr;
  }
  struct Free : RecursiveASTVisitor<Free> {
    std::set<const VarDecl*> vars; bool other = false;
    bool VisitDeclRefExpr(DeclRefExpr *R) {
      if (auto *D = dyn_cast<VarDecl>(R->getDecl())) { if (D->hasLocalStorage()) vars.insert(D); }
      return true;
    }
    bool VisitCXXThisExpr(CXXThisExpr *) { other = true; return true; }
    bool TraverseLambdaExpr(LambdaExpr *) { other = true; return true; }
  };
  const FunctionDecl *Outer = nullptr;
  bool TraverseDecl(Decl *D) {
    auto *F = dyn_cast_or_null<FunctionDecl>(D);
    if (F && !Outer && F->isThisDeclarationADefinition() && isa<NamespaceDecl, TranslationUnitDecl, LinkageSpecDecl>(F->getLexicalDeclContext())) {
      Outer = F;
      bool r = RecursiveASTVisitor<V>::TraverseDecl(D);
      Outer = nullptr;
      return r;
    }
    return RecursiveASTVisitor<V>::TraverseDecl(D);
  }
  void extract(const Expr *E) {
    if (!E->getType()->isRealFloatingType() || !plain(E) || InCtorInit || isOMPLoopPart(E)) return;
    std::string e = text(E);
    if (e.empty()) return;
    std::string n = std::to_string(++Counter);
    bool cond;
    if (auto *H = home(E, cond)) {
      unsigned o, l;
      if (ours(H->getBeginLoc()) && range(SourceRange(H->getBeginLoc(), H->getBeginLoc()), o, l)) {
        unsigned eo, el;
        if (range(E->getSourceRange(), eo, el)) {
          auto two = [&](const char *kind, std::string before, std::string use) {
            json::Array A;
            A.push_back(json::Array{(int64_t)o, (int64_t)0, before});
            A.push_back(json::Array{(int64_t)eo, (int64_t)el, use});
            out(kind, E->getBeginLoc(), std::move(A));
          };
          if (!cond) two("hoist", "const double part_" + n + " = " + e + ";\n", "part_" + n);
          two("namedlambda", "auto helper_" + n + " = [&]() -> double { return " + e + "; };\n", "helper_" + n + "()");
        }
      }
    }
    if (Outer && ours(Outer->getBeginLoc()) && !Outer->isTemplated()) {
      Free F;
      F.TraverseStmt(const_cast<Expr*>(E));
      if (!F.other && F.vars.size() && F.vars.size() < 7) {
        std::string ps, as;
        for (auto *D : F.vars) {
          QualType T = D->getType().getNonReferenceType().getUnqualifiedType();
          if (T->isDependentType() || T->isArrayType()) return;
          PrintingPolicy PP(LO); PP.FullyQualifiedName = true; PP.Bool = true; PP.SuppressTagKeyword = true;
          std::string t = T.getAsString(PP);
          if (t.find("lambda") != std::string::npos || t.find("unnamed") != std::string::npos || t.find("anonymous") != std::string::npos) return;
          if (ps.size()) { ps += ", "; as += ", "; }
          ps += (T->isArithmeticType() ? t + " " : "const " + t + " &") + D->getNameAsString();
          as += D->getNameAsString();
        }
        unsigned o, l, eo, el;
        if (range(SourceRange(Outer->getOuterLocStart(), Outer->getOuterLocStart()), o, l) && range(E->getSourceRange(), eo, el)) {
          json::Array A;
          A.push_back(json::Array{(int64_t)o, (int64_t)0, "static double helper_" + n + "(" + ps + ") { return " + e + "; }\n"});
          A.push_back(json::Array{(int64_t)eo, (int64_t)el, "helper_" + n + "(" + as + ")"});
          out("statichelper", E->getBeginLoc(), std::move(A));
        }
      }
    }
  }
  bool VisitMemberExpr(MemberExpr *M) {
    if (!ours(M->getMemberLoc())) return true;
    if (M->isImplicitAccess() && !InCtorInit) {
      emit("this", M->getMemberLoc(), {{SourceRange(M->getMemberLoc(), M->getMemberLoc()), "this->" + M->getMemberDecl()->getNameAsString()}});
    } else if (M->isArrow() && isa<CXXThisExpr>(M->getBase()->IgnoreImpCasts()) == false && M->getOperatorLoc().isValid() && ours(M->getOperatorLoc())) {
      auto *B = M->getBase();
      const Expr *X = B->IgnoreImpCasts();
      std::string b;
      if (auto *O = dyn_cast<CXXOperatorCallExpr>(X)) b = text(O->getArg(0)); else b = text(X);
      if (b.empty()) return true;
      SourceLocation beg = M->getBeginLoc();
      emit("derefdot", M->getMemberLoc(), {{SourceRange(beg, M->getOperatorLoc()), "(*" + b + ")."}});
    }
    return true;
  }
  bool VisitCXXMemberCallExpr(CXXMemberCallExpr *E) {
    if (!ours(E->getExprLoc()) || !E->getMethodDecl()) return true;
    auto *M = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens());
    if (!M || M->isImplicitAccess() || !ours(M->getMemberLoc())) return true;
    std::string n = E->getMethodDecl()->getNameAsString();
    bool stl = E->getMethodDecl()->getQualifiedNameAsString().compare(0, 5, "std::") == 0;
    if (!stl) return true;
    if (n == "push_back") emit("emplace", E->getExprLoc(), {{SourceRange(M->getMemberLoc(), M->getMemberLoc()), "emplace_back"}});
    if (n == "empty" && !M->isArrow()) emit("sizezero", E->getExprLoc(), {{E->getSourceRange(), "(" + text(M->getBase()) + ".size() == 0)"}});
    return true;
  }
  bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *E) {
    if (E->getOperator() == OO_Subscript && ours(E->getExprLoc()) && plain(E)) {
      std::string t = E->getArg(0)->getType().getCanonicalType().getAsString();
      if (t.find("vector<") != std::string::npos) {
        emit("at", E->getExprLoc(), {{E->getSourceRange(), text(E->getArg(0)) + ".at(" + text(E->getArg(1)) + ")"}});
        emit("plus", E->getExprLoc(), {{E->getSourceRange(), "(*(" + text(E->getArg(0)) + ".begin() + (" + text(E->getArg(1)) + ")))"}});
      }
    }
    return true;
  }
  bool VisitSwitchStmt(SwitchStmt *S) {
    if (!ours(S->getSwitchLoc()) || !inBlock(S)) return true;
    auto *B = dyn_cast<CompoundStmt>(S->getBody());
    if (!B) return true;
    std::vector<std::pair<std::vector<std::string>, std::string>> gs;
    bool def = false, last = true;
    std::string cond = text(S->getCond());
    for (auto *x : B->body()) {
      std::vector<std::string> ls;
      bool isdef = false;
      while (isa<SwitchCase>(x)) {
        if (auto *c = dyn_cast<CaseStmt>(x)) ls.push_back(text(c->getLHS())); else isdef = true;
        x = cast<SwitchCase>(x)->getSubStmt();
      }
      if (ls.size() || isdef) {
        if (!last) return true;      // falls through
        if (def) return true;        // something after default
        if (isdef) { if (ls.size()) return true; def = true; }
        gs.push_back({ls, ""});
        last = false;
      }
      if (isa<BreakStmt>(x)) { last = true; continue; }
      auto f = has(x);
      if (f.jump) return true;
      if (isa<ReturnStmt>(x)) last = true;
      unsigned o, l;
      if (!stmtRange(x, o, l)) return true;
      std::string t = SM.getBufferData(SM.getFileID(x->getBeginLoc())).substr(o, l).str();
      gs.back().second += t + (t.back() == ';' || t.back() == '}' ? "\n" : ";\n");
    }
    std::string n = "which_" + std::to_string(++Counter), r = "const auto " + n + " = " + cond + ";\n";
    bool first = true;
    for (auto &g : gs) {
      std::string c;
      for (auto &l : g.first) { if (l.empty()) return true; c += (c.size() ? " || " : "") + n + " == " + l; }
      r += (first ? "" : " else ") + (c.size() ? "if (" + c + ") {\n" : std::string("{\n")) + g.second + "}";
      first = false;
    }
    emit("switchif", S->getSwitchLoc(), {{S->getSourceRange(), r}});
    return true;
  }
  bool TraverseConstructorInitializer(CXXCtorInitializer *I) {
    InCtorInit++;
    bool r = RecursiveASTVisitor<V>::TraverseConstructorInitializer(I);
    InCtorInit--;
    return r;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->isLocalVarDeclOrParm() && ours(D->getLocation()) && D->getIdentifier() && !D->isInvalidDecl()) {
      if (isa<ParmVarDecl>(D)) {
        auto *F = dyn_cast<FunctionDecl>(D->getDeclContext());
        if (!F || !F->isThisDeclarationADefinition()) return true;
      }
      Locals.push_back(D);
    }
    return true;
  }
  bool VisitDeclRefExpr(DeclRefExpr *R) {
    if (auto *D = dyn_cast<VarDecl>(R->getDecl())) {
      if (R->getLocation().isMacroID()) Bad.insert(D);
      else Uses[D].push_back(R->getLocation());
    }
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    for (auto &c : L->explicit_captures())
      if (c.capturesVariable()) if (auto *D = dyn_cast<VarDecl>(c.getCapturedVar())) Uses[D].push_back(c.getLocation());
    return true;
  }
  bool VisitOMPExecutableDirective(OMPExecutableDirective *D) {
    for (auto *c : D->clauses()) for (auto *k : c->children()) if (k) mark(k);
    return true;
  }
  void mark(Stmt *S) {
    if (auto *R = dyn_cast<DeclRefExpr>(S)) if (auto *D = dyn_cast<VarDecl>(R->getDecl())) Bad.insert(D);
    for (auto *k : S->children()) if (k) mark(k);
  }
  void finish() {
    for (auto *D : Locals) {
      if (Bad.count(D) || !Uses.count(D)) continue;
      std::string n = D->getNameAsString();
      std::set<std::pair<unsigned, unsigned>> at;
      bool ok = true;
      FileID F = SM.getFileID(D->getLocation());
      std::vector<SourceLocation> ls = Uses[D];
      ls.push_back(D->getLocation());
      for (auto L : ls) {
        if (L.isMacroID() || SM.getFileID(L) != F) { ok = false; break; }
        unsigned o = SM.getDecomposedLoc(L).second;
        if (SM.getBufferData(F).substr(o, n.size()) != n) continue;
        at.insert({o, (unsigned)n.size()});
      }
      if (!ok) continue;
      json::Array A;
      for (auto &a : at) A.push_back(json::Array{(int64_t)a.first, (int64_t)a.second, n + "_renamed"});
      out("rename", D->getLocation(), std::move(A));
    }
  }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);
    for (auto *D : C.getTranslationUnitDecl()->decls())
      v.TraverseDecl(D);
    v.finish();
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  std::string err;
  auto DB = tooling::FixedCompilationDatabase::loadFromCommandLine(argc, argv, err);
  Root = argv[1];
  tooling::ClangTool T(*DB, {argv[2]});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
