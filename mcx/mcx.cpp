// mcx: exports the resolved program (functions, classes, globals) of one translation unit as JSON.
// Usage: mcx --root DIR --out FILE -- clang args...     (source file is the last clang argument)
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <list>
#include <set>
using namespace clang;
namespace json = llvm::json;
using json::Object; using json::Array; using json::Value;

static std::string gRoot, gOut;
static std::vector<std::string> maps_hold;

struct Exporter : RecursiveASTVisitor<Exporter> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  Array funcs, classes, globals, enums;
  std::map<const Decl*, int> ids; std::set<std::string> seenF, seenC, seenG;
  std::set<const FunctionDecl*> lambdaCallOps;
  Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) { PP.SuppressTagKeyword = true; }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    StringRef rp = F->getFileEntry().tryGetRealPathName();
    return rp.empty() ? F->getName().str() : rp.str();
  }
  int lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    return f.compare(0, gRoot.size(), gRoot) == 0;
  }
  int idOf(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; int n = ids.size()+1; ids[D]=n; return n; }

  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    if (auto *R = T->getAs<LValueReferenceType>()) return std::string("r<") + (R->getPointeeType().isConstQualified()?"c ":"") + ty(R->getPointeeType()) + ">";
    if (auto *R = T->getAs<RValueReferenceType>()) return "rr<" + ty(R->getPointeeType()) + ">";
    T = T.getUnqualifiedType();
    if (T->isBooleanType()) return "b";
    if (auto *E = T->getAs<EnumType>()) return "E:" + E->getDecl()->getQualifiedNameAsString();
    if (T->isUnsignedIntegerType()) return "u";
    if (T->isIntegerType()) return "i";
    if (T->isFloatingType()) return "f";
    if (T->isVoidType()) return "v";
    if (auto *P = T->getAs<PointerType>()) {
      if (P->getPointeeType()->isFunctionType()) return "F";
      return "p<" + ty(P->getPointeeType()) + ">";
    }
    if (T->isFunctionType()) return "F";
    if (auto *RD = T->getAsCXXRecordDecl()) {
      if (RD->isLambda()) return "lambda";
      std::string q = RD->getQualifiedNameAsString();
      std::string out;
      size_t p;
      // drop inline namespaces
      for (auto ns : {"std::__cxx11::", "std::_V2::", "std::__detail::", "std::__cxx1998::"})
        if ((p = q.find(ns)) == 0) q = "std::" + q.substr(strlen(ns));
      if (q == "std::basic_string") return "s";
      if (q.find("iterator") != std::string::npos) return "it";
      if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        std::string a; bool first = true;
        for (auto &A : TS->getTemplateArgs().asArray()) {
          std::vector<std::string> parts;
          if (A.getKind() == TemplateArgument::Type) parts.push_back(ty(A.getAsType()));
          else if (A.getKind() == TemplateArgument::Pack) { for (auto &B : A.pack_elements()) if (B.getKind()==TemplateArgument::Type) parts.push_back(ty(B.getAsType())); }
          for (auto &s : parts) {
            if (s.find("std::allocator<")==0 || s.find("std::hash<")==0 || s.find("std::equal_to<")==0 || s.find("std::less<")==0 || s.find("std::default_delete<")==0 || s.find("std::char_traits<")==0) continue;
            if (!first) a += ","; first = false; a += s;
          }
        }
        return q + "<" + a + ">";
      }
      return "R:" + q;
    }
    if (auto *A = C.getAsConstantArrayType(T)) return "a<" + ty(A->getElementType()) + ">";
    return "?";
  }
  std::string fid(const FunctionDecl *F) {
    std::string s = F->getQualifiedNameAsString() + "(";
    bool first = true;
    for (auto *P : F->parameters()) { if (!first) s += ","; first=false; s += ty(P->getType()); }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += " const";
    if (auto *TA = F->getTemplateSpecializationArgs()) { s += "<"; for (auto &A : TA->asArray()) if (A.getKind()==TemplateArgument::Type) s += ty(A.getAsType()) + ";"; s += ">"; }
    if (!F->getDeclContext()->isNamespace() && isa<CXXRecordDecl>(F->getDeclContext()) && cast<CXXRecordDecl>(F->getDeclContext())->isLambda()) s += "#" + std::to_string(idOf(F));
    if (F->isInAnonymousNamespace() || (F->getLinkageInternal()==Linkage::Internal && !isa<CXXMethodDecl>(F))) s += "@" + fileOf(F->getLocation()).substr(gRoot.size() < fileOf(F->getLocation()).size()? gRoot.size():0);
    return s;
  }
  static std::string stripNs(std::string q) {
    for (auto ns : {"std::__cxx11::", "std::_V2::", "std::__detail::", "std::__cxx1998::"}) {
      size_t p; if ((p = q.find(ns)) == 0) q = "std::" + q.substr(strlen(ns));
    }
    return q;
  }

  Value varDecl(const VarDecl *V) {
    Object o; o["id"] = idOf(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
    if (V->getType().getNonReferenceType().isConstQualified()) o["const"] = true;
    if (V->isStaticLocal()) o["static"] = true;
    { QualType a = V->getType().getNonReferenceType(); if (!a->isDependentType() && a->isArithmeticType()) o["w"] = (int64_t)C.getTypeSize(a); }
    o["l"] = lineOf(V->getLocation());
    if (V->getInit() && !isa<ParmVarDecl>(V)) o["init"] = ex(V->getInit());
    return o;
  }
  Array exs(llvm::iterator_range<CallExpr::const_arg_iterator> R) { Array a; for (auto *e : R) a.push_back(ex(e)); return a; }

  Value ex(const Expr *E) {
    if (!E) return nullptr;
    // strip noise
    while (true) {
      if (auto *p = dyn_cast<ParenExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<ExprWithCleanups>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<MaterializeTemporaryExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXDefaultArgExpr>(E)) E = p->getExpr();
      else if (auto *p = dyn_cast<CXXDefaultInitExpr>(E)) E = p->getExpr();
      else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = p->getReplacement();
      else if (auto *p = dyn_cast<ConstantExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXStdInitializerListExpr>(E)) E = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXFunctionalCastExpr>(E); p && p->getCastKind()==CK_ConstructorConversion) E = p->getSubExpr();
      else if (auto *p = dyn_cast<ImplicitCastExpr>(E)) {
        auto k = p->getCastKind();
        if (k==CK_LValueToRValue||k==CK_NoOp||k==CK_FunctionToPointerDecay||k==CK_ArrayToPointerDecay||k==CK_ConstructorConversion||k==CK_BuiltinFnToFnPtr||k==CK_UserDefinedConversion) E = p->getSubExpr();
        else break;
      } else break;
    }
    Object o; o["l"] = lineOf(E->getBeginLoc()); o["t"] = ty(E->getType());
    if (auto *e = dyn_cast<IntegerLiteral>(E)) { o["k"]="lit"; llvm::SmallString<32> s; e->getValue().toString(s,10,E->getType()->isSignedIntegerType()); o["v"]=std::string(s.str()); return o; }
    if (auto *e = dyn_cast<FloatingLiteral>(E)) { o["k"]="lit"; StringRef tok = Lexer::getSourceText(CharSourceRange::getTokenRange(e->getSourceRange()), SM, C.getLangOpts()); llvm::SmallString<32> s; e->getValue().toString(s, 17, 0); o["v"]=std::string(s.str()); o["src"]=tok.str(); return o; }
    if (auto *e = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"]="lit"; o["v"]= e->getValue(); return o; }
    if (auto *e = dyn_cast<CharacterLiteral>(E)) { o["k"]="lit"; o["v"]=std::to_string(e->getValue()); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"]="null"; return o; }
    if (auto *e = dyn_cast<StringLiteral>(E)) { o["k"]="str"; o["v"]= e->isOrdinary()? json::fixUTF8(e->getString()):""; return o; }
    if (isa<PredefinedExpr>(E)) { o["k"]="str"; o["v"]="__func__"; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"]="this"; return o; }
    if (auto *e = dyn_cast<DeclRefExpr>(E)) {
      auto *D = e->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"]="enum"; o["q"]=EC->getQualifiedNameAsString(); llvm::SmallString<32> s; EC->getInitVal().toString(s,10); o["v"]=std::string(s.str()); return o; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"]="fn"; o["f"]=fid(F); o["q"]=stripNs(F->getQualifiedNameAsString()); return o; }
      o["k"]="var"; o["id"]=idOf(D); o["n"]=D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) { if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["g"]=true; o["q"]=V->getQualifiedNameAsString(); exportGlobal(V); } if (V->isStaticLocal()) o["static"]=true; if (V->getType()->isReferenceType()) o["ref"]=true; }
      return o;
    }
    if (auto *e = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(e->getMemberDecl())) {
        o["k"]="mem"; o["f"]=F->getNameAsString(); o["fq"]=stripNs(F->getParent()->getQualifiedNameAsString())+"::"+F->getNameAsString(); o["b"]=ex(e->getBase()); o["arrow"]=e->isArrow(); return o; }
      if (auto *V = dyn_cast<VarDecl>(e->getMemberDecl())) { o["k"]="var"; o["id"]=idOf(V); o["n"]=V->getNameAsString(); o["g"]=true; o["q"]=V->getQualifiedNameAsString(); exportGlobal(V); return o; }
      o["k"]="memfn"; o["b"]=ex(e->getBase()); return o;
    }
    if (auto *e = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = e->getMethodDecl();
      if (M) {
        o["k"]="mcall"; o["f"]=fid(M); o["q"]=stripNs(M->getQualifiedNameAsString());
        if (auto *ME = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) { o["o"]=ex(ME->getBase()); o["arrow"]=ME->isArrow(); o["ot"]=ty(ME->isArrow()? ME->getBase()->getType()->getPointeeType(): ME->getBase()->getType());
          bool virt = M->isVirtual() && !ME->hasQualifier(); o["virt"]=virt; }
        else { o["o"]=ex(e->getImplicitObjectArgument()); o["arrow"]=false; }
        o["mc"]=M->isConst(); o["a"]=exs(e->arguments()); 
        if (isa<CXXConversionDecl>(M)) o["conv"]=true;
        return o;
      }
    }
    if (auto *e = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = e->getDirectCallee();
      if (F) {
        if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
          o["k"]="mcall"; o["f"]=fid(M); o["q"]=stripNs(M->getQualifiedNameAsString()); o["o"]=ex(e->getArg(0)); o["ot"]=ty(e->getArg(0)->getType()); o["arrow"]=false; o["op"]=getOperatorSpelling(e->getOperator());
          if (M->getParent()->isLambda()) { o["lambda"]=true; }
          Array a; for (unsigned i=1;i<e->getNumArgs();++i) a.push_back(ex(e->getArg(i))); o["a"]=std::move(a); o["mc"]=M->isConst(); o["virt"]=M->isVirtual(); return o;
        }
        o["k"]="call"; o["f"]=fid(F); o["q"]=stripNs(F->getQualifiedNameAsString()); o["op"]=getOperatorSpelling(e->getOperator()); o["a"]=exs(e->arguments()); return o;
      }
    }
    if (auto *e = dyn_cast<CallExpr>(E)) {
      if (auto *F = e->getDirectCallee()) { o["k"]="call"; o["f"]=fid(F); o["q"]=stripNs(F->getQualifiedNameAsString()); o["a"]=exs(e->arguments()); if (F->isNoReturn()) o["noreturn"]=true; 
        if (auto *TA = F->getTemplateSpecializationArgs()) { Array ta; for (auto &A : TA->asArray()) if (A.getKind()==TemplateArgument::Type) ta.push_back(ty(A.getAsType())); o["ta"]=std::move(ta);} return o; }
      o["k"]="icall"; o["fe"]=ex(e->getCallee()); o["a"]=exs(e->arguments()); return o;
    }
    if (auto *e = dyn_cast<CXXConstructExpr>(E)) {
      auto *K = e->getConstructor();
      if (e->isElidable() && e->getNumArgs()>=1) return ex(e->getArg(0));
      o["k"]="ctor"; o["f"]=fid(K); o["q"]=stripNs(K->getQualifiedNameAsString());
      o["copy"]=K->isCopyConstructor(); o["move"]=K->isMoveConstructor(); o["def"]=K->isDefaultConstructor();
      o["userprov"]=K->isUserProvided();
      if (K->getParent()->isLambda() && e->getNumArgs()==1) return ex(e->getArg(0));
      Array a; for (auto *x : e->arguments()) a.push_back(ex(x)); o["a"]=std::move(a); return o;
    }
    if (auto *e = dyn_cast<CXXScalarValueInitExpr>(E)) { (void)e; o["k"]="zero"; return o; }
    if (auto *e = dyn_cast<ImplicitValueInitExpr>(E)) { (void)e; o["k"]="zero"; return o; }
    if (auto *e = dyn_cast<UnaryOperator>(E)) {
      if (e->isIncrementDecrementOp()) { o["k"]="inc"; o["op"]= e->isIncrementOp()?"+":"-"; o["pre"]=e->isPrefix(); o["e"]=ex(e->getSubExpr()); return o; }
      o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(e->getOpcode()).str(); o["e"]=ex(e->getSubExpr()); return o;
    }
    if (auto *e = dyn_cast<BinaryOperator>(E)) {
      if (e->isAssignmentOp()) { o["k"]="asg"; std::string op = e->getOpcodeStr().str(); op.pop_back(); o["op"]=op; 
        if (auto *ca = dyn_cast<CompoundAssignOperator>(e)) o["ct"]=ty(ca->getComputationResultType()); }
      else { o["k"]="bin"; o["op"]=e->getOpcodeStr().str(); }
      o["a"]=ex(e->getLHS()); o["b"]=ex(e->getRHS()); return o;
    }
    if (auto *e = dyn_cast<ConditionalOperator>(E)) { o["k"]="cond"; o["c"]=ex(e->getCond()); o["a"]=ex(e->getTrueExpr()); o["b"]=ex(e->getFalseExpr()); 
      if (E->getBeginLoc().isMacroID()) { StringRef mn = Lexer::getImmediateMacroName(E->getBeginLoc(), SM, C.getLangOpts()); o["macro"]=mn.str(); } return o; }
    if (auto *e = dyn_cast<CXXThrowExpr>(E)) { o["k"]="throw"; if (e->getSubExpr()) { o["e"]=ex(e->getSubExpr()); o["et"]=ty(e->getSubExpr()->getType()); } return o; }
    if (auto *e = dyn_cast<LambdaExpr>(E)) {
      o["k"]="lambda"; Array ps; for (auto *P : e->getCallOperator()->parameters()) ps.push_back(varDecl(P)); o["params"]=std::move(ps);
      o["f"]=fid(e->getCallOperator());
      Array caps; for (auto &cp : e->captures()) { if (cp.capturesVariable()) { Object c; c["id"]=idOf(cp.getCapturedVar()); c["n"]=cp.getCapturedVar()->getNameAsString(); c["ref"]=cp.getCaptureKind()==LCK_ByRef; caps.push_back(std::move(c)); } else if (cp.capturesThis()) { Object c; c["this"]=true; caps.push_back(std::move(c)); } }
      o["caps"]=std::move(caps); o["rt"]=ty(e->getCallOperator()->getReturnType()); o["body"]=st(e->getBody()); o["fi"]=fileOf(e->getBeginLoc()); return o;
    }
    if (auto *e = dyn_cast<InitListExpr>(E)) { o["k"]="init"; Array a; for (auto *x : e->inits()) a.push_back(ex(x)); o["a"]=std::move(a); return o; }
    if (auto *e = dyn_cast<ArraySubscriptExpr>(E)) { o["k"]="sub"; o["b"]=ex(e->getBase()); o["i"]=ex(e->getIdx()); return o; }
    if (auto *e = dyn_cast<CXXNewExpr>(E)) { o["k"]="new"; o["at"]=ty(e->getAllocatedType()); o["e"]= e->getInitializer()? ex(e->getInitializer()): Value(nullptr); return o; }
    if (auto *e = dyn_cast<CXXDeleteExpr>(E)) { o["k"]="delete"; o["e"]=ex(e->getArgument()); return o; }
    if (auto *e = dyn_cast<CastExpr>(E)) {
      auto k = e->getCastKind();
      if (k==CK_NoOp||k==CK_LValueToRValue||k==CK_ConstructorConversion||k==CK_UserDefinedConversion) return ex(e->getSubExpr());
      o["k"]="cast"; o["ck"]=e->getCastKindName(); o["e"]=ex(e->getSubExpr()); o["ft"]=ty(e->getSubExpr()->getType()); o["ex"]=!isa<ImplicitCastExpr>(e);
      if (k==CK_IntegralCast||k==CK_FloatingCast) { QualType a=e->getSubExpr()->getType(), b=e->getType(); if (!a->isDependentType()&&!b->isDependentType()) { o["fw"]=(int64_t)C.getTypeSize(a); o["w"]=(int64_t)C.getTypeSize(b); } }
      return o;
    }
    if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { (void)e; o["k"]="sizeof"; return o; }
    o["k"]="other"; o["c"]=E->getStmtClassName(); Array a; for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(ex(ce)); o["ch"]=std::move(a); return o;
  }
  Value st(const Stmt *S) {
    if (!S) return nullptr;
    Object o; o["l"]=lineOf(S->getBeginLoc());
    if (auto *s = dyn_cast<CompoundStmt>(S)) { o["k"]="block"; Array a; for (auto *c : s->body()) a.push_back(st(c)); o["s"]=std::move(a); return o; }
    if (auto *s = dyn_cast<DeclStmt>(S)) { o["k"]="decl"; Array a; for (auto *d : s->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v)); o["v"]=std::move(a); return o; }
    if (auto *s = dyn_cast<IfStmt>(S)) { o["k"]="if"; if (s->getInit()) o["i"]=st(s->getInit()); if (s->getConditionVariableDeclStmt()) o["cv"]=st(s->getConditionVariableDeclStmt()); o["c"]=ex(s->getCond()); o["a"]=st(s->getThen()); o["b"]=st(s->getElse()); return o; }
    if (auto *s = dyn_cast<ForStmt>(S)) { o["k"]="for"; o["i"]=st(s->getInit()); o["c"]=ex(s->getCond()); o["n"]=ex(s->getInc()); o["b"]=st(s->getBody()); return o; }
    if (auto *s = dyn_cast<CXXForRangeStmt>(S)) { o["k"]="rfor"; o["v"]=varDecl(s->getLoopVariable()); o["r"]=ex(s->getRangeInit()); o["rt"]=ty(s->getRangeInit()->getType()); o["b"]=st(s->getBody()); return o; }
    if (auto *s = dyn_cast<WhileStmt>(S)) { o["k"]="while"; if (s->getConditionVariableDeclStmt()) o["cv"]=st(s->getConditionVariableDeclStmt()); o["c"]=ex(s->getCond()); o["b"]=st(s->getBody()); return o; }
    if (auto *s = dyn_cast<DoStmt>(S)) { o["k"]="do"; o["c"]=ex(s->getCond()); o["b"]=st(s->getBody()); return o; }
    if (auto *s = dyn_cast<SwitchStmt>(S)) { o["k"]="switch"; o["c"]=ex(s->getCond()); o["b"]=st(s->getBody()); return o; }
    if (auto *s = dyn_cast<CaseStmt>(S)) { o["k"]="case"; o["v"]=ex(s->getLHS()); o["s"]=st(s->getSubStmt()); return o; }
    if (auto *s = dyn_cast<DefaultStmt>(S)) { o["k"]="default"; o["s"]=st(s->getSubStmt()); return o; }
    if (auto *s = dyn_cast<ReturnStmt>(S)) { o["k"]="ret"; o["e"]=ex(s->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { o["k"]="break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"]="continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"]="null"; return o; }
    if (auto *s = dyn_cast<CXXTryStmt>(S)) { o["k"]="try"; o["b"]=st(s->getTryBlock()); Array h; for (unsigned i=0;i<s->getNumHandlers();++i) { auto *c = s->getHandler(i); Object ho; ho["t"]= c->getExceptionDecl()? ty(c->getCaughtType()) : "..."; if (c->getExceptionDecl()) ho["v"]=varDecl(c->getExceptionDecl()); ho["b"]=st(c->getHandlerBlock()); h.push_back(std::move(ho)); } o["h"]=std::move(h); return o; }
    if (auto *e = dyn_cast<Expr>(S)) { o["k"]="expr"; o["e"]=ex(e); return o; }
    o["k"]="other"; o["c"]=S->getStmtClassName(); return o;
  }
  void exportGlobal(const VarDecl *V) {
    std::string q = V->getQualifiedNameAsString();
    if (!seenG.insert(q).second) return;
    const VarDecl *Def = V->getInitializingDeclaration(); 
    Object o; o["q"]=q; o["t"]=ty(V->getType()); o["const"]=V->getType().isConstQualified(); o["file"]=fileOf(V->getLocation()); o["l"]=lineOf(V->getLocation());
    o["inroot"]=inRoot(V);
    if (Def && Def->getInit() && inRoot(V)) o["init"]=ex(Def->getInit());
    globals.push_back(std::move(o));
  }
  bool VisitVarDecl(VarDecl *V) { if (V->hasGlobalStorage() && !V->isStaticLocal() && inRoot(V)) exportGlobal(V); return true; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!inRoot(F)) return true;
    if (F->isDependentContext() || F->isTemplated()) return true;
    bool def = F->doesThisDeclarationHaveABody();
    bool dflt = F->isDefaulted() && F->isThisDeclarationADefinition();
    if (!def && !dflt) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string id = fid(F);
    if (!seenF.insert(id).second) return true;
    Object o; o["id"]=id; o["q"]=stripNs(F->getQualifiedNameAsString()); o["n"]=F->getNameAsString(); o["file"]=fileOf(F->getLocation()); o["l"]=lineOf(F->getLocation());
    o["ret"]=ty(F->getReturnType()); Array ps; for (auto *P : F->parameters()) { Value pv = varDecl(P); ps.push_back(std::move(pv)); } o["params"]=std::move(ps);
    o["kind"]="func"; if (dflt) o["defaulted"]=true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["kind"]= isa<CXXConstructorDecl>(M)?"ctor": isa<CXXDestructorDecl>(M)?"dtor":"method";
      o["cls"]=M->getParent()->getQualifiedNameAsString(); o["const"]=M->isConst(); o["virt"]=M->isVirtual(); o["static"]=M->isStatic(); o["acc"]= M->getAccess()==AS_public?"public": M->getAccess()==AS_protected?"protected":"private";
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        Array in; for (auto *i : K->inits()) { Object io; if (i->isAnyMemberInitializer()) { io["f"]=i->getAnyMember()->getNameAsString(); io["written"]=i->isWritten(); } else if (i->isBaseInitializer()) io["base"]=ty(QualType(i->getBaseClass(),0)); else io["deleg"]=true; io["e"]=ex(i->getInit()); in.push_back(std::move(io)); } o["inits"]=std::move(in);
        o["copyctor"]=K->isCopyConstructor()||K->isMoveConstructor();
      }
    }
    o["anon"]=F->isInAnonymousNamespace();
    if (def) o["body"]=st(F->getBody());
    funcs.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!inRoot(R) || !R->isThisDeclarationADefinition() || R->isLambda() || R->isDependentContext()) return true;
    std::string q = R->getQualifiedNameAsString();
    if (!seenC.insert(q + ":" + fileOf(R->getLocation()) + std::to_string(lineOf(R->getLocation()))).second) return true;
    Object o; o["q"]=q; o["file"]=fileOf(R->getLocation()); o["l"]=lineOf(R->getLocation());
    Array bs; for (auto &b : R->bases()) bs.push_back(ty(b.getType())); o["bases"]=std::move(bs);
    Array fs; for (auto *f : R->fields()) { Object fo; fo["n"]=f->getNameAsString(); fo["t"]=ty(f->getType()); fo["acc"]= f->getAccess()==AS_public?"public": f->getAccess()==AS_protected?"protected":"private"; fo["mut"]=f->isMutable(); fo["const"]=f->getType().isConstQualified(); fo["l"]=lineOf(f->getLocation()); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"]=ex(f->getInClassInitializer()); fs.push_back(std::move(fo)); } o["fields"]=std::move(fs);
    Array ms; for (auto *m : R->methods()) { if (m->isImplicit()) continue; Object mo; mo["n"]=m->getNameAsString(); mo["id"]=fid(m); mo["acc"]= m->getAccess()==AS_public?"public": m->getAccess()==AS_protected?"protected":"private"; mo["const"]=m->isConst(); mo["virt"]=m->isVirtual(); mo["pure"]=m->isPureVirtual(); mo["deleted"]=m->isDeleted(); mo["ret"]=ty(m->getReturnType()); mo["l"]=lineOf(m->getLocation());
      mo["kind"]= isa<CXXConstructorDecl>(m)?"ctor": isa<CXXDestructorDecl>(m)?"dtor":"method"; Array ps; for (auto *P : m->parameters()) ps.push_back(ty(P->getType())); mo["params"]=std::move(ps);
      Array ov; for (auto *x : m->overridden_methods()) ov.push_back(fid(x)); mo["over"]=std::move(ov); ms.push_back(std::move(mo)); } o["methods"]=std::move(ms);
    o["implicitDefaultCtor"]= R->hasDefaultConstructor() && !R->hasUserProvidedDefaultConstructor();
    classes.push_back(std::move(o));
    return true;
  }
};

struct Cons : ASTConsumer {
  CompilerInstance &CI; Cons(CompilerInstance &c):CI(c){}
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C); X.TraverseDecl(C.getTranslationUnitDecl());
    Object o; o["funcs"]=std::move(X.funcs); o["classes"]=std::move(X.classes); o["globals"]=std::move(X.globals);
    o["errors"]= (int)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec; llvm::raw_fd_ostream os(gOut, ec); os << Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(CI); } };
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };

int main(int argc, const char **argv) {
  std::vector<std::string> args, maps; std::string src; int i=1;
  for (; i<argc; ++i) { std::string a=argv[i]; if (a=="--root") gRoot=argv[++i]; else if (a=="--out") gOut=argv[++i]; else if (a=="--src") src=argv[++i]; else if (a=="--map") { maps.push_back(argv[++i]); } else if (a=="--") { ++i; break; } }
  for (; i<argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", args);
  tooling::ClangTool T(DB, {src});
  std::vector<std::unique_ptr<llvm::MemoryBuffer>> bufs;
  for (auto &m : maps) { size_t e=m.find('='); auto b = llvm::MemoryBuffer::getFile(m.substr(e+1)); if (!b) { llvm::errs() << "cannot map " << m << "\n"; return 3; } bufs.push_back(std::move(*b)); maps_hold.push_back(m.substr(0,e)); }
  maps_hold.shrink_to_fit();
  for (size_t k=0;k<bufs.size();++k) T.mapVirtualFile(maps_hold[k], bufs[k]->getBuffer());
  Fac F; return T.run(&F);
}
