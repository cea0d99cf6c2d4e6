// Fact extractor: parses translation units of the repository with clang and writes, one JSON object per line, every
// function definition (template instantiations included), record, enumeration and namespace-scope variable that lies
// under the given root directories, as a resolved syntax tree. No code of the repository is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
using namespace clang;
namespace json = llvm::json;
static std::vector<std::string> Roots;
static std::set<std::string> Seen;
static std::unique_ptr<llvm::raw_fd_ostream> Out;
static int Errors = 0;

struct Dumper {
  ASTContext &C; SourceManager &SM; ASTNameGenerator Names; PrintingPolicy PP;
  std::map<const Decl *, int> Ids; int Next = getenv("VP_IDBASE") ? atoi(getenv("VP_IDBASE")) + 1 : 1;  // declaration ids are distinct across translation units
  std::vector<const FunctionDecl *> Pending; // instantiated generic-lambda operators found on the way
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), Names(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = false; PP.UsePreferredNames = false;
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto &x = Ids[D]; if (!x) x = Next++; return x; }
  std::string file(SourceLocation L) { L = SM.getExpansionLoc(L); return SM.getFilename(L).str(); }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto f = file(L);
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string ty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }
  std::string fname(const FunctionDecl *F) {
    std::string s;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return "lambda@" + file(M->getParent()->getBeginLoc()) + ":" + std::to_string(line(M->getParent()->getBeginLoc())) + ":" +
               std::to_string(SM.getExpansionColumnNumber(M->getParent()->getBeginLoc())) + "#" + F->getType().getCanonicalType().getAsString(PP)+"@"+parentName(M->getParent());
    if (F->isDependentContext()) return "dep@" + F->getQualifiedNameAsString() + "@" + file(F->getLocation()) + ":" + std::to_string(line(F->getLocation()))+"#"+F->getType().getAsString(PP);
    s = Names.getName(F);
    if (s.empty()) s = F->getQualifiedNameAsString() + "#" + F->getType().getCanonicalType().getAsString(PP);
    return s;
  }
  std::string parentName(const DeclContext *DC) {
    for (DC = DC->getParent(); DC; DC = DC->getParent())
      if (auto *F = dyn_cast<FunctionDecl>(DC)) return fname(F);
    return "";
  }
  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream o(s); D->getNameForDiagnostic(o, PP, true); return o.str(); }

  json::Value S(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) return E(e);
    json::Object o; o["l"] = line(s->getBeginLoc());
    auto kids = [&](const Stmt *st) { json::Array a; for (auto *c : st->children()) a.push_back(S(c)); return a; };
    switch (s->getStmtClass()) {
    case Stmt::CompoundStmtClass: o["k"] = "block"; o["c"] = kids(s); break;
    case Stmt::NullStmtClass: o["k"] = "null"; break;
    case Stmt::DeclStmtClass: {
      o["k"] = "decl"; json::Array a;
      for (auto *D : cast<DeclStmt>(s)->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V));
      o["c"] = std::move(a); break; }
    case Stmt::IfStmtClass: { auto *x = cast<IfStmt>(s); o["k"] = "if"; if (x->getInit()) o["init"] = S(x->getInit());
      if (auto *cv = x->getConditionVariable()) o["cvar"] = var(cv);
      if (x->isConstexpr()) o["cx"] = true;
      o["cond"] = E(x->getCond());
      if (x->isConstexpr() && !x->getCond()->isValueDependent()) {
        auto nd = x->getNondiscardedCase(C); 
        if (nd) { o["k"]="block"; json::Array a; if (x->getInit()) a.push_back(S(x->getInit())); if (*nd) a.push_back(S(*nd)); o["c"]=std::move(a); o.erase("cond"); o.erase("init"); break; } }
      o["then"] = S(x->getThen()); if (x->getElse()) o["else"] = S(x->getElse()); break; }
    case Stmt::ForStmtClass: { auto *x = cast<ForStmt>(s); o["k"] = "for"; if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getCond()) o["cond"] = E(x->getCond()); if (x->getInc()) o["inc"] = E(x->getInc()); o["body"] = S(x->getBody()); break; }
    case Stmt::CXXForRangeStmtClass: { auto *x = cast<CXXForRangeStmt>(s); o["k"] = "forrange"; o["range"] = E(x->getRangeInit());
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getLoopVariable()) o["var"] = var(x->getLoopVariable()); o["body"] = S(x->getBody());
      if (auto *b = x->getBeginStmt()) o["beg"] = S(b);
      if (x->getBeginStmt() && x->getEndStmt() && x->getRangeStmt() && x->getCond() && x->getInc() && x->getLoopVarStmt()) {
        auto *bd = dyn_cast<VarDecl>(x->getBeginStmt()->getSingleDecl()); bool own = false;
        if (bd) if (auto *rt = bd->getType().getNonReferenceType()->getAsCXXRecordDecl()) { auto *cs = dyn_cast<ClassTemplateSpecializationDecl>(rt); own = inRoots(cs ? cs->getSpecializedTemplate()->getLocation() : rt->getLocation()); }
        if (own) { json::Object d; d["range"] = S(x->getRangeStmt()); d["begin"] = S(x->getBeginStmt()); d["end"] = S(x->getEndStmt()); d["cond"] = E(x->getCond()); d["inc"] = E(x->getInc()); d["var"] = S(x->getLoopVarStmt()); o["ds"] = std::move(d); } }
      break; }
    case Stmt::WhileStmtClass: { auto *x = cast<WhileStmt>(s); o["k"] = "while"; o["cond"] = E(x->getCond()); if (auto *cv = x->getConditionVariable()) o["cvar"] = var(cv); o["body"] = S(x->getBody()); break; }
    case Stmt::DoStmtClass: { auto *x = cast<DoStmt>(s); o["k"] = "do"; o["cond"] = E(x->getCond()); o["body"] = S(x->getBody()); break; }
    case Stmt::SwitchStmtClass: { auto *x = cast<SwitchStmt>(s); o["k"] = "switch"; o["cond"] = E(x->getCond()); o["ct"] = ty(x->getCond()->IgnoreParenImpCasts()->getType()); o["body"] = S(x->getBody()); break; }
    case Stmt::CaseStmtClass: { auto *x = cast<CaseStmt>(s); o["k"] = "case"; o["val"] = E(x->getLHS()); o["body"] = S(x->getSubStmt()); break; }
    case Stmt::DefaultStmtClass: o["k"] = "default"; o["body"] = S(cast<DefaultStmt>(s)->getSubStmt()); break;
    case Stmt::BreakStmtClass: o["k"] = "break"; break;
    case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
    case Stmt::ReturnStmtClass: o["k"] = "return"; if (auto *v = cast<ReturnStmt>(s)->getRetValue()) o["e"] = E(v); break;
    case Stmt::GotoStmtClass: o["k"] = "goto"; break;
    case Stmt::LabelStmtClass: o["k"] = "label"; o["body"] = S(cast<LabelStmt>(s)->getSubStmt()); break;
    case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(s)->getSubStmt());
    case Stmt::CXXTryStmtClass: { auto *x = cast<CXXTryStmt>(s); o["k"] = "try"; o["body"] = S(x->getTryBlock()); json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) { auto *h = x->getHandler(i); json::Object ho; ho["l"] = line(h->getBeginLoc());
        if (auto *v = h->getExceptionDecl()) { ho["t"] = ty(v->getType()); ho["var"] = var(v); } else ho["t"] = "..."; ho["body"] = S(h->getHandlerBlock()); hs.push_back(std::move(ho)); }
      o["handlers"] = std::move(hs); break; }
    case Stmt::CapturedStmtClass: return S(cast<CapturedStmt>(s)->getCapturedStmt());
    default:
      if (auto *d = dyn_cast<OMPExecutableDirective>(s)) {
        o["k"] = "omp"; o["dir"] = llvm::omp::getOpenMPDirectiveName(d->getDirectiveKind()).str();
        if (auto *c = dyn_cast<OMPCriticalDirective>(d)) o["name"] = c->getDirectiveName().getAsString();
        json::Array cl;
        for (auto *c : d->clauses()) { if (!c || c->isImplicit()) continue; json::Object co; co["n"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str(); json::Array vs;
          for (auto *ch : c->children()) if (ch) if (auto *e = dyn_cast<Expr>(ch)) vs.push_back(E(e));

          co["vars"] = std::move(vs); cl.push_back(std::move(co)); }
        o["clauses"] = std::move(cl);
        if (d->hasAssociatedStmt()) o["body"] = S(d->getRawStmt());
      } else { o["k"] = std::string("other:") + s->getStmtClassName(); o["c"] = kids(s); }
    }
    return json::Value(std::move(o));
  }
  json::Value var(const VarDecl *V) {
    json::Object o; o["k"] = "var"; o["d"] = id(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (auto *I = V->getInit()) { o["init"] = E(I); if (V->getInitStyle()==VarDecl::ListInit) o["list"]=true; }
    if (auto *D = dyn_cast<DecompositionDecl>(V)) { json::Array b; for (auto *x : D->bindings()) { json::Object bo; bo["d"] = id(x); bo["n"] = x->getNameAsString(); bo["t"] = ty(x->getType()); if (x->getBinding()) bo["e"] = E(x->getBinding()); b.push_back(std::move(bo)); } o["bind"] = std::move(b); }
    return json::Value(std::move(o));
  }
  void fref(json::Object &o, const FunctionDecl *F) {
    o["f"] = fname(F); o["q"] = qn(F); o["fn"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isConst()) o["const"] = true; if (M->isStatic()) o["static"] = true; o["cls"] = qn(M->getParent()); if (M->isVirtual()) o["virt"]=true; if (M->getParent()->isLambda()) { o["lam"] = true;
        if (F->getTemplateInstantiationPattern() && F->hasBody()) Pending.push_back(F); } }
    json::Array ps; for (auto *p : F->parameters()) ps.push_back(ty(p->getType())); o["pt"] = std::move(ps);
    if (F->isNoReturn()) o["noret"] = true;
    const FunctionDecl *Def = nullptr; if (F->hasBody(Def) && Def && inRoots(Def->getLocation())) o["in"] = true;
    auto loc = F->getLocation(); if (!o.get("in") && inRoots(loc)) o["in"]=true;
  }
  json::Value E(const Expr *e) {
    if (!e) return nullptr;
    // transparent wrappers
    if (auto *x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { auto v = E(x->getExpr()); if (auto *o = v.getAsObject()) (*o)["dflt"] = true; return v; }
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return E(x->getSourceExpr());
    if (auto *x = dyn_cast<ImplicitCastExpr>(e)) switch (x->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr: case CK_BitCast:
        return E(x->getSubExpr());
      default: break; }
    json::Object o; o["l"] = line(e->getBeginLoc()); o["t"] = ty(e->getType());
    auto args = [&](auto begin, auto end) { json::Array a; for (auto it = begin; it != end; ++it) a.push_back(E(*it)); return a; };
    if (e->getType().isNull()) {} else if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<CallExpr>(e)) {
      Expr::EvalResult R; if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = s.str().str(); } }
    else if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isRealFloatingType() && !isa<CallExpr>(e)) {
      llvm::APFloat F(0.0); Expr::EvalResult R; if (e->EvaluateAsRValue(R, C) && R.Val.isFloat() && !R.HasSideEffects) { llvm::SmallString<40> s; R.Val.getFloat().toString(s); o["fv"] = s.str().str(); } }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast"; o["ck"] = x->getCastKindName(); if (!isa<ImplicitCastExpr>(e)) o["ex"] = e->getStmtClassName();
      o["e"] = E(x->getSubExpr());
      return json::Value(std::move(o));
    }
    switch (e->getStmtClass()) {
    case Stmt::IntegerLiteralClass: o["k"] = "int"; break;
    case Stmt::FloatingLiteralClass: o["k"] = "float"; break;
    case Stmt::CXXBoolLiteralExprClass: o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue() ? "1" : "0"; break;
    case Stmt::CharacterLiteralClass: o["k"] = "char"; break;
    case Stmt::CXXNullPtrLiteralExprClass: o["k"] = "nullptr"; break;
    case Stmt::GNUNullExprClass: o["k"] = "nullptr"; break;
    case Stmt::StringLiteralClass: { o["k"] = "str"; auto *sl = cast<StringLiteral>(e); if (sl->getCharByteWidth() == 1) { std::string b = sl->getBytes().str(); o["s"] = json::isUTF8(b) ? b : json::fixUTF8(b); } break; }
    case Stmt::CXXThisExprClass: o["k"] = "this"; break;
    case Stmt::DeclRefExprClass: { auto *D = cast<DeclRefExpr>(e)->getDecl(); o["k"] = "ref"; o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; fref(o, F); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["d"] = id(V); if (isa<ParmVarDecl>(V)) { o["dk"] = "param"; o["pi"] = (int)cast<ParmVarDecl>(V)->getFunctionScopeIndex(); } else if (V->isLocalVarDecl() && !V->isStaticLocal()) o["dk"] = "local"; else { o["dk"] = V->isStaticLocal() ? "static" : "global"; o["q"] = qn(V); if (V->getType().isConstQualified()) o["const"] = true; if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true; } }
      else if (auto *B = dyn_cast<BindingDecl>(D)) { o["d"] = id(B); o["dk"] = "binding"; o["of"] = id(B->getDecomposedDecl()); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["q"] = qn(EC); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = s.str().str(); }
      else { o["dk"] = D->getDeclKindName(); o["d"] = id(D); }
      break; }
    case Stmt::MemberExprClass: { auto *x = cast<MemberExpr>(e); o["k"] = "mem"; o["n"] = x->getMemberDecl()->getNameAsString(); o["arrow"] = x->isArrow(); o["e"] = E(x->getBase());
      if (auto *F = dyn_cast<FunctionDecl>(x->getMemberDecl())) fref(o, F); else if (auto *FD = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["cls"] = qn(FD->getParent()); if (FD->isMutable()) o["mut"] = true; } else if (auto *VD = dyn_cast<VarDecl>(x->getMemberDecl())) { o["dk"]="global"; o["q"]=qn(VD); if (VD->getType().isConstQualified()) o["const"]=true; } break; }
    case Stmt::ArraySubscriptExprClass: { auto *x = cast<ArraySubscriptExpr>(e); o["k"] = "idx"; o["e"] = E(x->getBase()); o["i"] = E(x->getIdx()); break; }
    case Stmt::UnaryOperatorClass: { auto *x = cast<UnaryOperator>(e); o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = true; o["e"] = E(x->getSubExpr()); break; }
    case Stmt::BinaryOperatorClass: { auto *x = cast<BinaryOperator>(e); o["k"] = "bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); break; }
    case Stmt::CompoundAssignOperatorClass: { auto *x = cast<CompoundAssignOperator>(e); o["k"] = "bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); break; }
    case Stmt::ConditionalOperatorClass: { auto *x = cast<ConditionalOperator>(e); o["k"] = "cond"; o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr()); break; }
    case Stmt::CXXOperatorCallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass: {
      auto *x = cast<CallExpr>(e); o["k"] = "call"; 
      if (auto *oc = dyn_cast<CXXOperatorCallExpr>(e)) o["opr"] = getOperatorSpelling(oc->getOperator());
      if (auto *F = x->getDirectCallee()) fref(o, F); else o["fe"] = E(x->getCallee());
      if (auto *mc = dyn_cast<CXXMemberCallExpr>(e)) { if (mc->getImplicitObjectArgument()) { o["obj"] = E(mc->getImplicitObjectArgument()); if (mc->getImplicitObjectArgument()->getType()->isPointerType()) o["arrow"]=true; } }
      o["args"] = args(x->arg_begin(), x->arg_end()); 
      break; }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: { auto *x = cast<CXXConstructExpr>(e); 
      if (x->isElidable() && x->getNumArgs() == 1) return E(x->getArg(0));
      o["k"] = "ctor"; fref(o, x->getConstructor()); o["args"] = args(x->arg_begin(), x->arg_end()); if (x->getConstructor()->isCopyConstructor()) o["copy"] = true; if (x->getConstructor()->isMoveConstructor()) o["move"] = true; if (x->isListInitialization()) o["list"]=true; if (x->isStdInitListInitialization()) o["ilist"]=true; break; }
    case Stmt::CXXInheritedCtorInitExprClass: o["k"]="ctor"; fref(o, cast<CXXInheritedCtorInitExpr>(e)->getConstructor()); o["args"]=json::Array(); break;
    case Stmt::CXXNewExprClass: { auto *x = cast<CXXNewExpr>(e); o["k"] = "new"; o["arr"] = x->isArray(); o["et"] = ty(x->getAllocatedType()); if (x->isArray() && x->getArraySize()) o["size"] = E(*x->getArraySize()); if (x->getInitializer()) o["init"] = E(x->getInitializer()); break; }
    case Stmt::CXXDeleteExprClass: { auto *x = cast<CXXDeleteExpr>(e); o["k"] = "delete"; o["arr"] = x->isArrayForm(); o["e"] = E(x->getArgument()); break; }
    case Stmt::CXXThrowExprClass: { o["k"] = "throw"; if (cast<CXXThrowExpr>(e)->getSubExpr()) { o["e"] = E(cast<CXXThrowExpr>(e)->getSubExpr()); o["et"] = ty(cast<CXXThrowExpr>(e)->getSubExpr()->getType()); } break; }
    case Stmt::InitListExprClass: { auto *x = cast<InitListExpr>(e); if (auto *sf = x->getSemanticForm()) x = sf; o["k"] = "init"; json::Array a; for (auto *i : x->inits()) a.push_back(E(i)); if (x->hasArrayFiller()) o["fill"]=true; o["c"] = std::move(a); break; }
    case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: o["k"] = "zero"; break;
    case Stmt::LambdaExprClass: { auto *x = cast<LambdaExpr>(e); o["k"] = "lambda"; 
      json::Array cs; unsigned ci = 0; for (auto &c : x->captures()) { json::Object co; if (c.capturesThis()) { co["this"] = true; if (c.getCaptureKind()==LCK_StarThis) co["copythis"]=true; } else if (c.capturesVariable()) { co["d"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); co["byref"] = c.getCaptureKind() == LCK_ByRef; if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture()) { co["initcap"] = true; if (vd->getInit()) co["init"] = E(vd->getInit()); } } if (c.isImplicit()) co["impl"] = true; ++ci; cs.push_back(std::move(co)); }
      o["caps"] = std::move(cs);
      auto *M = x->getCallOperator(); o["f"] = fname(M); json::Array ps; for (auto *p : M->parameters()) ps.push_back(var(p)); o["params"] = std::move(ps); 
      if (x->isGenericLambda()) { o["generic"] = true; json::Array sp; if (auto *T = x->getLambdaClass()->getDependentLambdaCallOperator()) if (auto *FT = dyn_cast<FunctionTemplateDecl>(T)) for (auto *s : FT->specializations()) if (s->hasBody()) { sp.push_back(fname(s)); Pending.push_back(s); } o["specs"] = std::move(sp); }
      o["body"] = S(x->getBody()); o["rt"] = ty(M->getReturnType()); break; }
    case Stmt::UnaryExprOrTypeTraitExprClass: { auto *x = cast<UnaryExprOrTypeTraitExpr>(e); o["k"] = "sizeof"; o["of"] = ty(x->getTypeOfArgument()); break; }
    case Stmt::TypeTraitExprClass: o["k"] = "trait"; break;
    case Stmt::CXXNoexceptExprClass: o["k"] = "trait"; break;
    case Stmt::PredefinedExprClass: o["k"] = "str"; o["s"] = "<fn>"; break;
    case Stmt::ArrayInitLoopExprClass: o["k"] = "arrcopy"; o["e"] = E(cast<ArrayInitLoopExpr>(e)->getCommonExpr()); break;
    case Stmt::PseudoObjectExprClass: default: { o["k"] = std::string("x:") + e->getStmtClassName(); json::Array a; for (auto *c : e->children()) if (c) a.push_back(S(c)); o["c"] = std::move(a); 
      if (auto *u = dyn_cast<CXXDependentScopeMemberExpr>(e)) { o["n"] = u->getMember().getAsString(); }
      if (auto *u = dyn_cast<UnresolvedMemberExpr>(e)) { o["n"] = u->getMemberName().getAsString(); }
      if (auto *u = dyn_cast<UnresolvedLookupExpr>(e)) { o["n"] = u->getName().getAsString(); }
      if (auto *u = dyn_cast<DependentScopeDeclRefExpr>(e)) { o["n"] = u->getDeclName().getAsString(); }
      break; }
    }
    return json::Value(std::move(o));
  }
  void emit(json::Object o, const std::string &key) {
    *Out << json::Value(std::move(o)) << "\n"; (void)key;
  }
  void func(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return;
    if (!inRoots(F->getLocation())) return;
    std::string key = "F:" + fname(F);
    if (!Seen.insert(key).second) return;
    json::Object o; o["K"] = "func"; o["f"] = fname(F); o["q"] = qn(F); o["sn"] = F->getQualifiedNameAsString(); o["fn"] = F->getNameAsString(); o["file"] = file(F->getLocation()); o["l"] = line(F->getLocation()); o["le"] = line(F->getEndLoc());
    o["rt"] = ty(F->getReturnType());
    if (F->isDependentContext()) o["dep"] = true;
    if (F->isTemplateInstantiation()) o["inst"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->getTemplateSpecializationArgs()) { json::Array ta; for (auto &a : F->getTemplateSpecializationArgs()->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); ta.push_back(os.str()); } o["targs"] = std::move(ta); }
    if (auto *pat = F->getTemplateInstantiationPattern()) { o["pl"] = line(pat->getLocation()); }
    json::Array ps; for (auto *p : F->parameters()) { json::Object po; po["d"] = id(p); po["n"] = p->getNameAsString(); po["t"] = ty(p->getType()); if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) po["def"] = E(p->getDefaultArg()); ps.push_back(std::move(po)); }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = qn(M->getParent()); o["csn"] = M->getParent()->getQualifiedNameAsString(); if (M->isConst()) o["const"] = true; if (M->isStatic()) o["static"] = true; if (isa<CXXConstructorDecl>(M)) o["ctor"] = true; if (isa<CXXDestructorDecl>(M)) o["dtor"] = true; if (M->getParent()->isLambda()) { o["lam"] = true; o["parent"] = parentName(M->getParent()); } }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) { json::Array is; for (auto *i : CD->inits()) { json::Object io; if (i->isMemberInitializer()) io["field"] = i->getMember()->getNameAsString(); else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0)); else if (i->isDelegatingInitializer()) io["deleg"] = true; io["e"] = E(i->getInit()); io["written"] = i->isWritten(); is.push_back(std::move(io)); } o["inits"] = std::move(is); if (CD->isCopyConstructor()) o["copy"]=true; if (CD->isMoveConstructor()) o["move"]=true; }
    o["body"] = S(F->getBody());
    emit(std::move(o), key);
    while (!Pending.empty()) { auto *P = Pending.back(); Pending.pop_back(); const FunctionDecl *D = nullptr; if (P->hasBody(D) && D) func(D); }
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda() || !inRoots(R->getLocation())) return;
    std::string key = "R:" + qn(R) + (R->isDependentContext() ? "#dep" : "");
    if (!Seen.insert(key).second) return;
    json::Object o; o["K"] = "record"; o["q"] = qn(R); o["sn"] = R->getQualifiedNameAsString(); o["file"] = file(R->getLocation()); o["l"] = line(R->getLocation()); if (R->isDependentContext()) o["dep"] = true;
    json::Array fs; for (auto *f : R->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType()); fo["l"] = line(f->getLocation()); if (f->isMutable()) fo["mut"] = true; fo["acc"] = (int)f->getAccess(); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer()); fs.push_back(std::move(fo)); } o["fields"] = std::move(fs);
    json::Array bs; for (auto &b : R->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
    json::Array ms; for (auto *m : R->methods()) { json::Object mo; mo["n"] = m->getNameAsString(); mo["acc"] = (int)m->getAccess(); if (m->isConst()) mo["const"] = true; mo["t"] = ty(m->getType()); mo["f"] = fname(m); if (m->isImplicit()) mo["impl"] = true; if (m->isDeleted()) mo["del"] = true; if (m->isDefaulted()) mo["dflt"]=true; if (isa<CXXDestructorDecl>(m)) mo["dtor"]=true; if (auto *c=dyn_cast<CXXConstructorDecl>(m)) { mo["ctor"]=true; if (c->isCopyConstructor()) mo["copy"]=true; if (c->isMoveConstructor()) mo["move"]=true; } if (m->isCopyAssignmentOperator()) mo["cassign"]=true; if (m->isMoveAssignmentOperator()) mo["massign"]=true; ms.push_back(std::move(mo)); } o["methods"] = std::move(ms);
    emit(std::move(o), key);
  }
  void en(const EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || !inRoots(D->getLocation())) return;
    std::string key = "E:" + qn(D) + ":" + std::to_string(line(D->getLocation()));
    if (!Seen.insert(key).second) return;
    json::Object o; o["K"] = "enum"; o["q"] = qn(D); o["file"] = file(D->getLocation()); o["l"] = line(D->getLocation()); json::Array a; for (auto *c : D->enumerators()) { json::Object e; e["n"] = c->getNameAsString(); llvm::SmallString<32> s; c->getInitVal().toString(s, 10); e["v"] = s.str().str(); a.push_back(std::move(e)); } o["c"] = std::move(a); o["ut"] = ty(D->getIntegerType());
    emit(std::move(o), key);
  }
  void gvar(const VarDecl *V) {
    if (!inRoots(V->getLocation()) || V->isLocalVarDecl() || isa<ParmVarDecl>(V) || V->getDeclContext()->isDependentContext()) return;
    if (V->isStaticDataMember() && !V->hasInit() && !V->isThisDeclarationADefinition()) {}
    if (!V->hasGlobalStorage()) return;
    std::string key = "V:" + qn(V) + ":" + file(V->getLocation()) + (V->hasInit() ? "i" : "");
    if (!Seen.insert(key).second) return;
    json::Object o; o["K"] = "gvar"; o["q"] = qn(V); o["t"] = ty(V->getType()); o["const"] = V->getType().isConstQualified(); o["file"] = file(V->getLocation()); o["l"] = line(V->getLocation()); if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true; if (V->hasInit() && !V->getInit()->isValueDependent()) o["init"] = E(V->getInit());
    emit(std::move(o), key);
  }
};
struct V : RecursiveASTVisitor<V> {
  Dumper &D; V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) { if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true; D.func(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.en(E); return true; }
  bool VisitVarDecl(VarDecl *X) { D.gvar(X); return true; }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { if (C.getDiagnostics().hasErrorOccurred()) { Errors = 1; } Dumper d(C); V v(d); v.TraverseDecl(C.getTranslationUnitDecl()); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
  // extract OUT ROOT[,ROOT...] FLAGS... -- FILES...
  std::vector<std::string> flags, files; bool f = false; std::string out = argv[1], roots = argv[2];
  for (size_t p = 0; p <= roots.size();) { auto q = roots.find(',', p); if (q == std::string::npos) q = roots.size(); Roots.push_back(roots.substr(p, q - p)); p = q + 1; }
  for (int i = 3; i < argc; ++i) { std::string a = argv[i]; if (a == "--") { f = true; continue; } (f ? files : flags).push_back(a); }
  std::error_code ec; Out = std::make_unique<llvm::raw_fd_ostream>(out, ec); if (ec) { llvm::errs() << ec.message() << "\n"; return 2; }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, files);
  int r = T.run(tooling::newFrontendActionFactory<Act>().get());
  Out->close();
  return (r || Errors) ? 3 : 0;
}
