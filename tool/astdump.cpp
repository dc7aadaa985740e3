// astdump: dumps the resolved program (every function defined under a given
// directory, including template instantiations, lambdas and special members)
// as JSON statement/expression trees with resolved callees, fields and types.
// It decides nothing: the analyses in /verif/sa consume this.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
namespace json = llvm::json;
static std::string RootDir, OutPath;

struct Dumper {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  json::Array Funcs, Records, Globals, Types, Enums;
  std::map<const Decl*, int> Ids; 
  std::map<std::string,int> TypeIds;
  std::set<const FunctionDecl*> Done; std::deque<const FunctionDecl*> Work;
  std::set<const CXXRecordDecl*> DoneRec; std::deque<const CXXRecordDecl*> WorkRec;
  std::set<const VarDecl*> DoneGlob;
  Dumper(ASTContext &C): C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) { PP.adjustForCPlusPlus(); PP.SuppressTagKeyword = true; PP.FullyQualifiedName=true; PP.PrintCanonicalTypes=true; PP.SuppressInlineNamespace=true; }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = Ids.find(D); if (it!=Ids.end()) return it->second; int n = Ids.size()+1; Ids[D]=n; return n; }
  std::string fileOf(SourceLocation L) { L = SM.getFileLoc(L); return SM.getFilename(L).str(); }
  int lineOf(SourceLocation L) { L = SM.getFileLoc(L); return SM.getSpellingLineNumber(L); }
  bool inRoot(const Decl *D) { auto f = fileOf(D->getLocation()); return f.compare(0, RootDir.size(), RootDir)==0; }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    std::string s = CT.getAsString(PP);
    auto it = TypeIds.find(s); if (it!=TypeIds.end()) return it->second;
    int n = Types.size(); TypeIds[s]=n;
    json::Object o; o["s"]=s;
    Types.push_back(json::Value(nullptr));
    QualType U = CT; 
    if (U->isReferenceType()) { o["ref"]= U->isLValueReferenceType()? "l":"r"; U = U->getPointeeType(); o["u"]=ty(U);} 
    else if (U->isPointerType()) { o["ptr"]=true; o["u"]=ty(U->getPointeeType()); }
    if (U.isConstQualified()) o["const"]=true;
    if (U->isIntegerType()) o["c"] = U->isBooleanType()?"bool":(U->isEnumeralType()?"enum":"int");
    else if (U->isFloatingType()) o["c"]="fp";
    else if (auto *RD = U->getAsCXXRecordDecl()) { o["c"]="rec"; o["rec"]=id(RD); o["name"]=qname(RD); noteRec(RD);
       if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) { json::Array A; auto put=[&](const TemplateArgument &TA){ if (TA.getKind()==TemplateArgument::Type) A.push_back(ty(TA.getAsType())); else if (TA.getKind()==TemplateArgument::Integral) A.push_back(json::Object{{"n",TA.getAsIntegral().getExtValue()}}); else A.push_back(nullptr);}; for (auto &TA : S->getTemplateArgs().asArray()) { if (TA.getKind()==TemplateArgument::Pack) { for (auto &TB : TA.pack_elements()) put(TB); } else put(TA); } o["targs"]=std::move(A); o["tmpl"]=qnamePlain(S);} }
    else if (auto *AT = dyn_cast<ConstantArrayType>(U.getTypePtr())) { o["c"]="arr"; o["n"]=(int64_t)AT->getSize().getZExtValue(); o["u"]=ty(AT->getElementType()); }
    else if (U->isArrayType()) { o["c"]="arr"; o["u"]=ty(C.getAsArrayType(U)->getElementType()); }
    else if (U->isPointerType()) o["c"]="ptr";
    else if (U->isVoidType()) o["c"]="void";
    if (U->isIntegerType()) { o["w"]=(int64_t)C.getTypeSize(U); o["sg"]=U->isSignedIntegerOrEnumerationType(); }
    if (U->isFloatingType()) o["w"]=(int64_t)C.getTypeSize(U);
    Types[n] = std::move(o);
    return n;
  }
  std::string qname(const NamedDecl *D) { std::string s; llvm::raw_string_ostream os(s); D->getNameForDiagnostic(os, PP, true); return os.str(); }
  std::string qnamePlain(const NamedDecl *D) { std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP); return os.str(); }
  void noteRec(const CXXRecordDecl *RD) { RD = RD->getDefinition(); if (RD && !RD->isDependentContext() && DoneRec.insert(RD).second) WorkRec.push_back(RD); }
  void noteFn(const FunctionDecl *F) { 
    const FunctionDecl *D=nullptr; if (!F->hasBody(D)) { if (!F->isDefaulted()||F->isDeleted()) return; D = F; } 
    if (D->isDependentContext()) return; 
    if (!inRoot(D)) return; if (Done.insert(D).second) Work.push_back(D); }
  // ---------- expressions
  json::Object mk(const char *k, const Stmt *S) { json::Object o; o["k"]=k; if (S) { o["l"]=lineOf(S->getBeginLoc()); if (auto *E = dyn_cast<Expr>(S)) { o["t"]=ty(E->getType()); if (E->isLValue()) o["lv"]=true; } } return o; }
  json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R) { json::Array A; for (auto *E: R) A.push_back(ex(E)); return A; }
  void varInfo(json::Object &o, const ValueDecl *V) {
    o["d"]=id(V); o["n"]=V->getNameAsString();
    if (auto *B = dyn_cast<BindingDecl>(V)) { o["vk"]="binding"; return; }
    if (auto *P = dyn_cast<ParmVarDecl>(V)) { o["vk"]="param"; }
    else if (auto *VD = dyn_cast<VarDecl>(V)) { o["vk"] = VD->isLocalVarDecl() && VD->hasLocalStorage() ? "local" : (VD->isStaticLocal()? "slocal":"global"); if (!VD->hasLocalStorage()) noteGlob(VD);} 
    else if (isa<EnumConstantDecl>(V)) { o["vk"]="enum"; o["v"]=cast<EnumConstantDecl>(V)->getInitVal().getExtValue(); o["qn"]=qname(V);} 
    else if (isa<FunctionDecl>(V)) { o["vk"]="func"; noteFn(cast<FunctionDecl>(V)); o["qn"]=qname(V);} 
    else o["vk"]="other";
    o["vt"]=ty(V->getType());
  }
  json::Value ex(const Expr *E) {
    if (!E) return nullptr;
    for (;;) { const Expr *P=E;
      if (auto *X = dyn_cast<ParenExpr>(E)) E=X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E=X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E=X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E=X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E=X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E=X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E=X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E=X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E=X->getSubExpr();
      else if (auto *X = dyn_cast<FullExpr>(E)) E=X->getSubExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay: case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_NullToPointer:
            E=X->getSubExpr(); break; default: break; }
      }
      if (P==E) break; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      auto o = mk("cast",E); o["ck"]=X->getCastKindName(); o["imp"]=isa<ImplicitCastExpr>(E);
      if (auto *XC=dyn_cast<ExplicitCastExpr>(E)) o["sc"]=XC->getStmtClassName();
      o["e"]=ex(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { auto o=mk("int",E); o["v"]= X->getValue().getSignificantBits()<=64? json::Value(X->getValue().getSExtValue()) : json::Value(nullptr); return o; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { auto o=mk("fp",E); double d; { llvm::APFloat F=X->getValue(); bool li; F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven,&li); d=F.convertToDouble(); } o["v"]=d; return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o=mk("bool",E); o["v"]=X->getValue(); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { auto o=mk("char",E); o["v"]=(int64_t)X->getValue(); return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { auto o=mk("str",E); std::string s = X->getCharByteWidth()==1? X->getString().str():""; o["v"]= json::isUTF8(s)? s : json::fixUTF8(s); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E)||isa<GNUNullExpr>(E)) return mk("null",E);
    if (isa<CXXThisExpr>(E)) return mk("this",E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) { auto o=mk("ref",E); 
       if (auto *BD = dyn_cast<BindingDecl>(X->getDecl())) { if (auto *HV = BD->getHoldingVar()) { varInfo(o,BD);} else varInfo(o,BD); return o; }
       varInfo(o,X->getDecl()); return o; }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
       auto o=mk("mem",E); o["n"]=X->getMemberDecl()->getNameAsString(); 
       if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) { o["f"]=id(FD); o["fi"]=(int64_t)FD->getFieldIndex(); o["rec"]=qname(FD->getParent()); }
       else if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl())) { auto r=mk("ref",E); varInfo(r,VD); return r; }
       else { o["k"]="memfn"; noteFn(cast<FunctionDecl>(X->getMemberDecl())); }
       o["arrow"]=X->isArrow(); o["b"]=ex(X->getBase()); return o; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { auto o=mk("idx",E); o["b"]=ex(X->getBase()); o["i"]=ex(X->getIdx()); return o; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { auto o=mk("un",E); o["op"]=UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"]=X->isPostfix(); o["e"]=ex(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { auto o=mk("asg",E); o["op"]=X->getOpcodeStr().str(); o["a"]=ex(X->getLHS()); o["b"]=ex(X->getRHS()); return o; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) { auto o=mk(X->isAssignmentOp()?"asg":"bin",E); o["op"]=X->getOpcodeStr().str(); o["a"]=ex(X->getLHS()); o["b"]=ex(X->getRHS()); return o; }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { auto o=mk("cond",E); o["c"]=ex(X->getCond()); o["a"]=ex(X->getTrueExpr()); o["b"]=ex(X->getFalseExpr()); return o; }
    if (auto *X = dyn_cast<CallExpr>(E)) {
       auto o=mk("call",E); const FunctionDecl *F = X->getDirectCallee();
       if (F) fnRef(o,F); else o["callee"]=ex(X->getCallee());
       if (F && F->getDeclName().isIdentifier() && F->getName()=="get") if (auto *TA=F->getTemplateSpecializationArgs()) if (TA->size() && TA->get(0).getKind()==TemplateArgument::Integral) o["gi"]=TA->get(0).getAsIntegral().getExtValue();
       json::Array A; 
       if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) { o["op"]=getOperatorSpelling(OC->getOperator()); 
          unsigned s=0; if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["obj"]=ex(X->getArg(0)); s=1; }
          for (unsigned i=s;i<X->getNumArgs();++i) A.push_back(ex(X->getArg(i))); }
       else { if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) { o["obj"]=ex(MC->getImplicitObjectArgument()); if (auto*ME=dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) o["arrow"]=ME->isArrow(); if (auto *MD=MC->getMethodDecl()) o["virt"]=MD->isVirtual(); }
          for (auto *a: X->arguments()) A.push_back(ex(a)); }
       o["a"]=std::move(A); return o; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
       auto o=mk("ctor",E); fnRef(o,X->getConstructor()); o["elid"]=X->isElidable(); 
       o["cls"]=qname(X->getConstructor()->getParent());
       if (X->getConstructor()->isCopyConstructor()) o["cp"]="copy"; else if (X->getConstructor()->isMoveConstructor()) o["cp"]="move"; else if (X->getConstructor()->isDefaultConstructor()) o["cp"]="default";
       json::Array A; for (auto *a: X->arguments()) A.push_back(ex(a)); o["a"]=std::move(A); return o; }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return mk("other",E);
    if (auto *X = dyn_cast<InitListExpr>(E)) { auto o=mk("list",E); const InitListExpr *S = X->isSemanticForm()?X:X->getSemanticForm(); if(!S) S=X; json::Array A; for (auto *a: S->inits()) A.push_back(ex(a)); if (S->hasArrayFiller()) { o["fill"]=ex(S->getArrayFiller()); } o["a"]=std::move(A); return o; }
    if (isa<ImplicitValueInitExpr>(E)||isa<CXXScalarValueInitExpr>(E)) { return mk("zero",E); }
    if (auto *X = dyn_cast<LambdaExpr>(E)) { auto o=mk("lambda",E); noteFn(X->getCallOperator()); fnRef(o,X->getCallOperator()); json::Array A; 
       auto ci = X->capture_init_begin();
       for (auto &c: X->captures()) { json::Object co; if (c.capturesThis()) co["this"]=true; else if (c.capturesVariable()) { varInfo(co, c.getCapturedVar()); } co["byref"]= c.getCaptureKind()==LCK_ByRef; if (ci!=X->capture_init_end()) { ++ci; } A.push_back(std::move(co)); } o["caps"]=std::move(A); return o; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { auto o=mk("new",E); o["arr"]=X->isArray(); if (X->isArray()&&X->getArraySize()) o["sz"]=ex(*X->getArraySize()); o["init"]=ex(X->getInitializer()); o["place"]=(int64_t)X->getNumPlacementArgs(); json::Array A; for (unsigned i=0;i<X->getNumPlacementArgs();++i) A.push_back(ex(X->getPlacementArg(i))); o["pa"]=std::move(A); return o; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { auto o=mk("delete",E); o["arr"]=X->isArrayForm(); o["e"]=ex(X->getArgument()); return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { auto o=mk("throw",E); o["e"]=ex(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { auto o=mk("sizeof",E); Expr::EvalResult R; if (X->EvaluateAsInt(R,C)) o["v"]=R.Val.getInt().getExtValue(); o["at"]= X->isArgumentType()? ty(X->getArgumentType()) : ty(X->getArgumentExpr()->getType()); return o; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { auto o=mk("arrcopy",E); o["e"]=ex(X->getCommonExpr()->getSourceExpr()); return o; }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { return ex(X->getSourceExpr()); }
    auto o=mk("other",E); o["cls"]=E->getStmtClassName(); json::Array A; for (auto *c: E->children()) if (c && isa<Expr>(c)) A.push_back(ex(cast<Expr>(c))); o["a"]=std::move(A); return o;
  }
  void fnRef(json::Object &o, const FunctionDecl *F) {
    noteFn(F); const FunctionDecl *D=nullptr; F->hasBody(D); o["fn"]=id(D?D:F); o["n"]=F->getNameAsString(); o["qn"]=qnamePlain(F);
    if (F->isNoReturn() || F->hasAttr<NoReturnAttr>()) o["noret"]=true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"]=qname(M->getParent()); o["mconst"]=M->isConst(); o["mstatic"]=M->isStatic(); if (!inRoot(M)) o["tmpl"]=qnamePlain(M->getParent()); }
    o["root"]=inRoot(F);
    json::Array P; for (auto *p: F->parameters()) P.push_back(ty(p->getType())); o["pt"]=std::move(P);
    if (auto *FT=F->getType()->getAs<FunctionProtoType>()) { auto es = FT->getExceptionSpecType(); bool ne = isNoexceptExceptionSpec(es) && es!=EST_NoexceptFalse && es!=EST_DependentNoexcept; o["noex"]= ne || es==EST_NoThrow || es==EST_DynamicNone; }
  }
  json::Value vdecl(const VarDecl *V) {
    json::Object o; o["d"]=id(V); o["n"]=V->getNameAsString(); o["vt"]=ty(V->getType()); o["l"]=lineOf(V->getLocation()); 
    o["static"]=V->isStaticLocal(); if (V->isStaticLocal()) noteGlob(V);
    o["constexpr"]=V->isConstexpr(); if (V->hasInit()) o["init"]=ex(V->getInit());
    o["istyle"]=(int64_t)V->getInitStyle();
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) { json::Array B; int i=0; for (auto *b: DD->bindings()) { json::Object bo; bo["d"]=id(b); bo["n"]=b->getNameAsString(); bo["i"]=i++; bo["vt"]=ty(b->getType()); if (!b->getHoldingVar()) bo["e"]=ex(b->getBinding()); B.push_back(std::move(bo)); } o["bind"]=std::move(B);} 
    return o;
  }
  json::Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *X = dyn_cast<CompoundStmt>(S)) { auto o=mk("block",S); json::Array A; for (auto *c: X->body()) A.push_back(st(c)); o["b"]=std::move(A); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) { auto o=mk("decl",S); json::Array A; for (auto *d: X->decls()) if (auto *V=dyn_cast<VarDecl>(d)) A.push_back(vdecl(V)); o["v"]=std::move(A); return o; }
    if (auto *X = dyn_cast<IfStmt>(S)) { auto o=mk("if",S); if (X->getInit()) o["init"]=st(X->getInit()); if (X->getConditionVariable()) o["cv"]=vdecl(X->getConditionVariable()); o["c"]=ex(X->getCond()); o["a"]=st(X->getThen()); o["b"]=st(X->getElse()); o["cx"]=X->isConstexpr(); return o; }
    if (auto *X = dyn_cast<ForStmt>(S)) { auto o=mk("for",S); o["init"]=st(X->getInit()); o["c"]=ex(X->getCond()); o["inc"]=ex(X->getInc()); o["b"]=st(X->getBody()); return o; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { auto o=mk("while",S); o["c"]=ex(X->getCond()); o["b"]=st(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { auto o=mk("do",S); o["c"]=ex(X->getCond()); o["b"]=st(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { auto o=mk("rfor",S); o["range"]=ex(X->getRangeInit()); o["var"]=vdecl(X->getLoopVariable()); o["b"]=st(X->getBody()); return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { auto o=mk("ret",S); o["e"]=ex(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) return mk("break",S);
    if (isa<ContinueStmt>(S)) return mk("cont",S);
    if (isa<NullStmt>(S)) return mk("null",S);
    if (auto *X = dyn_cast<SwitchStmt>(S)) { auto o=mk("switch",S); o["c"]=ex(X->getCond()); o["b"]=st(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { auto o=mk("case",S); o["v"]=ex(X->getLHS()); o["b"]=st(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { auto o=mk("default",S); o["b"]=st(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { auto o=mk("try",S); o["b"]=st(X->getTryBlock()); json::Array A; for (unsigned i=0;i<X->getNumHandlers();++i) { auto *H=X->getHandler(i); json::Object h; h["t"]=H->getCaughtType().isNull()?-1:ty(H->getCaughtType()); if (H->getExceptionDecl()) h["var"]=vdecl(H->getExceptionDecl()); h["b"]=st(H->getHandlerBlock()); A.push_back(std::move(h)); } o["h"]=std::move(A); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { auto o=mk("label",S); o["n"]=X->getName(); o["b"]=st(X->getSubStmt()); return o; }
    if (isa<GotoStmt>(S)) { auto o=mk("goto",S); o["n"]=cast<GotoStmt>(S)->getLabel()->getNameAsString(); return o; }
    if (auto *E = dyn_cast<Expr>(S)) { auto o=mk("expr",nullptr); o["l"]=lineOf(S->getBeginLoc()); o["e"]=ex(E); return o; }
    auto o=mk("otherst",S); o["cls"]=S->getStmtClassName(); json::Array A; for (auto *c: S->children()) A.push_back(st(c)); o["b"]=std::move(A); return o;
  }
  void noteGlob(const VarDecl *V) {
    V = V->getCanonicalDecl(); const VarDecl *D = V->getDefinition(); if (!D) D=V; if (!DoneGlob.insert(V).second) return; if (V->getDeclContext()->isDependentContext()) return;
    json::Object o; o["id"]=id(V); o["n"]=V->getNameAsString(); o["qn"]=qnamePlain(V); o["vt"]=ty(V->getType()); o["const"]=D->getType().isConstQualified()||D->isConstexpr(); o["constexpr"]=D->isConstexpr(); o["root"]=inRoot(V); o["file"]=fileOf(D->getLocation()); o["line"]=lineOf(D->getLocation());
    o["linkage"]= V->isExternallyVisible(); o["inline"]=D->isInline(); o["slocal"]=V->isStaticLocal(); o["member"]=V->isStaticDataMember(); o["tls"]=(int64_t)V->getTLSKind(); o["extern"]= D->isThisDeclarationADefinition()==VarDecl::DeclarationOnly;
    o["inst"]= V->getTemplateSpecializationKind()!=TSK_Undeclared;
    if (inRoot(V) && D->hasInit()) o["init"]=ex(D->getInit());
    Globals.push_back(std::move(o));
  }
  void dumpFn(const FunctionDecl *F) {
    json::Object o; o["id"]=id(F); o["n"]=F->getNameAsString(); o["qn"]=qnamePlain(F); o["dn"]=qname(F); o["file"]=fileOf(F->getLocation()); o["line"]=lineOf(F->getLocation()); o["endline"]=lineOf(F->getEndLoc());
    o["rt"]=ty(F->getReturnType()); json::Array P; for (auto *p: F->parameters()) { json::Object po; po["d"]=id(p); po["n"]=p->getNameAsString(); po["vt"]=ty(p->getType()); P.push_back(std::move(po)); } o["params"]=std::move(P);
    o["inline"]=F->isInlined(); o["ext"]=F->isExternallyVisible(); 
    o["inst"]= F->isTemplateInstantiation() || (isa<CXXMethodDecl>(F) && isa<ClassTemplateSpecializationDecl>(cast<CXXMethodDecl>(F)->getParent()));
    o["defaulted"]=F->isDefaulted(); o["implicit"]=F->isImplicit(); o["constexpr"]=F->isConstexpr();
    o["main"]=F->isMain();
    if (F->isVariadic()) o["variadic"]=true;
    if (auto *FT=F->getType()->getAs<FunctionProtoType>()) { auto es = FT->getExceptionSpecType(); o["noex"]= (isNoexceptExceptionSpec(es) && es!=EST_NoexceptFalse && es!=EST_DependentNoexcept) || es==EST_NoThrow || es==EST_DynamicNone; o["noex_explicit"]= es==EST_BasicNoexcept||es==EST_NoexceptTrue; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"]=qname(M->getParent()); o["clsid"]=id(M->getParent()); o["mconst"]=M->isConst(); o["mstatic"]=M->isStatic(); o["access"]= M->getAccess()==AS_public?"public":(M->getAccess()==AS_private?"private":"protected"); o["lambda"]=M->getParent()->isLambda();
      if (M->isCopyAssignmentOperator()) o["sp"]="copyassign"; if (M->isMoveAssignmentOperator()) o["sp"]="moveassign"; noteRec(M->getParent()); }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) { o["ctor"]=true; if (K->isCopyConstructor()) o["sp"]="copyctor"; else if (K->isMoveConstructor()) o["sp"]="movector"; else if (K->isDefaultConstructor()) o["sp"]="defctor"; 
      json::Array I; for (auto *in: K->inits()) { json::Object io; if (in->isAnyMemberInitializer()) { io["f"]=id(in->getAnyMember()); io["n"]=in->getAnyMember()->getNameAsString(); io["fi"]=(int64_t)in->getAnyMember()->getFieldIndex(); } else if (in->isBaseInitializer()) io["base"]=true; else io["deleg"]=true; io["written"]=in->isWritten(); io["l"]=lineOf(in->getSourceLocation()); io["e"]=ex(in->getInit()); I.push_back(std::move(io)); } o["inits"]=std::move(I); }
    if (isa<CXXDestructorDecl>(F)) o["dtor"]=true;
    if (F->hasBody()) o["body"]=st(F->getBody());
    Funcs.push_back(std::move(o));
  }
  void dumpRec(const CXXRecordDecl *R) {
    json::Object o; o["id"]=id(R); o["n"]=R->getNameAsString(); o["qn"]=qname(R); o["root"]=inRoot(R); o["file"]=fileOf(R->getLocation()); o["line"]=lineOf(R->getLocation()); o["lambda"]=R->isLambda(); o["union"]=R->isUnion(); o["agg"]=R->isAggregate();
    o["tmpl"]=qnamePlain(R);
    json::Array Fs; for (auto *f: R->fields()) { json::Object fo; fo["id"]=id(f); fo["n"]=f->getNameAsString(); fo["vt"]=ty(f->getType()); fo["mutable"]=f->isMutable(); fo["init"]=f->hasInClassInitializer(); fo["access"]= f->getAccess()==AS_public?"public":"private"; fo["anonrec"]=f->isAnonymousStructOrUnion(); Fs.push_back(std::move(fo)); } o["fields"]=std::move(Fs);
    json::Array Bs; for (auto &b: R->bases()) Bs.push_back(ty(b.getType())); o["bases"]=std::move(Bs);
    bool PR=inRoot(R); if (auto *Pat=R->getTemplateInstantiationPattern()) { if (inRoot(Pat)) { PR=true; o["file"]=fileOf(Pat->getLocation()); o["line"]=lineOf(Pat->getLocation()); } }
    o["proot"]=PR;
    if (PR) {
      o["triv_copy"]=R->hasTrivialCopyConstructor(); o["user_dtor"]=R->hasUserDeclaredDestructor();
      auto spec=[&](const char*k, const FunctionDecl*F){ o[k]= F? (F->isDeleted()? "deleted": (F->isImplicit()||F->isDefaulted()? "default":"user")):"none"; };
      const CXXConstructorDecl *cc=nullptr,*mc=nullptr,*dc=nullptr; const CXXMethodDecl*ca=nullptr,*ma=nullptr;
      for (auto *K: R->ctors()) { if (K->isCopyConstructor()) cc=K; else if (K->isMoveConstructor()) mc=K; else if (K->isDefaultConstructor()) dc=K; }
      for (auto *M: R->methods()) { if (M->isCopyAssignmentOperator()) ca=M; if (M->isMoveAssignmentOperator()) ma=M; noteFn(M);} for (auto*K:R->ctors()) noteFn(K);
      spec("copyctor",cc); spec("movector",mc); spec("defctor",dc); spec("copyassign",ca); spec("moveassign",ma);
      if (!cc) o["copyctor"]= R->needsImplicitCopyConstructor()? (R->hasSimpleCopyConstructor()?"default":"default?"):"none";
      if (!ca) o["copyassign"]= R->needsImplicitCopyAssignment()? "default?":"none";
      if (!mc) o["movector"]= R->needsImplicitMoveConstructor()? "default":"none";
      if (!ma) o["moveassign"]= R->needsImplicitMoveAssignment()? "default":"none";
    }
    Records.push_back(std::move(o));
  }
  void run() {
    struct V : RecursiveASTVisitor<V> { Dumper &D; V(Dumper&D):D(D){} bool shouldVisitTemplateInstantiations() const {return true;} bool shouldVisitImplicitCode() const {return true;}
      bool VisitFunctionDecl(FunctionDecl *F) { if (F->doesThisDeclarationHaveABody() || F->isDefaulted()) D.noteFn(F); return true; }
      bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && D.inRoot(R)) D.noteRec(R); return true; }
      bool VisitVarDecl(VarDecl *X) { if (!X->hasLocalStorage() && D.inRoot(X) && !isa<ParmVarDecl>(X) && !X->getType()->isDependentType()) D.noteGlob(X); return true; } };
    V v(*this); v.TraverseDecl(C.getTranslationUnitDecl());
    while (!Work.empty()||!WorkRec.empty()) { while(!Work.empty()) { auto *F=Work.front(); Work.pop_front(); dumpFn(F);} while(!WorkRec.empty()) { auto*R=WorkRec.front(); WorkRec.pop_front(); dumpRec(R);} }
    std::error_code EC; llvm::raw_fd_ostream os(OutPath,EC); 
    json::Object top; top["funcs"]=std::move(Funcs); top["records"]=std::move(Records); top["globals"]=std::move(Globals); top["types"]=std::move(Types);
    os << json::Value(std::move(top));
  }
};
struct Cons : ASTConsumer { CompilerInstance &CI; Cons(CompilerInstance&CI):CI(CI){} void HandleTranslationUnit(ASTContext &C) override { if (CI.getDiagnostics().hasErrorOccurred()) return; Dumper D(C); D.run(); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(CI); } };
int main(int argc, const char **argv) {
  // astdump ROOTDIR OUT.json FILE -- flags
  if (argc<5) return 2; RootDir=argv[1]; OutPath=argv[2]; std::string file=argv[3]; std::vector<std::string> args; for (int i=5;i<argc;++i) args.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase DB(".", args); clang::tooling::ClangTool T(DB,{file});
  T.clearArgumentsAdjusters(); T.appendArgumentsAdjuster(clang::tooling::getClangStripOutputAdjuster());
  return T.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
