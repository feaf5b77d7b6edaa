// Clang plugin: serialises the bodies of every function defined under a root directory (plus the
// std:: function templates they reach) as JSON.  It copies the AST clang built from the sources;
// nothing is rewritten.  Output: one JSON object per translation unit.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Sema/Sema.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
namespace json = llvm::json;

namespace {
struct Ex {
  ASTContext &C; Sema *S; std::string root, also;
  std::map<const void *, int> tids; json::Array types;
  std::map<const Decl *, int> lids;
  std::set<std::string> fdone, rdone, vdone, edone;
  std::deque<const FunctionDecl *> fq;
  json::Array funs, recs, vars, enums;
  Ex(ASTContext &c, Sema *s, std::string r, std::string al) : C(c), S(s), root(std::move(r)), also(std::move(al)) {}

  std::string fileOf(const Decl *d) {
    if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(d)) d = sp->getSpecializedTemplate();
    SourceManager &SM = C.getSourceManager();
    auto l = SM.getExpansionLoc(d->getLocation());
    if (l.isInvalid()) return "";
    auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
    if (!fe) return "";
    StringRef p = fe->getFileEntry().tryGetRealPathName();
    return p.empty() ? fe->getName().str() : p.str();
  }
  bool inRoot(const Decl *d) { std::string p = fileOf(d); StringRef f(p); return f.starts_with(root) || (!also.empty() && f == also); }
  int lineOf(SourceLocation l) { return C.getSourceManager().getExpansionLineNumber(l); }
  std::string usr(const Decl *d) {
    llvm::SmallString<128> b;
    if (index::generateUSRForDecl(d, b)) return "";
    return b.str().str();
  }
  int lid(const Decl *d) { auto it = lids.find(d); if (it != lids.end()) return it->second; int n = lids.size() + 1; lids[d] = n; return n; }

  int type(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    auto key = q.getAsOpaquePtr();
    auto it = tids.find(key); if (it != tids.end()) return it->second;
    int id = types.size(); tids[key] = id; types.push_back(nullptr);
    json::Object o; o["s"] = q.getAsString(PrintingPolicy(C.getLangOpts()));
    if (q.isConstQualified()) o["const"] = true;
    const Type *t = q.getTypePtr();
    if (auto *b = dyn_cast<BuiltinType>(t)) { o["k"] = "b"; o["n"] = b->getName(PrintingPolicy(C.getLangOpts())).str();
      if (b->isInteger()) { o["w"] = (int64_t)C.getTypeSize(q); o["sg"] = b->isSignedInteger(); } }
    else if (auto *p = dyn_cast<PointerType>(t)) { o["k"] = "p"; o["e"] = type(p->getPointeeType()); }
    else if (auto *p = dyn_cast<ReferenceType>(t)) { o["k"] = "r"; o["e"] = type(p->getPointeeType()); }
    else if (auto *e = dyn_cast<EnumType>(t)) { o["k"] = "e"; o["n"] = e->getDecl()->getQualifiedNameAsString(); enumD(e->getDecl()); }
    else if (auto *r = dyn_cast<RecordType>(t)) {
      o["k"] = "c"; o["n"] = r->getDecl()->getQualifiedNameAsString(); o["u"] = usr(r->getDecl());
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(r->getDecl())) {
        json::Array a; for (auto &ta : sp->getTemplateArgs().asArray()) targ(a, ta); o["a"] = std::move(a);
      }
      if (auto *cr = dyn_cast<CXXRecordDecl>(r->getDecl())) { if (cr->isLambda()) o["lambda"] = true; recD(cr); }
    }
    else if (auto *a = dyn_cast<ConstantArrayType>(t)) { o["k"] = "a"; o["e"] = type(a->getElementType()); o["n"] = (int64_t)a->getSize().getZExtValue(); }
    else if (auto *a = dyn_cast<ArrayType>(t)) { o["k"] = "a"; o["e"] = type(a->getElementType()); }
    else if (auto *f = dyn_cast<FunctionProtoType>(t)) { o["k"] = "f"; o["r"] = type(f->getReturnType()); json::Array a; for (auto p : f->param_types()) a.push_back(type(p)); o["p"] = std::move(a); }
    else if (auto *m = dyn_cast<MemberPointerType>(t)) { o["k"] = "mp"; o["e"] = type(m->getPointeeType()); }
    else { o["k"] = "?"; }
    types[id] = std::move(o);
    return id;
  }
  void targ(json::Array &a, const TemplateArgument &ta) {
    if (ta.getKind() == TemplateArgument::Type) a.push_back(type(ta.getAsType()));
    else if (ta.getKind() == TemplateArgument::Integral) { json::Object x; x["i"] = (int64_t)ta.getAsIntegral().getExtValue(); a.push_back(std::move(x)); }
    else if (ta.getKind() == TemplateArgument::Pack) for (auto &p : ta.pack_elements()) targ(a, p);
    else a.push_back(nullptr);
  }
  void enumD(const EnumDecl *e) {
    std::string n = e->getQualifiedNameAsString();
    if (!edone.insert(n).second) return;
    json::Object o; o["n"] = n; json::Array a;
    for (auto *c : e->enumerators()) { json::Object x; x["n"] = c->getNameAsString(); x["v"] = (int64_t)c->getInitVal().getExtValue(); a.push_back(std::move(x)); }
    o["c"] = std::move(a); enums.push_back(std::move(o));
  }
  void recD(const CXXRecordDecl *r) {
    r = r->getDefinition() ? r->getDefinition() : r;
    std::string u = usr(r);
    if (r->isLambda()) u += "#L" + std::to_string(lid(r));
    if (!rdone.insert(u).second) return;
    json::Object o; o["u"] = u; o["n"] = r->getQualifiedNameAsString(); o["sys"] = !inRoot(r);
    if (r->isCompleteDefinition() && (inRoot(r) || r->isAggregate())) {
      json::Array b; for (auto &x : r->bases()) b.push_back(type(x.getType())); o["b"] = std::move(b);
      json::Array f; for (auto *x : r->fields()) { json::Object y; y["n"] = x->getNameAsString(); y["t"] = type(x->getType());
        if (x->hasInClassInitializer() && inRoot(r)) if (auto *e = x->getInClassInitializer()) y["init"] = stmt(e);
        f.push_back(std::move(y)); }
      o["f"] = std::move(f);
      json::Array m; for (auto *x : r->methods()) { m.push_back(fref(x)); if (inRoot(r) && !r->isLambda()) want(x); }
      o["m"] = std::move(m);
      if (inRoot(r)) for (auto *c : r->ctors()) want(c);
    }
    recs.push_back(std::move(o));
  }
  void want(const FunctionDecl *f) { fq.push_back(f); }
  std::string fkey(const FunctionDecl *f) { std::string u = usr(f); if (f->getFormalLinkage() == Linkage::Internal) u += "@" + fileOf(f);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) u += "#L" + std::to_string(lid(m->getParent()));
    if (f->isTemplateInstantiation()) { std::string s; llvm::raw_string_ostream os(s); f->getNameForDiagnostic(os, PrintingPolicy(C.getLangOpts()), true); os << f->getType().getCanonicalType().getAsString(); u += "$" + os.str(); }
    return u; }
  json::Object fref(const FunctionDecl *f) {
    json::Object o; o["u"] = fkey(f); o["n"] = f->getQualifiedNameAsString();
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o["virt"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->isImplicit()) o["impl"] = true;
      if (m->isDefaulted() || !m->isUserProvided()) o["dflt"] = true;
      if (m->isConst()) o["cst"] = true;
      if (m->size_overridden_methods()) { json::Array a; for (auto *x : m->overridden_methods()) a.push_back(fkey(x)); o["ovr"] = std::move(a); }
      if (auto *c = dyn_cast<CXXConstructorDecl>(m)) { if (c->isCopyConstructor()) o["copy"] = true; if (c->isMoveConstructor()) o["move"] = true; if (c->isDefaultConstructor()) o["defc"] = true; }
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["asg"] = true;
    }
    if (f->isDeleted()) o["del"] = true;
    return o;
  }
  void func(const FunctionDecl *f0) {
    const FunctionDecl *f = f0;
    const FunctionDecl *def = nullptr;
    if (!f->hasBody(def)) {
      return;
    }
    f = def;
    if (f->isDependentContext()) return;
    bool root_ = inRoot(f);
    if (!root_) { // std:: free function templates only
      if (isa<CXXMethodDecl>(f)) { auto *m = cast<CXXMethodDecl>(f); if (!m->getParent()->isLambda()) return; }
    }
    std::string k = fkey(f);
    if (!fdone.insert(k).second) return;
    json::Object o = fref(f);
    o["file"] = fileOf(f); o["line"] = lineOf(f->getBeginLoc()); o["end"] = lineOf(f->getEndLoc());
    o["ret"] = type(f->getReturnType()); o["root"] = root_;
    json::Array ps; for (auto *p : f->parameters()) { json::Object x; x["n"] = p->getNameAsString(); x["id"] = lid(p); x["t"] = type(p->getType()); ps.push_back(std::move(x)); }
    o["params"] = std::move(ps);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = type(C.getRecordType(m->getParent())); o["acc"] = (int)m->getAccess(); }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array is;
      for (auto *i : c->inits()) { json::Object x;
        if (i->isDelegatingInitializer()) x["d"] = true;
        else if (i->isBaseInitializer()) x["b"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isAnyMemberInitializer()) x["m"] = i->getAnyMember()->getNameAsString();
        x["w"] = i->isWritten();
        x["e"] = stmt(i->getInit()); is.push_back(std::move(x)); }
      o["inits"] = std::move(is); o["ctor"] = true;
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["body"] = stmt(f->getBody());
    funs.push_back(std::move(o));
  }
  void globalVar(const VarDecl *v) {
    std::string u = usr(v) + "@" + (v->getFormalLinkage() == Linkage::Internal ? fileOf(v) : "");
    if (!vdone.insert(u).second) return;
    json::Object o; o["u"] = u; o["n"] = v->getQualifiedNameAsString(); o["t"] = type(v->getType());
    const VarDecl *d = v->getDefinition(); if (!d) d = v;
    const VarDecl *iv = nullptr; if (auto *e = v->getAnyInitializer(iv)) if (inRoot(v)) o["init"] = stmt(e);
    vars.push_back(std::move(o));
  }
  json::Object dref(const ValueDecl *d) {
    json::Object o;
    if (auto *f = dyn_cast<FunctionDecl>(d)) { o = fref(f); o["dk"] = "f"; want(f); }
    else if (auto *e = dyn_cast<EnumConstantDecl>(d)) { o["dk"] = "e"; o["v"] = (int64_t)e->getInitVal().getExtValue(); o["n"] = e->getNameAsString(); type(e->getType()); }
    else if (auto *v = dyn_cast<VarDecl>(d)) {
      if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["dk"] = "g"; globalVar(v); o["u"] = usr(v) + "@" + (v->getFormalLinkage() == Linkage::Internal ? fileOf(v) : ""); o["n"] = v->getQualifiedNameAsString(); }
      else { o["dk"] = "l"; o["id"] = lid(v); o["n"] = v->getNameAsString(); if (v->isStaticLocal()) o["sl"] = true; }
    } else if (auto *fd = dyn_cast<FieldDecl>(d)) { o["dk"] = "m"; o["n"] = fd->getNameAsString(); }
    else { o["dk"] = "?"; o["n"] = d->getNameAsString(); }
    return o;
  }
  json::Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    // transparent wrappers
    if (auto *e = dyn_cast<ParenExpr>(s)) return stmt(e->getSubExpr());
    if (auto *e = dyn_cast<ConstantExpr>(s)) return stmt(e->getSubExpr());
    if (auto *e = dyn_cast<ExprWithCleanups>(s)) return stmt(e->getSubExpr());
    if (auto *e = dyn_cast<CXXBindTemporaryExpr>(s)) return stmt(e->getSubExpr());
    if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return stmt(e->getReplacement());
    if (auto *e = dyn_cast<CXXDefaultArgExpr>(s)) return stmt(e->getExpr());
    if (auto *e = dyn_cast<CXXDefaultInitExpr>(s)) return stmt(e->getExpr());
    json::Object o; o["k"] = s->getStmtClassName(); o["l"] = lineOf(s->getBeginLoc());
    if (auto *e = dyn_cast<Expr>(s)) { o["t"] = type(e->getType()); if (e->isLValue()) o["lv"] = true; else if (e->isXValue()) o["lv"] = true; }
    auto kids = [&](json::Object &o) { json::Array a; for (auto *c : s->children()) a.push_back(stmt(c)); o["c"] = std::move(a); };
    if (auto *e = dyn_cast<IntegerLiteral>(s)) { llvm::SmallString<32> b; e->getValue().toString(b, 10, e->getType()->isSignedIntegerType()); o["v"] = b.str().str(); return o; }
    if (auto *e = dyn_cast<CharacterLiteral>(s)) { o["v"] = std::to_string(e->getValue()); return o; }
    if (auto *e = dyn_cast<FloatingLiteral>(s)) {
      llvm::SmallString<64> b; e->getValue().toString(b, 40, 0); o["v"] = b.str().str();
      SourceManager &SM = C.getSourceManager(); SourceLocation l = SM.getSpellingLoc(e->getLocation());
      llvm::SmallString<64> buf; bool inv = false; StringRef sp = Lexer::getSpelling(l, buf, SM, C.getLangOpts(), &inv); if (!inv) o["sp"] = sp.str();
      return o; }
    if (auto *e = dyn_cast<StringLiteral>(s)) { o["v"] = e->isOrdinary() ? json::fixUTF8(e->getString()) : std::string("?"); return o; }
    if (auto *e = dyn_cast<CXXBoolLiteralExpr>(s)) { o["v"] = e->getValue(); return o; }
    if (auto *e = dyn_cast<DeclRefExpr>(s)) { o["d"] = dref(e->getDecl()); return o; }
    if (auto *e = dyn_cast<MemberExpr>(s)) { o["d"] = dref(e->getMemberDecl()); o["arrow"] = e->isArrow(); if (e->hasQualifier()) o["q"] = true; o["c"] = json::Array{stmt(e->getBase())}; return o; }
    if (auto *e = dyn_cast<CastExpr>(s)) { o["ck"] = e->getCastKindName(); o["c"] = json::Array{stmt(e->getSubExpr())}; if (isa<ImplicitCastExpr>(s)) o["k"] = "Cast"; else { o["cst"] = s->getStmtClassName(); o["k"] = "Cast"; } 
      if (auto *d = e->getConversionFunction()) if (auto *f = dyn_cast<FunctionDecl>(d)) { o["conv"] = fref(f); want(f);} return o; }
    if (auto *e = dyn_cast<BinaryOperator>(s)) { o["op"] = e->getOpcodeStr().str(); if (auto *ca = dyn_cast<CompoundAssignOperator>(s)) o["ct"] = type(ca->getComputationResultType()), o["clt"] = type(ca->getComputationLHSType()); kids(o); return o; }
    if (auto *e = dyn_cast<UnaryOperator>(s)) { o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str(); o["post"] = e->isPostfix(); kids(o); return o; }
    if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { Expr::EvalResult r; if (e->EvaluateAsInt(r, C)) { o["k"] = "IntegerLiteral"; llvm::SmallString<32> b; r.Val.getInt().toString(b, 10); o["v"] = b.str().str(); } return o; }
    if (auto *e = dyn_cast<CXXConstructExpr>(s)) { o["f"] = fref(e->getConstructor()); want(e->getConstructor()); o["elide"] = e->isElidable(); if (e->isListInitialization()) o["list"] = true; if (e->isStdInitListInitialization()) o["il"] = true; if (e->requiresZeroInitialization()) o["zi"] = true; 
      if (isa<CXXTemporaryObjectExpr>(s)) o["k"] = "CXXConstructExpr"; kids(o); return o; }
    if (auto *e = dyn_cast<CXXNewExpr>(s)) { o["at"] = type(e->getAllocatedType()); o["arr"] = e->isArray(); 
      if (e->isArray()) { auto sz = e->getArraySize(); o["sz"] = sz && *sz ? stmt(*sz) : json::Value(nullptr); }
      o["init"] = e->getInitializer() ? stmt(e->getInitializer()) : json::Value(nullptr); return o; }
    if (auto *e = dyn_cast<CallExpr>(s)) { if (auto *f = e->getDirectCallee()) { o["f"] = fref(f); want(f); } 
      json::Array a; a.push_back(stmt(e->getCallee())); for (auto *x : e->arguments()) a.push_back(stmt(x)); o["c"] = std::move(a); return o; }
    if (auto *e = dyn_cast<LambdaExpr>(s)) {
      json::Array cs; auto ie = e->capture_init_begin();
      for (auto &cp : e->captures()) { json::Object x; if (cp.capturesThis()) { x["this"] = true; x["byref"] = cp.getCaptureKind() == LCK_This; } else if (cp.capturesVariable()) { x["id"] = lid(cp.getCapturedVar()); x["n"] = cp.getCapturedVar()->getNameAsString(); x["byref"] = cp.getCaptureKind() == LCK_ByRef; x["ini"] = (*ie) ? stmt(*ie) : json::Value(nullptr); } ++ie; cs.push_back(std::move(x)); }
      o["caps"] = std::move(cs);
      auto *m = e->getCallOperator(); o["f"] = fref(m); o["gen"] = e->isGenericLambda();
      json::Array ps; for (auto *p : m->parameters()) { json::Object x; x["n"] = p->getNameAsString(); x["id"] = lid(p); x["t"] = type(p->getType()); ps.push_back(std::move(x)); }
      o["params"] = std::move(ps); o["ret"] = type(m->getReturnType());
      if (!e->isGenericLambda()) o["body"] = stmt(e->getBody());
      else if (auto *ft = e->getDependentCallOperator() ? e->getDependentCallOperator() : (m->getDescribedFunctionTemplate())) { json::Array gs;
        for (auto *sp : ft->specializations()) { const FunctionDecl *d = nullptr; if (!sp->hasBody(d)) continue; json::Object g; g["u"] = fkey(sp); json::Array gp;
          for (auto *p : d->parameters()) { json::Object x; x["n"] = p->getNameAsString(); x["id"] = lid(p); x["t"] = type(p->getType()); gp.push_back(std::move(x)); }
          g["params"] = std::move(gp); g["ret"] = type(d->getReturnType()); g["body"] = stmt(d->getBody()); g["l"] = lineOf(d->getBeginLoc()); gs.push_back(std::move(g)); }
        o["gens"] = std::move(gs); }
      return o; }
    if (auto *e = dyn_cast<DeclStmt>(s)) { json::Array a;
      for (auto *d : e->decls()) if (auto *v = dyn_cast<VarDecl>(d)) { json::Object x; x["id"] = lid(v); x["n"] = v->getNameAsString(); x["t"] = type(v->getType()); if (v->isStaticLocal()) x["sl"] = true; if (v->hasInit()) x["init"] = stmt(v->getInit()); if (v->getInitStyle() == VarDecl::ListInit) x["list"] = true; a.push_back(std::move(x)); }
        else if (auto *dd = dyn_cast<DecompositionDecl>(d)) { (void)dd; json::Object x; x["unsup"] = true; a.push_back(std::move(x)); }
      o["d"] = std::move(a); return o; }
    if (auto *e = dyn_cast<IfStmt>(s)) { o["init"] = stmt(e->getInit()); o["cv"] = e->getConditionVariableDeclStmt() ? stmt(e->getConditionVariableDeclStmt()) : json::Value(nullptr); o["cond"] = stmt(e->getCond()); o["then"] = stmt(e->getThen()); o["else"] = stmt(e->getElse()); return o; }
    if (auto *e = dyn_cast<ForStmt>(s)) { o["init"] = stmt(e->getInit()); o["cond"] = stmt(e->getCond()); o["inc"] = stmt(e->getInc()); o["body"] = stmt(e->getBody()); return o; }
    if (auto *e = dyn_cast<WhileStmt>(s)) { o["cond"] = stmt(e->getCond()); o["body"] = stmt(e->getBody()); return o; }
    if (auto *e = dyn_cast<DoStmt>(s)) { o["cond"] = stmt(e->getCond()); o["body"] = stmt(e->getBody()); return o; }
    if (auto *e = dyn_cast<CXXForRangeStmt>(s)) { o["range"] = stmt(e->getRangeInit()); auto *v = e->getLoopVariable(); json::Object x; x["id"] = lid(v); x["n"] = v->getNameAsString(); x["t"] = type(v->getType()); o["var"] = std::move(x); o["body"] = stmt(e->getBody()); return o; }
    if (auto *e = dyn_cast<SwitchStmt>(s)) { o["init"] = stmt(e->getInit()); o["cond"] = stmt(e->getCond()); o["body"] = stmt(e->getBody()); return o; }
    if (auto *e = dyn_cast<CaseStmt>(s)) { Expr::EvalResult r; if (e->getLHS()->EvaluateAsInt(r, C)) { o["v"] = (int64_t)r.Val.getInt().getExtValue(); } o["sub"] = stmt(e->getSubStmt()); return o; }
    if (auto *e = dyn_cast<DefaultStmt>(s)) { o["sub"] = stmt(e->getSubStmt()); return o; }
    if (auto *e = dyn_cast<InitListExpr>(s)) { const InitListExpr *sem = e->isSemanticForm() ? e : (e->getSemanticForm() ? e->getSemanticForm() : e);
      json::Array a; for (auto *x : sem->inits()) a.push_back(stmt(x)); o["c"] = std::move(a); if (auto *fl = sem->hasArrayFiller() ? sem->getArrayFiller() : nullptr) o["fill"] = stmt(fl); return o; }
    if (auto *e = dyn_cast<CXXTryStmt>(s)) { o["body"] = stmt(e->getTryBlock()); json::Array a; for (unsigned i = 0; i < e->getNumHandlers(); i++) { json::Object x; auto *h = e->getHandler(i); x["t"] = h->getCaughtType().isNull() ? -1 : type(h->getCaughtType()); if (h->getExceptionDecl()) { x["id"] = lid(h->getExceptionDecl()); } x["body"] = stmt(h->getHandlerBlock()); a.push_back(std::move(x)); } o["h"] = std::move(a); return o; }
    if (auto *e = dyn_cast<CXXDeleteExpr>(s)) { o["arr"] = e->isArrayForm(); o["c"] = json::Array{stmt(e->getArgument())}; return o; }
    if (isa<CXXThisExpr>(s)) return o;
    if (auto *e = dyn_cast<ArrayInitLoopExpr>(s)) { o["c"] = json::Array{stmt(e->getCommonExpr()->getSourceExpr())}; return o; }
    if (auto *e = dyn_cast<OpaqueValueExpr>(s)) { o["c"] = json::Array{stmt(e->getSourceExpr())}; return o; }
    kids(o);
    return o;
  }
};

struct V : RecursiveASTVisitor<V> {
  Ex &x; V(Ex &e) : x(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) { if (!f->isDependentContext() && x.inRoot(f)) { auto *m = dyn_cast<CXXMethodDecl>(f); if (!(m && m->getParent()->isLambda())) x.want(f); } return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { if (x.inRoot(r) && r->isCompleteDefinition() && !r->isDependentContext() && !r->isLambda()) x.type(x.C.getRecordType(r)); return true; }
  bool VisitVarDecl(VarDecl *v) { if (v->hasGlobalStorage() && !v->isStaticLocal() && x.inRoot(v) && !v->getDeclContext()->isDependentContext()) x.globalVar(v); return true; }
};

class Cons : public ASTConsumer {
  CompilerInstance &CI; std::string out, root, also;
public:
  Cons(CompilerInstance &c, std::string o, std::string r, std::string al) : CI(c), out(std::move(o)), root(std::move(r)), also(std::move(al)) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Ex x(C, &CI.getSema(), root, also);
    V(x).TraverseDecl(C.getTranslationUnitDecl());
    while (!x.fq.empty()) { auto *f = x.fq.front(); x.fq.pop_front(); x.func(f); }
    json::Object o; o["types"] = std::move(x.types); o["funs"] = std::move(x.funs); o["recs"] = std::move(x.recs); o["vars"] = std::move(x.vars); o["enums"] = std::move(x.enums);
    std::error_code ec; llvm::raw_fd_ostream os(out, ec); os << json::Value(std::move(o));
  }
};
class Act : public PluginASTAction {
  std::string out = "-", root = "/repo/", also;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(CI, out, root, also); }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &a) override { for (auto &s : a) { StringRef r(s); if (r.consume_front("out=")) out = r.str(); else if (r.consume_front("root=")) root = r.str(); else if (r.consume_front("also=")) also = r.str(); } return true; }
  ActionType getActionType() override { return ReplaceAction; }
};
}
static FrontendPluginRegistry::Add<Act> X("cmx", "extract ColorMagic AST");
