// AST extractor: dumps the resolved program (functions, records) of one
// translation unit as JSON. Only declarations spelled under --root are dumped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string ROOT = "/repo/src/";
static std::string OUT;

namespace {
struct Dumper {
  ASTContext &ctx;
  SourceManager &sm;
  PrintingPolicy pol;
  Array functions, records;
  std::set<std::string> seenFn, seenRec;
  std::map<std::string, int> typeIds;
  Array types;
  std::map<const Decl *, int> declIds;
  unsigned lambdaDepth = 0;

  explicit Dumper(ASTContext &c)
      : ctx(c), sm(c.getSourceManager()), pol(c.getPrintingPolicy()) {
    pol.SuppressTagKeyword = true;
    pol.FullyQualifiedName = true;
    pol.PrintCanonicalTypes = true;
    pol.SuppressUnwrittenScope = true;
    pol.SuppressInlineNamespace = true;
  }

  int typeId(QualType t) {
    if (t.isNull())
      return -1;
    std::string s = t.getCanonicalType().getAsString(pol);
    auto it = typeIds.find(s);
    if (it != typeIds.end())
      return it->second;
    int id = (int)types.size();
    types.push_back(s);
    typeIds.emplace(s, id);
    return id;
  }

  std::string fileOf(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    auto p = sm.getPresumedLoc(l);
    if (p.isInvalid())
      return "";
    std::string f = p.getFilename();
    // normalise a/../b
    llvm::SmallString<256> s(f);
    llvm::sys::path::remove_dots(s, true);
    return std::string(s);
  }
  int lineOf(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    auto p = sm.getPresumedLoc(l);
    return p.isInvalid() ? 0 : (int)p.getLine();
  }
  bool inRoot(const Decl *d) {
    return llvm::StringRef(fileOf(d->getLocation())).starts_with(ROOT);
  }
  std::string key(const Decl *d) {
    llvm::SmallString<256> buf;
    d = d->getCanonicalDecl();
    if (index::generateUSRForDecl(d, buf))
      return "?" + std::to_string((uintptr_t)d);
    return std::string(buf);
  }
  int declId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end())
      return it->second;
    int id = (int)declIds.size() + 1;
    declIds.emplace(d, id);
    return id;
  }
  std::string qname(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pol);
    // drop inline std namespaces
    os.flush();
    for (const char *n : {"std::__cxx11::", "std::__1::", "std::__detail::",
                          "nlohmann::json_abi_v3_11_3::"}) {
      std::string from(n);
      std::string to = from.substr(0, from.find("::") + 2);
      if (from == "std::__detail::")
        to = "std::";
      size_t p;
      while ((p = s.find(from)) != std::string::npos)
        s.replace(p, from.size(), to);
    }
    return s;
  }

  // ------------------------------------------------------------ expressions
  Value E(const Expr *e) {
    if (!e)
      return nullptr;
    // strip no-op wrappers
    while (true) {
      if (auto *x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { e = x->getSourceExpr(); continue; } }
      if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        // user conversions carry the conversion call inside
        e = x->getSubExpr();
        continue;
      }
      break;
    }
    Object o;
    o["l"] = lineOf(e->getBeginLoc());
    o["t"] = typeId(e->getType());
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        K("enum");
        o["n"] = qname(ec);
        o["v"] = (int64_t)ec->getInitVal().extOrTrunc(64).getZExtValue();
        return o;
      }
      K("ref");
      o["n"] = d->getNameAsString();
      if (auto *fd = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "fn";
        o["q"] = qname(fd);
        o["c"] = key(fd);
      } else {
        o["d"] = declId(d);
        if (isa<BindingDecl>(d))
          o["dk"] = "bind";
        else if (auto *vd = dyn_cast<VarDecl>(d)) {
          if (vd->isLocalVarDeclOrParm() && !vd->isStaticLocal())
            o["dk"] = "local";
          else {
            o["dk"] = "global";
            o["q"] = qname(vd);
            if (vd->getTLSKind() != VarDecl::TLS_None)
              o["tls"] = true;
            if (vd->getType().isConstQualified() && vd->getAnyInitializer() &&
                !vd->getAnyInitializer()->isValueDependent()) {
              Expr::EvalResult r;
              if (vd->getType()->isArithmeticType() &&
                  vd->getAnyInitializer()->EvaluateAsRValue(r, ctx))
                setConst(o, r.Val);
            }
          }
        } else
          o["dk"] = "other";
      }
      return o;
    }
    if (isa<CXXThisExpr>(e)) {
      K("this");
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl *m = x->getMemberDecl();
      if (auto *fd = dyn_cast<FieldDecl>(m)) {
        K("mem");
        o["f"] = fd->getNameAsString();
        o["fc"] = qname(fd->getParent());
        o["b"] = E(x->getBase());
        if (x->isArrow())
          o["ar"] = true;
        return o;
      }
      if (auto *md = dyn_cast<CXXMethodDecl>(m)) {
        K("memfn");
        o["q"] = qname(md);
        o["c"] = key(md);
        o["b"] = E(x->getBase());
        return o;
      }
      K("ref");
      o["n"] = m->getNameAsString();
      o["d"] = declId(m);
      o["dk"] = "global";
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      const CXXMethodDecl *md = x->getMethodDecl();
      K("call");
      if (md) {
        fillCallee(o, md);
        const Expr *obj = x->getImplicitObjectArgument();
        o["o"] = E(obj);
        if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
          if (me->isArrow())
            o["ar"] = true;
          if (me->hasQualifier())
            o["nonvirt"] = true;
        }
      } else {
        o["fe"] = E(x->getCallee());
      }
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      K("call");
      const FunctionDecl *fd = x->getDirectCallee();
      if (fd)
        fillCallee(o, fd);
      o["op"] = getOperatorSpelling(x->getOperator());
      Array a;
      unsigned i = 0;
      bool isMethod = fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic();
      for (const Expr *arg : x->arguments()) {
        if (i++ == 0 && isMethod)
          o["o"] = E(arg);
        else
          a.push_back(E(arg));
      }
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      K("call");
      if (const FunctionDecl *fd = x->getDirectCallee())
        fillCallee(o, fd);
      else
        o["fe"] = E(x->getCallee());
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      const CXXConstructorDecl *cd = x->getConstructor();
      K("ctor");
      o["q"] = qname(cd->getParent());
      o["c"] = key(cd);
      if (cd->isCopyConstructor())
        o["cm"] = "copy";
      else if (cd->isMoveConstructor())
        o["cm"] = "move";
      if (cd->isDefaultConstructor())
        o["def"] = true;
      if (x->isListInitialization())
        o["list"] = true;
      if (x->isStdInitListInitialization())
        o["stdlist"] = true;
      if (isa<CXXTemporaryObjectExpr>(x))
        o["tmp"] = true;
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      K("ctor");
      o["q"] = qname(x->getConstructor()->getParent());
      o["c"] = key(x->getConstructor());
      o["a"] = Array{};
      return o;
    }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      if (isa<CXXFunctionalCastExpr>(x) || isa<CXXStaticCastExpr>(x) ||
          isa<CStyleCastExpr>(x) || isa<CXXConstCastExpr>(x) ||
          isa<CXXReinterpretCastExpr>(x) || isa<CXXDynamicCastExpr>(x)) {
        K("cast");
        o["ck"] = isa<CXXDynamicCastExpr>(x)       ? "dynamic"
                  : isa<CXXConstCastExpr>(x)       ? "const"
                  : isa<CXXReinterpretCastExpr>(x) ? "reinterpret"
                                                   : "static";
        o["ckind"] = x->getCastKindName();
        o["tt"] = typeId(cast<ExplicitCastExpr>(x)->getTypeAsWritten());
        o["e"] = E(x->getSubExpr());
        return o;
      }
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      K(x->isAssignmentOp() ? "asg" : "bin");
      o["op"] = x->getOpcodeStr().str();
      o["a"] = E(x->getLHS());
      o["b"] = E(x->getRHS());
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      K("un");
      o["op"] = (x->isPostfix() ? std::string("post") : std::string()) +
                UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["e"] = E(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      K("cond");
      o["c"] = E(x->getCond());
      o["a"] = E(x->getTrueExpr());
      o["b"] = E(x->getFalseExpr());
      return o;
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      K("lit");
      o["v"] = (int64_t)x->getValue().getLimitedValue(INT64_MAX);
      return o;
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      K("lit");
      o["v"] = x->getValueAsApproximateDouble();
      o["flt"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      K("lit");
      o["v"] = x->getValue();
      return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      K("lit");
      std::string s = x->isOrdinary() ? x->getString().str() : "";
      o["v"] = json::isUTF8(s) ? s : json::fixUTF8(s);
      o["str"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      K("lit");
      o["v"] = (int64_t)x->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      K("null");
      return o;
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      K("lambda");
      const CXXRecordDecl *cls = x->getLambdaClass();
      o["id"] = fileOf(x->getBeginLoc()) + ":" +
                std::to_string(sm.getFileOffset(sm.getExpansionLoc(x->getBeginLoc())));
      Array caps;
      auto init = x->capture_init_begin();
      for (const LambdaCapture &c : x->captures()) {
        Object co;
        if (c.capturesThis()) {
          co["this"] = true;
        } else if (c.capturesVariable()) {
          const ValueDecl *v = c.getCapturedVar();
          co["d"] = declId(v);
          co["n"] = v->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          auto *vd = dyn_cast<VarDecl>(v);
          if (vd && vd->isInitCapture())
            co["init"] = E(vd->getInit());
          else if (!c.capturesThis())
            co["init"] = E(*init);
        }
        ++init;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      o["capdef"] = x->getCaptureDefault() == LCD_None    ? ""
                    : x->getCaptureDefault() == LCD_ByRef ? "&"
                                                          : "=";
      const CXXMethodDecl *op = x->getCallOperator();
      if (op->isTemplated() || op->getDescribedFunctionTemplate()) {
        if (FunctionTemplateDecl *td = op->getDescribedFunctionTemplate()) {
          for (FunctionDecl *s : td->specializations()) {
            if (s->hasBody()) {
              op = cast<CXXMethodDecl>(s);
              break;
            }
          }
        }
      }
      o["params"] = params(op);
      o["rt"] = typeId(op->getReturnType());
      ++lambdaDepth;
      o["body"] = S(op->getBody());
      --lambdaDepth;
      (void)cls;
      return o;
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (auto *sem = x->getSemanticForm())
        x = sem;
      K("init");
      Array a;
      for (const Expr *i : x->inits())
        a.push_back(E(i));
      o["a"] = std::move(a);
      if (auto *rd = e->getType()->getAsCXXRecordDecl())
        o["q"] = qname(rd);
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      K("zero");
      return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      K("throw");
      o["e"] = E(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      K("new");
      o["tt"] = typeId(x->getAllocatedType());
      o["e"] = E(x->getInitializer());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      K("del");
      o["e"] = E(x->getArgument());
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      K("sub");
      o["a"] = E(x->getBase());
      o["b"] = E(x->getIdx());
      return o;
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      K("unk");
      o["x"] = "sizeof";
      (void)x;
      return o;
    }
    if (auto *x = dyn_cast<CXXTypeidExpr>(e)) {
      K("unk");
      (void)x;
      return o;
    }
    // constants
    if (!e->isValueDependent() && e->getType()->isArithmeticType()) {
      Expr::EvalResult r;
      if (e->EvaluateAsRValue(r, ctx)) {
        K("lit");
        setConst(o, r.Val);
        if (o.get("v"))
          return o;
      }
    }
    K("unk");
    o["x"] = e->getStmtClassName();
    return o;
  }
  static double floatOf(llvm::APFloat f) {
    bool lost;
    f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven,
              &lost);
    return f.convertToDouble();
  }
  void setConst(Object &o, const APValue &v) {
    if (v.isInt())
      o["v"] = (int64_t)v.getInt().extOrTrunc(64).getZExtValue();
    else if (v.isFloat())
      o["v"] = floatOf(v.getFloat());
  }
  template <typename R> Array args(R &&r) {
    Array a;
    for (const Expr *x : r)
      a.push_back(E(x));
    return a;
  }
  void fillCallee(Object &o, const FunctionDecl *fd) {
    o["q"] = qname(fd);
    o["c"] = key(fd);
    if (fd->isNoReturn())
      o["noret"] = true;
    if (auto *ta = fd->getTemplateSpecializationArgs()) {
      std::string s;
      llvm::raw_string_ostream os(s);
      bool first = true;
      for (auto &arg : ta->asArray()) {
        if (!first)
          os << "; ";
        first = false;
        arg.print(pol, os, true);
      }
      os.flush();
      o["ta"] = s;
    }
    Array pr;
    for (auto *p : fd->parameters()) {
      QualType t = p->getType();
      pr.push_back(t->isReferenceType()
                       ? (t->getPointeeType().isConstQualified() ? "cr" : (t->isRValueReferenceType() ? "rr" : "r"))
                       : t->isPointerType() ? "p" : "v");
    }
    o["pk"] = std::move(pr);
    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
      if (md->isVirtual())
        o["virt"] = true;
      if (md->isStatic())
        o["st"] = true;
      if (md->isConst())
        o["cst"] = true;
      if (auto *cv = dyn_cast<CXXConversionDecl>(md)) {
        (void)cv;
        o["conv"] = true;
      }
    }
  }

  // ------------------------------------------------------------- statements
  Object var(const VarDecl *v) {
    Object o;
    o["d"] = declId(v);
    o["n"] = v->getNameAsString();
    o["t"] = typeId(v->getType());
    if (v->getType()->isReferenceType())
      o["ref"] = true;
    if (v->isStaticLocal())
      o["static"] = true;
    o["l"] = lineOf(v->getLocation());
    if (v->getInit())
      o["init"] = E(v->getInit());
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      Array b;
      for (auto *bd : dd->bindings()) {
        Object bo;
        bo["d"] = declId(bd);
        bo["n"] = bd->getNameAsString();
        bo["t"] = typeId(bd->getType());
        // member name for plain structs
        if (const Expr *be = bd->getBinding()) {
          if (auto *me = dyn_cast<MemberExpr>(be->IgnoreParenImpCasts()))
            bo["f"] = me->getMemberDecl()->getNameAsString();
        }
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return o;
  }
  Value S(const Stmt *s) {
    if (!s)
      return nullptr;
    Object o;
    o["l"] = lineOf(s->getBeginLoc());
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      K("block");
      Array a;
      for (auto *c : x->body())
        a.push_back(S(c));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      K("decl");
      Array a;
      for (auto *d : x->decls())
        if (auto *v = dyn_cast<VarDecl>(d))
          a.push_back(var(v));
      o["v"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      K("if");
      if (x->isConstexpr())
        o["cx"] = true;
      if (x->getInit())
        o["i"] = S(x->getInit());
      if (x->getConditionVariableDeclStmt())
        o["cv"] = S(x->getConditionVariableDeclStmt());
      if (x->isConstexpr() && !x->getCond()->isValueDependent()) {
        Expr::EvalResult r;
        if (x->getCond()->EvaluateAsRValue(r, ctx) && r.Val.isInt())
          o["cxv"] = r.Val.getInt().getBoolValue();
      }
      o["c"] = E(x->getCond());
      o["a"] = S(x->getThen());
      o["b"] = S(x->getElse());
      return o;
    }
    if (auto *x = dyn_cast<ForStmt>(s)) {
      K("for");
      o["i"] = S(x->getInit());
      o["c"] = E(x->getCond());
      o["n"] = E(x->getInc());
      o["s"] = S(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      K("rfor");
      if (x->getInit())
        o["i"] = S(x->getInit());
      o["v"] = var(x->getLoopVariable());
      o["r"] = E(x->getRangeInit());
      o["s"] = S(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      K("while");
      if (x->getConditionVariableDeclStmt())
        o["cv"] = S(x->getConditionVariableDeclStmt());
      o["c"] = E(x->getCond());
      o["s"] = S(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<DoStmt>(s)) {
      K("do");
      o["c"] = E(x->getCond());
      o["s"] = S(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      K("switch");
      if (x->getInit())
        o["i"] = S(x->getInit());
      if (x->getConditionVariableDeclStmt())
        o["cv"] = S(x->getConditionVariableDeclStmt());
      o["c"] = E(x->getCond());
      Array items; // sequence of {label|stmt}
      if (auto *b = dyn_cast_or_null<CompoundStmt>(x->getBody())) {
        for (auto *c : b->body())
          flattenCase(c, items);
      } else
        flattenCase(x->getBody(), items);
      o["s"] = std::move(items);
      return o;
    }
    if (auto *x = dyn_cast<ReturnStmt>(s)) {
      K("ret");
      o["e"] = E(x->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) {
      K("break");
      return o;
    }
    if (isa<ContinueStmt>(s)) {
      K("continue");
      return o;
    }
    if (isa<NullStmt>(s)) {
      K("null");
      return o;
    }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      K("try");
      o["s"] = S(x->getTryBlock());
      Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        Object ho;
        auto *c = x->getHandler(i);
        if (c->getExceptionDecl())
          ho["v"] = var(c->getExceptionDecl());
        ho["s"] = S(c->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (auto *x = dyn_cast<AttributedStmt>(s))
      return S(x->getSubStmt());
    if (auto *x = dyn_cast<LabelStmt>(s))
      return S(x->getSubStmt());
    if (auto *x = dyn_cast<Expr>(s)) {
      K("expr");
      o["e"] = E(x);
      return o;
    }
    K("unk");
    o["x"] = s->getStmtClassName();
    return o;
  }
  void flattenCase(const Stmt *c, Array &items) {
    if (auto *cs = dyn_cast<CaseStmt>(c)) {
      Object lo;
      lo["k"] = "case";
      lo["e"] = E(cs->getLHS());
      Expr::EvalResult r;
      if (!cs->getLHS()->isValueDependent() &&
          cs->getLHS()->EvaluateAsRValue(r, ctx) && r.Val.isInt())
        lo["v"] = (int64_t)r.Val.getInt().extOrTrunc(64).getZExtValue();
      items.push_back(std::move(lo));
      flattenCase(cs->getSubStmt(), items);
      return;
    }
    if (auto *ds = dyn_cast<DefaultStmt>(c)) {
      Object lo;
      lo["k"] = "default";
      items.push_back(std::move(lo));
      flattenCase(ds->getSubStmt(), items);
      return;
    }
    items.push_back(S(c));
  }

  Array params(const FunctionDecl *fd) {
    Array a;
    for (auto *p : fd->parameters()) {
      Object o;
      o["d"] = declId(p);
      o["n"] = p->getNameAsString();
      o["t"] = typeId(p->getType());
      QualType t = p->getType();
      if (t->isReferenceType()) {
        o["ref"] = true;
        if (t->getPointeeType().isConstQualified())
          o["cst"] = true;
      }
      a.push_back(std::move(o));
    }
    return a;
  }
  static const char *acc(AccessSpecifier a) {
    switch (a) {
    case AS_public: return "public";
    case AS_protected: return "protected";
    case AS_private: return "private";
    default: return "";
    }
  }

  void function(const FunctionDecl *fd) {
    if (fd->isDependentContext() || fd->isDeleted())
      return;
    if (!fd->doesThisDeclarationHaveABody())
      return;
    if (auto *md = dyn_cast<CXXMethodDecl>(fd))
      if (md->getParent()->isLambda())
        return;
    if (!inRoot(fd))
      return;
    std::string k = key(fd);
    if (!seenFn.insert(k).second)
      return;
    Object o;
    o["c"] = k;
    o["q"] = qname(fd);
    o["n"] = fd->getNameAsString();
    o["file"] = fileOf(fd->getLocation());
    o["l"] = lineOf(fd->getLocation());
    o["el"] = lineOf(fd->getEndLoc());
    o["rt"] = typeId(fd->getReturnType());
    o["params"] = params(fd);
    o["implicit"] = fd->isImplicit() || fd->isDefaulted();
    o["link"] = fd->isExternallyVisible();
    if (auto *ta = fd->getTemplateSpecializationArgs()) {
      std::string s;
      llvm::raw_string_ostream os(s);
      bool first = true;
      for (auto &arg : ta->asArray()) {
        if (!first)
          os << "; ";
        first = false;
        arg.print(pol, os, true);
      }
      os.flush();
      o["ta"] = s;
    }
    if (auto *pt = fd->getTemplateInstantiationPattern())
      o["pat"] = std::to_string(lineOf(pt->getLocation()));
    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
      o["cls"] = qname(md->getParent());
      o["clst"] = typeId(ctx.getRecordType(md->getParent()));
      o["acc"] = acc(md->getAccess());
      o["st"] = md->isStatic();
      o["cst"] = md->isConst();
      o["virt"] = md->isVirtual();
      Array ov;
      for (auto *m : md->overridden_methods())
        ov.push_back(key(m));
      o["ov"] = std::move(ov);
    }
    if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
      o["ctor"] = true;
      if (cd->isCopyConstructor())
        o["cm"] = "copy";
      Array in;
      for (auto *i : cd->inits()) {
        Object io;
        if (i->isMemberInitializer()) {
          io["f"] = i->getMember()->getNameAsString();
        } else if (i->isBaseInitializer()) {
          io["base"] = typeId(QualType(i->getBaseClass(), 0));
          if (auto *rd = i->getBaseClass()->getAsCXXRecordDecl())
            io["bq"] = qname(rd);
        } else if (i->isDelegatingInitializer())
          io["deleg"] = true;
        io["w"] = i->isWritten();
        io["e"] = E(i->getInit());
        io["l"] = lineOf(i->getSourceLocation());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(fd))
      o["dtor"] = true;
    o["body"] = S(fd->getBody());
    functions.push_back(std::move(o));
  }

  void record(const CXXRecordDecl *rd) {
    if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() ||
        rd->isLambda() || !inRoot(rd))
      return;
    std::string k = key(rd);
    if (!seenRec.insert(k).second)
      return;
    Object o;
    o["c"] = k;
    o["q"] = qname(rd);
    o["t"] = typeId(ctx.getRecordType(rd));
    o["file"] = fileOf(rd->getLocation());
    o["l"] = lineOf(rd->getLocation());
    Array f;
    for (auto *fd : rd->fields()) {
      Object fo;
      fo["n"] = fd->getNameAsString();
      fo["t"] = typeId(fd->getType());
      fo["acc"] = acc(fd->getAccess());
      fo["l"] = lineOf(fd->getLocation());
      fo["mut"] = fd->isMutable();
      fo["cst"] = fd->getType().isConstQualified();
      if (fd->getType()->isReferenceType())
        fo["ref"] = true;
      if (fd->hasInClassInitializer() && fd->getInClassInitializer())
        fo["init"] = E(fd->getInClassInitializer());
      f.push_back(std::move(fo));
    }
    o["f"] = std::move(f);
    Array b;
    for (auto &bs : rd->bases()) {
      Object bo;
      bo["t"] = typeId(bs.getType());
      if (auto *r = bs.getType()->getAsCXXRecordDecl())
        bo["q"] = qname(r);
      bo["acc"] = acc(bs.getAccessSpecifier());
      bo["virt"] = bs.isVirtual();
      b.push_back(std::move(bo));
    }
    o["b"] = std::move(b);
    Array m;
    for (auto *md : rd->methods()) {
      Object mo;
      mo["c"] = key(md);
      mo["n"] = md->getNameAsString();
      mo["acc"] = acc(md->getAccess());
      mo["del"] = md->isDeleted();
      mo["cst"] = md->isConst();
      mo["virt"] = md->isVirtual();
      mo["pure"] = md->isPureVirtual();
      mo["st"] = md->isStatic();
      mo["implicit"] = md->isImplicit();
      mo["rt"] = typeId(md->getReturnType());
      mo["l"] = lineOf(md->getLocation());
      mo["params"] = params(md);
      m.push_back(std::move(mo));
    }
    o["m"] = std::move(m);
    records.push_back(std::move(o));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &d;
  explicit Visitor(Dumper &d) : d(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *fd) {
    d.function(fd);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *rd) {
    d.record(rd);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred())
      return;
    Dumper d(ctx);
    Visitor v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    std::error_code ec;
    llvm::raw_fd_ostream os(OUT, ec);
    Object o;
    o["functions"] = std::move(d.functions);
    o["records"] = std::move(d.records);
    o["types"] = std::move(d.types);
    os << Value(std::move(o));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

// usage: extract ROOT OUT FILE -- flags...
int main(int argc, char **argv) {
  if (argc < 4)
    return 2;
  ROOT = argv[1];
  OUT = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i)
    flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
