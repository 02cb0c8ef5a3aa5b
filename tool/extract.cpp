// Fact extractor: dumps the type-checked program (function bodies with resolved
// callees, types, constant values; records; enums; globals) of the translation
// units it is given as JSON. It decides nothing itself; the rules live in lib/.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>

using namespace clang;
using llvm::json::OStream;

static std::vector<std::string> gRoots; // path prefixes whose code is dumped
static std::string gOut;

namespace {

struct Dumper {
    ASTContext &ctx;
    SourceManager &sm;
    OStream &J;
    PrintingPolicy pp;
    std::map<const Type *, int> typeIds; // canonical unqualified
    std::vector<QualType> types;
    std::map<const Decl *, int> declIds;
    std::set<std::string> doneFns;
    std::deque<std::pair<const FunctionDecl *, std::string>> lambdaQueue;
    std::string curFn;

    Dumper(ASTContext &c, OStream &j)
        : ctx(c)
        , sm(c.getSourceManager())
        , J(j)
        , pp(c.getLangOpts())
    {
        pp.SuppressTagKeyword = true;
        pp.FullyQualifiedName = true;
    }

    std::string fileOf(SourceLocation loc)
    {
        loc = sm.getExpansionLoc(loc);
        auto f = sm.getFilename(loc);
        return f.str();
    }
    unsigned lineOf(SourceLocation loc)
    {
        return loc.isValid() ? sm.getExpansionLineNumber(loc) : 0;
    }
    bool interesting(SourceLocation loc)
    {
        auto f = fileOf(loc);
        if (f.empty())
            return false;
        for (auto &r : gRoots)
            if (f.compare(0, r.size(), r) == 0)
                return f.find("/_build/") == std::string::npos;
        return false;
    }

    int typeId(QualType q)
    {
        if (q.isNull())
            return -1;
        q = q.getCanonicalType();
        bool isConst = q.isConstQualified();
        (void)isConst;
        const Type *t = q.getTypePtr();
        auto it = typeIds.find(t);
        if (it != typeIds.end())
            return it->second;
        int id = types.size();
        typeIds[t] = id;
        types.push_back(QualType(t, 0));
        // make sure pointee/element types exist
        if (t->isPointerType() || t->isReferenceType())
            typeId(t->getPointeeType());
        else if (auto *at = dyn_cast<ArrayType>(t))
            typeId(at->getElementType());
        return id;
    }

    static std::string qname(const NamedDecl *d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os);
        os.flush();
        return s;
    }

    std::string usr(const Decl *d)
    {
        llvm::SmallString<128> buf;
        if (index::generateUSRForDecl(d, buf))
            return "?" + std::to_string(declId(d));
        return std::string(buf.str());
    }
    std::string fnId(const FunctionDecl *f)
    {
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda())
                return "lambda@" + fileOf(f->getLocation()) + ":" + std::to_string(lineOf(f->getLocation())) + ":" + std::to_string(sm.getExpansionColumnNumber(f->getLocation()))
                    + sig(f);
        return usr(f->getCanonicalDecl());
    }
    std::string sig(const FunctionDecl *f)
    {
        std::string s = "(";
        for (auto *p : f->parameters())
            s += p->getType().getCanonicalType().getAsString(pp) + ",";
        return s + ")";
    }
    int declId(const Decl *d)
    {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end())
            return it->second;
        int id = declIds.size() + 1;
        declIds[d] = id;
        return id;
    }

    // ------------------------------------------------------------------
    void kids(std::initializer_list<const Stmt *> l)
    {
        J.attributeArray("c", [&] {
            for (auto *s : l)
                node(s);
        });
    }

    static const Expr *skip(const Expr *e)
    {
        for (;;) {
            if (auto *x = dyn_cast<ParenExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<ExprWithCleanups>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<ConstantExpr>(e))
                e = x->getSubExpr();
            else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
                e = x->getReplacement();
            else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e))
                e = x->getSemanticForm();
            else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
                switch (x->getCastKind()) {
                case CK_LValueToRValue:
                case CK_NoOp:
                case CK_FunctionToPointerDecay:
                case CK_ArrayToPointerDecay:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                case CK_UncheckedDerivedToBase:
                case CK_DerivedToBase:
                case CK_BuiltinFnToFnPtr:
                    e = x->getSubExpr();
                    break;
                default:
                    return e;
                }
            } else
                return e;
        }
    }

    void varDecl(const VarDecl *v)
    {
        J.object([&] {
            J.attribute("id", declId(v));
            J.attribute("n", v->getNameAsString());
            J.attribute("t", typeId(v->getType()));
            if (v->getType()->isReferenceType())
                J.attribute("ref", 1);
            if (v->getType().isConstQualified())
                J.attribute("const", 1);
            if (v->isStaticLocal())
                J.attribute("static", 1);
            J.attribute("l", lineOf(v->getLocation()));
            if (v->getInit()) {
                J.attributeBegin("i");
                node(v->getInit());
                J.attributeEnd();
            }
        });
    }

    void node(const Stmt *s)
    {
        if (!s) {
            J.value(nullptr);
            return;
        }
        if (auto *e = dyn_cast<Expr>(s)) {
            exprNode(skip(e));
            return;
        }
        if (auto *a = dyn_cast<AttributedStmt>(s)) {
            J.object([&] {
                J.attribute("k", "Compound");
                J.attribute("l", lineOf(s->getBeginLoc()));
                kids({ a->getSubStmt() });
                for (auto *at : a->getAttrs())
                    if (isa<FallThroughAttr>(at))
                        J.attribute("fallthrough", 1);
            });
            return;
        }
        J.object([&] {
            J.attribute("l", lineOf(s->getBeginLoc()));
            switch (s->getStmtClass()) {
            case Stmt::CompoundStmtClass:
                J.attribute("k", "Compound");
                J.attribute("le", lineOf(s->getEndLoc()));
                J.attributeArray("c", [&] {
                    for (auto *x : cast<CompoundStmt>(s)->body())
                        node(x);
                });
                break;
            case Stmt::IfStmtClass: {
                auto *x = cast<IfStmt>(s);
                J.attribute("k", "If");
                J.attributeBegin("init");
                node(x->getInit());
                J.attributeEnd();
                J.attributeBegin("var");
                node(x->getConditionVariableDeclStmt());
                J.attributeEnd();
                J.attributeBegin("cond");
                node(x->getCond());
                J.attributeEnd();
                bool ce = x->isConstexpr();
                std::optional<bool> taken;
                if (ce && !x->getCond()->isValueDependent()) {
                    Expr::EvalResult r;
                    if (x->getCond()->EvaluateAsInt(r, ctx))
                        taken = r.Val.getInt().getBoolValue();
                }
                J.attributeBegin("then");
                node(taken && !*taken ? nullptr : x->getThen());
                J.attributeEnd();
                J.attributeBegin("else");
                node(taken && *taken ? nullptr : x->getElse());
                J.attributeEnd();
                break;
            }
            case Stmt::ForStmtClass: {
                auto *x = cast<ForStmt>(s);
                J.attribute("k", "For");
                J.attributeBegin("init");
                node(x->getInit());
                J.attributeEnd();
                J.attributeBegin("var");
                node(x->getConditionVariableDeclStmt());
                J.attributeEnd();
                J.attributeBegin("cond");
                node(x->getCond());
                J.attributeEnd();
                J.attributeBegin("inc");
                node(x->getInc());
                J.attributeEnd();
                J.attributeBegin("body");
                node(x->getBody());
                J.attributeEnd();
                break;
            }
            case Stmt::WhileStmtClass: {
                auto *x = cast<WhileStmt>(s);
                J.attribute("k", "While");
                J.attributeBegin("var");
                node(x->getConditionVariableDeclStmt());
                J.attributeEnd();
                J.attributeBegin("cond");
                node(x->getCond());
                J.attributeEnd();
                J.attributeBegin("body");
                node(x->getBody());
                J.attributeEnd();
                break;
            }
            case Stmt::DoStmtClass: {
                auto *x = cast<DoStmt>(s);
                J.attribute("k", "Do");
                J.attributeBegin("cond");
                node(x->getCond());
                J.attributeEnd();
                J.attributeBegin("body");
                node(x->getBody());
                J.attributeEnd();
                break;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto *x = cast<CXXForRangeStmt>(s);
                J.attribute("k", "RangeFor");
                J.attributeBegin("init");
                node(x->getInit());
                J.attributeEnd();
                J.attributeBegin("range");
                node(x->getRangeInit());
                J.attributeEnd();
                J.attributeBegin("loopvar");
                if (x->getLoopVariable())
                    varDecl(x->getLoopVariable());
                else
                    J.value(nullptr);
                J.attributeEnd();
                J.attributeBegin("body");
                node(x->getBody());
                J.attributeEnd();
                break;
            }
            case Stmt::SwitchStmtClass: {
                auto *x = cast<SwitchStmt>(s);
                J.attribute("k", "Switch");
                J.attributeBegin("init");
                node(x->getInit());
                J.attributeEnd();
                J.attributeBegin("var");
                node(x->getConditionVariableDeclStmt());
                J.attributeEnd();
                J.attributeBegin("cond");
                node(x->getCond());
                J.attributeEnd();
                J.attributeBegin("body");
                node(x->getBody());
                J.attributeEnd();
                break;
            }
            case Stmt::CaseStmtClass: {
                auto *x = cast<CaseStmt>(s);
                J.attribute("k", "Case");
                J.attributeBegin("lhs");
                node(x->getLHS());
                J.attributeEnd();
                if (x->getRHS()) {
                    J.attributeBegin("rhs");
                    node(x->getRHS());
                    J.attributeEnd();
                }
                kids({ x->getSubStmt() });
                break;
            }
            case Stmt::DefaultStmtClass:
                J.attribute("k", "Default");
                kids({ cast<DefaultStmt>(s)->getSubStmt() });
                break;
            case Stmt::LabelStmtClass:
                J.attribute("k", "Label");
                J.attribute("n", cast<LabelStmt>(s)->getName());
                kids({ cast<LabelStmt>(s)->getSubStmt() });
                break;
            case Stmt::GotoStmtClass:
                J.attribute("k", "Goto");
                J.attribute("n", cast<GotoStmt>(s)->getLabel()->getNameAsString());
                break;
            case Stmt::BreakStmtClass:
                J.attribute("k", "Break");
                break;
            case Stmt::ContinueStmtClass:
                J.attribute("k", "Continue");
                break;
            case Stmt::NullStmtClass:
                J.attribute("k", "Null");
                break;
            case Stmt::ReturnStmtClass:
                J.attribute("k", "Return");
                kids({ cast<ReturnStmt>(s)->getRetValue() });
                break;
            case Stmt::DeclStmtClass:
                J.attribute("k", "DeclStmt");
                J.attributeArray("decls", [&] {
                    for (auto *d : cast<DeclStmt>(s)->decls()) {
                        if (auto *v = dyn_cast<VarDecl>(d)) {
                            varDecl(v);
                            if (auto *dd = dyn_cast<DecompositionDecl>(d))
                                for (auto *b : dd->bindings())
                                    J.object([&] {
                                        J.attribute("id", declId(b));
                                        J.attribute("n", b->getNameAsString());
                                        J.attribute("t", typeId(b->getType()));
                                        J.attribute("binding", declId(v));
                                    });
                        }
                    }
                });
                break;
            case Stmt::CXXTryStmtClass: {
                auto *x = cast<CXXTryStmt>(s);
                J.attribute("k", "Try");
                J.attributeBegin("body");
                node(x->getTryBlock());
                J.attributeEnd();
                J.attributeArray("handlers", [&] {
                    for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                        auto *h = x->getHandler(i);
                        J.object([&] {
                            J.attribute("k", "Catch");
                            J.attribute("l", lineOf(h->getBeginLoc()));
                            if (h->getExceptionDecl()) {
                                J.attributeBegin("var");
                                varDecl(h->getExceptionDecl());
                                J.attributeEnd();
                            }
                            if (!h->getCaughtType().isNull())
                                J.attribute("t", typeId(h->getCaughtType().getNonReferenceType()));
                            J.attributeBegin("body");
                            node(h->getHandlerBlock());
                            J.attributeEnd();
                        });
                    }
                });
                break;
            }
            default:
                J.attribute("k", s->getStmtClassName());
                J.attributeArray("c", [&] {
                    for (auto *x : s->children())
                        node(x);
                });
            }
        });
    }

    void fnRef(const FunctionDecl *f)
    {
        J.attribute("fn", fnId(f));
        J.attribute("q", qname(f));
        auto *fpt = f->getType()->getAs<FunctionProtoType>();
        if (fpt && !isUnresolvedExceptionSpec(fpt->getExceptionSpecType()) && fpt->isNothrow())
            J.attribute("nx", 1);
        if (f->isNoReturn())
            J.attribute("noret", 1);
        // parameters through which the callee may modify the argument
        bool any = false;
        auto mut = [](QualType t) {
            if (t->isReferenceType())
                return !t->getPointeeType().isConstQualified() && !t->getPointeeType()->isFunctionType() ? 1 : 0;
            if (t->isPointerType())
                return !t->getPointeeType().isConstQualified() && !t->getPointeeType()->isFunctionType() ? 2 : 0;
            return 0;
        };
        for (auto *p : f->parameters())
            any = any || mut(p->getType());
        if (any)
            J.attributeArray("mu", [&] {
                for (auto *p : f->parameters())
                    J.value(mut(p->getType()));
            });
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isConst())
                J.attribute("mc", 1);
            if (m->isStatic())
                J.attribute("ms", 1);
        }
    }

    void exprNode(const Expr *e)
    {
        J.object([&] {
            J.attribute("l", lineOf(e->getExprLoc()));
            J.attribute("t", typeId(e->getType()));
            if (e->isPRValue() && e->getType()->isRecordType())
                J.attribute("pr", 1);
            // constant value
            if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType()
                && !isa<CXXDefaultArgExpr>(e)) {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
                    auto v = r.Val.getInt();
                    if (v.isUnsigned() && v.getActiveBits() > 63)
                        J.attribute("cvu", std::to_string(v.getZExtValue()));
                    else
                        J.attribute("cv", v.getExtValue());
                }
            }
            switch (e->getStmtClass()) {
            case Stmt::IntegerLiteralClass:
            case Stmt::CharacterLiteralClass:
            case Stmt::CXXBoolLiteralExprClass:
                J.attribute("k", "Lit");
                break;
            case Stmt::FloatingLiteralClass:
                J.attribute("k", "Float");
                J.attribute("fv", cast<FloatingLiteral>(e)->getValueAsApproximateDouble());
                break;
            case Stmt::CXXNullPtrLiteralExprClass:
            case Stmt::GNUNullExprClass:
                J.attribute("k", "Null0");
                break;
            case Stmt::StringLiteralClass: {
                J.attribute("k", "Str");
                auto *x = cast<StringLiteral>(e);
                std::string v;
                for (unsigned i = 0; i < x->getLength(); ++i) {
                    auto cu = x->getCodeUnit(i);
                    if (cu < 0x80 && cu)
                        v.push_back(char(cu));
                    else {
                        char b[16];
                        snprintf(b, sizeof b, "\\x%x;", cu);
                        v += b;
                    }
                }
                J.attribute("s", v);
                J.attribute("len", x->getLength());
                break;
            }
            case Stmt::DeclRefExprClass: {
                auto *x = cast<DeclRefExpr>(e);
                auto *d = x->getDecl();
                if (auto *f = dyn_cast<FunctionDecl>(d)) {
                    J.attribute("k", "FnRef");
                    fnRef(f);
                } else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
                    J.attribute("k", "EnumC");
                    J.attribute("q", qname(ec));
                } else if (auto *v = dyn_cast<VarDecl>(d)) {
                    if (v->isLocalVarDeclOrParm()) {
                        J.attribute("k", "Var");
                        J.attribute("v", declId(v));
                        J.attribute("n", v->getNameAsString());
                        if (x->refersToEnclosingVariableOrCapture())
                            J.attribute("cap", 1);
                        if (v->isStaticLocal())
                            J.attribute("static", 1);
                    } else {
                        J.attribute("k", "Global");
                        J.attribute("q", qname(v));
                        J.attribute("gid", usr(v->getCanonicalDecl()));
                    }
                } else if (isa<BindingDecl>(d)) {
                    J.attribute("k", "Var");
                    J.attribute("v", declId(d));
                    J.attribute("n", d->getNameAsString());
                    J.attribute("bind", 1);
                } else {
                    J.attribute("k", "Ref");
                    J.attribute("q", qname(d));
                }
                break;
            }
            case Stmt::MemberExprClass: {
                auto *x = cast<MemberExpr>(e);
                auto *d = x->getMemberDecl();
                if (auto *f = dyn_cast<FunctionDecl>(d)) {
                    J.attribute("k", "FnRef");
                    fnRef(f);
                } else if (auto *v = dyn_cast<VarDecl>(d)) {
                    J.attribute("k", "Global");
                    J.attribute("q", qname(v));
                    J.attribute("gid", usr(v->getCanonicalDecl()));
                } else {
                    J.attribute("k", "Member");
                    J.attribute("n", d->getNameAsString());
                    J.attribute("q", qname(d));
                    if (x->isArrow())
                        J.attribute("arrow", 1);
                    kids({ x->getBase() });
                }
                break;
            }
            case Stmt::CXXThisExprClass:
                J.attribute("k", "This");
                break;
            case Stmt::CallExprClass:
            case Stmt::UserDefinedLiteralClass: {
                auto *x = cast<CallExpr>(e);
                J.attribute("k", "Call");
                if (auto *f = x->getDirectCallee())
                    fnRef(f);
                else {
                    J.attributeBegin("callee");
                    node(x->getCallee());
                    J.attributeEnd();
                }
                J.attributeArray("c", [&] {
                    for (auto *a : x->arguments())
                        node(a);
                });
                break;
            }
            case Stmt::CXXMemberCallExprClass: {
                auto *x = cast<CXXMemberCallExpr>(e);
                J.attribute("k", "MCall");
                if (auto *f = x->getMethodDecl()) {
                    fnRef(f);
                    auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
                    if (f->isVirtual() && !(me && me->hasQualifier()))
                        J.attribute("virt", 1);
                    if (me && me->isArrow())
                        J.attribute("arrow", 1);
                    J.attributeBegin("obj");
                    node(x->getImplicitObjectArgument());
                    J.attributeEnd();
                } else {
                    J.attributeBegin("callee");
                    node(x->getCallee());
                    J.attributeEnd();
                }
                J.attributeArray("c", [&] {
                    for (auto *a : x->arguments())
                        node(a);
                });
                break;
            }
            case Stmt::CXXOperatorCallExprClass: {
                auto *x = cast<CXXOperatorCallExpr>(e);
                J.attribute("k", "OCall");
                J.attribute("op", getOperatorSpelling(x->getOperator()));
                if (auto *f = x->getDirectCallee()) {
                    fnRef(f);
                    if (auto *m = dyn_cast<CXXMethodDecl>(f))
                        if (m->isVirtual())
                            J.attribute("virt", 1);
                    if (isa<CXXMethodDecl>(f))
                        J.attribute("m", 1);
                }
                J.attributeArray("c", [&] {
                    for (auto *a : x->arguments())
                        node(a);
                });
                break;
            }
            case Stmt::CXXConstructExprClass:
            case Stmt::CXXTemporaryObjectExprClass: {
                auto *x = cast<CXXConstructExpr>(e);
                J.attribute("k", "Ctor");
                fnRef(x->getConstructor());
                if (x->getConstructor()->isCopyOrMoveConstructor())
                    J.attribute("cm", 1);
                if (x->getConstructor()->isDefaulted())
                    J.attribute("dflt", 1);
                if (x->isElidable())
                    J.attribute("elide", 1);
                if (x->requiresZeroInitialization())
                    J.attribute("zi", 1);
                J.attributeArray("c", [&] {
                    for (auto *a : x->arguments())
                        node(a);
                });
                break;
            }
            case Stmt::CXXInheritedCtorInitExprClass: {
                auto *x = cast<CXXInheritedCtorInitExpr>(e);
                J.attribute("k", "Ctor");
                fnRef(x->getConstructor());
                break;
            }
            case Stmt::BinaryOperatorClass:
            case Stmt::CompoundAssignOperatorClass: {
                auto *x = cast<BinaryOperator>(e);
                J.attribute("k", x->isCompoundAssignmentOp() ? "CAssign" : x->getOpcode() == BO_Assign ? "Assign" : "Bin");
                J.attribute("op", x->getOpcodeStr());
                if (auto *ca = dyn_cast<CompoundAssignOperator>(e))
                    J.attribute("ct", typeId(ca->getComputationResultType()));
                kids({ x->getLHS(), x->getRHS() });
                break;
            }
            case Stmt::UnaryOperatorClass: {
                auto *x = cast<UnaryOperator>(e);
                J.attribute("k", "Un");
                J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
                if (x->isPostfix())
                    J.attribute("post", 1);
                kids({ x->getSubExpr() });
                break;
            }
            case Stmt::ConditionalOperatorClass: {
                auto *x = cast<ConditionalOperator>(e);
                J.attribute("k", "Cond");
                kids({ x->getCond(), x->getTrueExpr(), x->getFalseExpr() });
                break;
            }
            case Stmt::BinaryConditionalOperatorClass: {
                auto *x = cast<BinaryConditionalOperator>(e);
                J.attribute("k", "Cond");
                kids({ x->getCommon(), x->getCommon(), x->getFalseExpr() });
                break;
            }
            case Stmt::OpaqueValueExprClass: {
                auto *x = cast<OpaqueValueExpr>(e);
                J.attribute("k", "Opaque");
                kids({ x->getSourceExpr() });
                break;
            }
            case Stmt::ArraySubscriptExprClass: {
                auto *x = cast<ArraySubscriptExpr>(e);
                J.attribute("k", "Index");
                kids({ x->getBase(), x->getIdx() });
                break;
            }
            case Stmt::ImplicitCastExprClass:
            case Stmt::CStyleCastExprClass:
            case Stmt::CXXStaticCastExprClass:
            case Stmt::CXXReinterpretCastExprClass:
            case Stmt::CXXConstCastExprClass:
            case Stmt::CXXDynamicCastExprClass:
            case Stmt::CXXFunctionalCastExprClass: {
                auto *x = cast<CastExpr>(e);
                J.attribute("k", "Cast");
                J.attribute("ck", x->getCastKindName());
                if (isa<ExplicitCastExpr>(x))
                    J.attribute("ex", 1);
                if (isa<CXXReinterpretCastExpr>(x))
                    J.attribute("reint", 1);
                if (e->getType().getNonReferenceType().isConstQualified() || (e->getType()->isPointerType() && e->getType()->getPointeeType().isConstQualified()))
                    J.attribute("const", 1);
                kids({ x->getSubExpr() });
                break;
            }
            case Stmt::CXXThrowExprClass: {
                auto *x = cast<CXXThrowExpr>(e);
                J.attribute("k", "Throw");
                if (x->getSubExpr())
                    J.attribute("tt", typeId(x->getSubExpr()->getType()));
                kids({ x->getSubExpr() });
                break;
            }
            case Stmt::CXXNewExprClass: {
                auto *x = cast<CXXNewExpr>(e);
                J.attribute("k", "New");
                J.attribute("at", typeId(x->getAllocatedType()));
                if (x->isArray())
                    J.attribute("arr", 1);
                J.attributeArray("c", [&] {
                    if (x->isArray() && x->getArraySize() && *x->getArraySize())
                        node(*x->getArraySize());
                    if (x->getInitializer())
                        node(x->getInitializer());
                });
                break;
            }
            case Stmt::CXXDeleteExprClass: {
                auto *x = cast<CXXDeleteExpr>(e);
                J.attribute("k", "Delete");
                kids({ x->getArgument() });
                break;
            }
            case Stmt::LambdaExprClass: {
                auto *x = cast<LambdaExpr>(e);
                J.attribute("k", "Lambda");
                J.attributeArray("fns", [&] {
                    auto *op = x->getCallOperator();
                    if (auto *ft = op->getDescribedFunctionTemplate()) {
                        for (auto *sp : ft->specializations()) {
                            J.value(fnId(sp));
                            lambdaQueue.push_back({ sp, curFn });
                        }
                    } else {
                        J.value(fnId(op));
                        lambdaQueue.push_back({ op, curFn });
                    }
                });
                J.attributeArray("bycopy", [&] {
                    for (auto &cap : x->captures())
                        if (cap.capturesVariable() && cap.getCaptureKind() == LCK_ByCopy)
                            J.value(declId(cast<VarDecl>(cap.getCapturedVar()->getCanonicalDecl())));
                });
                J.attributeArray("c", [&] {
                    for (auto *i : x->capture_inits())
                        node(i);
                });
                break;
            }
            case Stmt::CXXDefaultArgExprClass: {
                auto *x = cast<CXXDefaultArgExpr>(e);
                J.attribute("k", "DefArg");
                kids({ x->getExpr() });
                break;
            }
            case Stmt::CXXDefaultInitExprClass: {
                auto *x = cast<CXXDefaultInitExpr>(e);
                J.attribute("k", "DefInit");
                kids({ x->getExpr() });
                break;
            }
            case Stmt::UnaryExprOrTypeTraitExprClass: {
                J.attribute("k", "SizeOf");
                break;
            }
            case Stmt::InitListExprClass: {
                auto *x = cast<InitListExpr>(e);
                J.attribute("k", "InitList");
                J.attributeArray("c", [&] {
                    for (auto *i : x->inits())
                        node(i);
                });
                break;
            }
            default:
                J.attribute("k", e->getStmtClassName());
                J.attributeArray("c", [&] {
                    for (auto *x : e->children())
                        node(x);
                });
            }
        });
    }

    // ------------------------------------------------------------------
    void function(const FunctionDecl *f, const std::string &lambdaParent = std::string())
    {
        const FunctionDecl *def = nullptr;
        bool hasBody = f->hasBody(def);
        if (hasBody)
            f = def;
        if (f->isDependentContext())
            return;
        if (!hasBody && !f->isDefaulted() )
            return;
        auto id = fnId(f);
        if (!doneFns.insert(id).second)
            return;
        curFn = id;
        J.object([&] {
            J.attribute("id", id);
            J.attribute("q", qname(f));
            J.attribute("n", f->getNameAsString());
            J.attribute("sig", sig(f));
            J.attribute("file", fileOf(f->getLocation()));
            J.attribute("l", lineOf(f->getLocation()));
            J.attribute("le", lineOf(f->getEndLoc()));
            J.attribute("rt", typeId(f->getReturnType()));
            if (!lambdaParent.empty())
                J.attribute("lambda", lambdaParent);
            auto *fpt = f->getType()->getAs<FunctionProtoType>();
            if (fpt && !isUnresolvedExceptionSpec(fpt->getExceptionSpecType()) && fpt->isNothrow())
                J.attribute("nx", 1);
            if (f->isInlined())
                J.attribute("inl", 1);
            if (f->isImplicit())
                J.attribute("implicit", 1);
            if (f->isDefaulted())
                J.attribute("dflt", 1);
            if (f->isDeleted())
                J.attribute("del", 1);
            if (f->getFormalLinkage() == Linkage::Internal || f->isInAnonymousNamespace())
                J.attribute("internal", 1);
            if (f->isTemplateInstantiation()) {
                J.attribute("inst", 1);
                if (auto *p = f->getTemplateInstantiationPattern())
                    J.attribute("pat", usr(p->getCanonicalDecl()));
            }
            J.attribute("acc", int(f->getAccess()));
            if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
                J.attribute("rec", recName(m->getParent()));
                if (m->isVirtual())
                    J.attribute("virtual", 1);
                if (m->isStatic())
                    J.attribute("ms", 1);
                if (m->isConst())
                    J.attribute("mc", 1);
                if (m->isCopyAssignmentOperator())
                    J.attribute("role", "copyassign");
                if (m->isMoveAssignmentOperator())
                    J.attribute("role", "moveassign");
                J.attributeArray("over", [&] {
                    for (auto *o : m->overridden_methods())
                        J.value(fnId(o));
                });
                if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) {
                    J.attribute("role", cd->isCopyConstructor() ? "copyctor" : cd->isMoveConstructor() ? "movector" : "ctor");
                    J.attributeArray("inits", [&] {
                        for (auto *i : cd->inits()) {
                            J.object([&] {
                                if (i->isAnyMemberInitializer())
                                    J.attribute("m", i->getAnyMember()->getNameAsString());
                                else if (i->isDelegatingInitializer())
                                    J.attribute("deleg", 1);
                                else if (i->isBaseInitializer())
                                    J.attribute("base", typeId(QualType(i->getBaseClass(), 0)));
                                J.attribute("w", i->isWritten() ? 1 : 0);
                                J.attributeBegin("e");
                                node(i->getInit());
                                J.attributeEnd();
                            });
                        }
                    });
                }
                if (isa<CXXDestructorDecl>(m))
                    J.attribute("role", "dtor");
            }
            J.attributeArray("params", [&] {
                for (auto *p : f->parameters())
                    J.object([&] {
                        J.attribute("id", declId(p));
                        J.attribute("n", p->getNameAsString());
                        J.attribute("t", typeId(p->getType()));
                        if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) {
                            J.attributeBegin("def");
                            node(p->getDefaultArg());
                            J.attributeEnd();
                        }
                    });
            });
            if (hasBody) {
                J.attributeBegin("body");
                node(f->getBody());
                J.attributeEnd();
            }
        });
        while (!lambdaQueue.empty()) {
            auto p = lambdaQueue.front();
            lambdaQueue.pop_front();
            if (p.first->hasBody())
                function(p.first, p.second);
        }
    }

    std::string recName(const CXXRecordDecl *r)
    {
        return QualType(r->getTypeForDecl(), 0).getCanonicalType().getAsString(pp);
    }

    void record(const CXXRecordDecl *r)
    {
        J.object([&] {
            J.attribute("n", recName(r));
            J.attribute("q", qname(r));
            J.attribute("file", fileOf(r->getLocation()));
            J.attribute("l", lineOf(r->getLocation()));
            if (r->isUnion())
                J.attribute("union", 1);
            if (r->isAbstract())
                J.attribute("abstract", 1);
            if (r->isTrivial())
                J.attribute("trivial", 1);
            J.attributeArray("bases", [&] {
                for (auto &b : r->bases())
                    J.value(typeId(b.getType()));
            });
            J.attributeArray("fields", [&] {
                for (auto *f : r->fields())
                    J.object([&] {
                        J.attribute("n", f->getNameAsString());
                        J.attribute("t", typeId(f->getType()));
                        J.attribute("acc", int(f->getAccess()));
                        J.attribute("l", lineOf(f->getLocation()));
                        if (f->hasInClassInitializer())
                            J.attribute("init", 1);
                        if (f->isMutable())
                            J.attribute("mut", 1);
                    });
            });
            J.attributeArray("methods", [&] {
                for (auto *m : r->methods())
                    J.object([&] {
                        J.attribute("id", fnId(m));
                        J.attribute("n", m->getNameAsString());
                        J.attribute("acc", int(m->getAccess()));
                        if (m->isVirtual())
                            J.attribute("virtual", 1);
                        if (m->isPureVirtual())
                            J.attribute("pure", 1);
                        if (m->isImplicit())
                            J.attribute("implicit", 1);
                        if (m->isDefaulted())
                            J.attribute("dflt", 1);
                        if (m->isDeleted())
                            J.attribute("del", 1);
                        if (m->isConst())
                            J.attribute("mc", 1);
                        if (m->isStatic())
                            J.attribute("ms", 1);
                        if (auto *cd = dyn_cast<CXXConstructorDecl>(m))
                            J.attribute("role", cd->isCopyConstructor() ? "copyctor" : cd->isMoveConstructor() ? "movector" : cd->isDefaultConstructor() ? "defctor" : "ctor");
                        else if (isa<CXXDestructorDecl>(m))
                            J.attribute("role", "dtor");
                        else if (m->isCopyAssignmentOperator())
                            J.attribute("role", "copyassign");
                        else if (m->isMoveAssignmentOperator())
                            J.attribute("role", "moveassign");
                        J.attributeArray("over", [&] {
                            for (auto *o : m->overridden_methods())
                                J.value(fnId(o));
                        });
                    });
            });
        });
    }

    void typeTable()
    {
        std::set<const CXXRecordDecl *> recs;
        J.attributeArray("types", [&] {
            for (size_t i = 0; i < types.size(); ++i) { // may grow
                QualType q = types[i];
                const Type *t = q.getTypePtr();
                J.object([&] {
                    J.attribute("s", q.getAsString(pp));
                    if (t->isPointerType()) {
                        J.attribute("k", "ptr");
                        J.attribute("e", typeId(t->getPointeeType()));
                        if (t->getPointeeType().isConstQualified())
                            J.attribute("ce", 1);
                    } else if (t->isReferenceType()) {
                        J.attribute("k", "ref");
                        J.attribute("e", typeId(t->getPointeeType()));
                        if (t->getPointeeType().isConstQualified())
                            J.attribute("ce", 1);
                        if (t->isRValueReferenceType())
                            J.attribute("rv", 1);
                    } else if (auto *at = dyn_cast<ConstantArrayType>(t)) {
                        J.attribute("k", "arr");
                        J.attribute("e", typeId(at->getElementType()));
                        J.attribute("n", int64_t(at->getSize().getZExtValue()));
                    } else if (auto *et = t->getAs<EnumType>()) {
                        J.attribute("k", "enum");
                        J.attribute("r", qname(et->getDecl()));
                        if (et->getDecl()->isComplete()) {
                            J.attribute("w", int64_t(ctx.getTypeSize(q)));
                            J.attribute("u", et->getDecl()->getIntegerType()->isUnsignedIntegerOrEnumerationType() ? 1 : 0);
                        }
                    } else if (t->isBooleanType()) {
                        J.attribute("k", "bool");
                        J.attribute("w", 1);
                        J.attribute("u", 1);
                    } else if (t->isIntegerType() && !t->isDependentType()) {
                        J.attribute("k", "int");
                        J.attribute("w", int64_t(ctx.getTypeSize(q)));
                        J.attribute("u", t->isUnsignedIntegerType() ? 1 : 0);
                    } else if (t->isFloatingType()) {
                        J.attribute("k", "float");
                        J.attribute("w", int64_t(ctx.getTypeSize(q)));
                    } else if (auto *rd = t->getAsCXXRecordDecl()) {
                        J.attribute("k", "rec");
                        J.attribute("r", qname(rd));
                        if (rd->isCompleteDefinition() && !rd->isDependentType() && !rd->isInvalidDecl())
                            J.attribute("z", int64_t(ctx.getTypeSizeInChars(q).getQuantity()));
                        if (auto *ts = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                            J.attributeArray("ta", [&] {
                                for (auto &a : ts->getTemplateArgs().asArray()) {
                                    if (a.getKind() == TemplateArgument::Type)
                                        J.value(typeId(a.getAsType()));
                                    else if (a.getKind() == TemplateArgument::Integral)
                                        J.object([&] { J.attribute("v", a.getAsIntegral().getExtValue()); });
                                    else
                                        J.value(-1);
                                }
                            });
                        }
                        if (rd->hasDefinition()) {
                            rd = rd->getDefinition();
                            J.attributeArray("b", [&] {
                                for (auto &b : rd->bases())
                                    J.value(typeId(b.getType()));
                            });
                        }
                    } else if (t->isVoidType())
                        J.attribute("k", "void");
                    else
                        J.attribute("k", "other");
                });
            }
        });
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Dumper &d;
    std::vector<const FunctionDecl *> fns;
    std::vector<const CXXRecordDecl *> recs;
    std::vector<const EnumDecl *> enums;
    std::vector<const VarDecl *> globals;
    explicit Visitor(Dumper &d)
        : d(d)
    {
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *f)
    {
        if (!d.interesting(f->getLocation()) || f->isDependentContext())
            return true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda())
                return true;
        if (f->isThisDeclarationADefinition() || f->isDefaulted())
            fns.push_back(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (r->isThisDeclarationADefinition() && !r->isDependentContext() && !r->isLambda() && d.interesting(r->getLocation()))
            recs.push_back(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e)
    {
        if (e->isThisDeclarationADefinition() && !e->isDependentContext() && d.interesting(e->getLocation()))
            enums.push_back(e);
        return true;
    }
    bool VisitVarDecl(VarDecl *v)
    {
        if (!v->isLocalVarDeclOrParm() && !v->getDeclContext()->isDependentContext() && d.interesting(v->getLocation()) && v->isThisDeclarationADefinition())
            globals.push_back(v);
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &ctx) override
    {
        if (ctx.getDiagnostics().hasUncompilableErrorOccurred())
            return;
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        OStream J(os);
        Dumper d(ctx, J);
        Visitor v(d);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        J.object([&] {
            J.attributeArray("functions", [&] {
                for (auto *f : v.fns)
                    d.function(f);
            });
            J.attributeArray("records", [&] {
                for (auto *r : v.recs)
                    d.record(r);
            });
            J.attributeArray("enums", [&] {
                for (auto *e : v.enums)
                    J.object([&] {
                        J.attribute("q", Dumper::qname(e));
                        J.attribute("file", d.fileOf(e->getLocation()));
                        J.attribute("l", d.lineOf(e->getLocation()));
                        J.attributeArray("vals", [&] {
                            for (auto *c : e->enumerators())
                                J.array([&] {
                                    J.value(Dumper::qname(c));
                                    J.value(c->getInitVal().isUnsigned() ? int64_t(c->getInitVal().getZExtValue()) : c->getInitVal().getExtValue());
                                });
                        });
                    });
            });
            J.attributeArray("globals", [&] {
                std::set<const VarDecl *> done;
                for (auto *g : v.globals) {
                    if (!done.insert(g).second)
                        continue;
                    J.object([&] {
                        J.attribute("q", Dumper::qname(g));
                        J.attribute("gid", d.usr(g->getCanonicalDecl()));
                        J.attribute("file", d.fileOf(g->getLocation()));
                        J.attribute("l", d.lineOf(g->getLocation()));
                        J.attribute("t", d.typeId(g->getType()));
                        if (g->getType().isConstQualified() || g->isConstexpr())
                            J.attribute("const", 1);
                        if (g->getInit() && !g->getInit()->isValueDependent()) {
                            J.attributeBegin("i");
                            d.node(g->getInit());
                            J.attributeEnd();
                        }
                    });
                }
            });
            d.typeTable();
        });
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

} // namespace

int main(int argc, const char **argv)
{
    // extract OUT SOURCE ROOT[,ROOT...] -- flags
    if (argc < 5) {
        llvm::errs() << "usage: extract OUT SOURCE ROOTS -- FLAGS\n";
        return 2;
    }
    gOut = argv[1];
    std::string src = argv[2];
    llvm::SmallVector<llvm::StringRef, 4> roots;
    llvm::StringRef(argv[3]).split(roots, ',');
    for (auto r : roots)
        gRoots.push_back(r.str());
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, { src });
    struct F : tooling::FrontendActionFactory {
        std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
    } factory;
    return tool.run(&factory);
}
