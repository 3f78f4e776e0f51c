// Typed-tree extractor: parses one translation unit with clang 18 and dumps every function, record and lambda that lives
// under a given source root as JSON (names resolved, templates instantiated, implicit code made explicit).
//
//   extract ROOT OUT.json -- <compiler args> file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Root, OutFile;

namespace {

struct Dumper : RecursiveASTVisitor<Dumper>
{
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, int> ids;
    json::Array functions, records, aliases, globals, hdrdefs, enums;
    std::set<std::string> seenF, seenR;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool               = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressUnwrittenScope = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    int id(const Decl* d)
    {
        d = d->getCanonicalDecl();
        return ids.try_emplace(d, int(ids.size()) + 1).first->second;
    }

    std::string fileOf(SourceLocation l)
    {
        l       = SM.getExpansionLoc(l);
        auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
        if (!fe) return "";
        llvm::SmallString<256> p(fe->getName());
        SM.getFileManager().makeAbsolutePath(p);
        llvm::sys::path::remove_dots(p, true);
        return std::string(p.str());
    }
    std::map<FileID, bool> rootFiles;
    bool inRoot(SourceLocation l)
    {
        if (l.isInvalid()) return false;
        FileID id = SM.getFileID(SM.getExpansionLoc(l));
        auto it   = rootFiles.find(id);
        if (it == rootFiles.end()) it = rootFiles.emplace(id, llvm::StringRef(fileOf(l)).starts_with(Root)).first;
        return it->second;
    }
    // a class template instance is located where its template is
    SourceLocation locOf(const Decl* d)
    {
        if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(d))
            if (auto* p = s->getTemplateInstantiationPattern()) return p->getLocation();
        return d->getLocation();
    }
    bool TraverseDecl(Decl* d)
    {
        if (d && !isa<TranslationUnitDecl, NamespaceDecl, LinkageSpecDecl>(d) && !inRoot(locOf(d))) return true;
        return RecursiveASTVisitor<Dumper>::TraverseDecl(d);
    }
    int line(SourceLocation l) { return l.isValid() ? int(SM.getExpansionLineNumber(l)) : 0; }
    std::string ty(QualType t) { return t.isNull() ? "" : t.getCanonicalType().getAsString(PP); }
    std::string usr(const Decl* d)
    {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(d, b)) return "?" + std::to_string(id(d));
        return std::string(b.str());
    }
    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return s;
    }
    static const FunctionDecl* pattern(const FunctionDecl* f)
    {
        if (auto* p = f->getTemplateInstantiationPattern()) return p;
        return f;
    }
    std::string tmplName(const CXXRecordDecl* r)
    {
        if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) return s->getSpecializedTemplate()->getQualifiedNameAsString();
        return r->getQualifiedNameAsString();
    }

    json::Object callee(const FunctionDecl* f)
    {
        json::Object o;
        o["id"] = usr(f);
        o["q"]  = qname(f);
        o["n"]  = f->getNameAsString();
        if (inRoot(f->getLocation())) o["repo"] = true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = ty(C.getRecordType(m->getParent()));
            o["ct"]  = tmplName(m->getParent());
            if (m->isVirtual()) o["virt"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["cpasg"] = true;
            if (m->isDefaulted()) o["defaulted"] = true;
            if (m->getParent()->isLambda()) o["lambda"] = true;
        }
        o["rt"] = ty(f->getReturnType());
        return o;
    }

    json::Value unk(const char* w, const Stmt* s)
    {
        json::Object o{{"k", "unk"}, {"what", w}};
        if (s) o["l"] = line(s->getBeginLoc());
        json::Array ch;
        if (s)
            for (auto* c : s->children())
                if (c) ch.push_back(stmt(c));
        o["ch"] = std::move(ch);
        return o;
    }

    template<class A>
    json::Array exprs(const A& range)
    {
        json::Array a;
        for (auto* e : range) a.push_back(expr(e));
        return a;
    }

    const char* castKind(CastKind k)
    {
        switch (k)
        {
        case CK_IntegralToFloating: return "i2f";
        case CK_FloatingToIntegral: return "f2i";
        case CK_IntegralCast: return "i2i";
        case CK_FloatingCast: return "f2f";
        case CK_IntegralToBoolean: return "i2b";
        case CK_FloatingToBoolean: return "f2b";
        case CK_PointerToBoolean: return "p2b";
        case CK_BooleanToSignedIntegral: return "b2i";
        case CK_BaseToDerived: return "down";
        case CK_Dynamic: return "dyn";
        case CK_ToVoid: return "void";
        default: return nullptr;
        }
    }

    json::Value constInt(const llvm::APSInt& v)
    {
        llvm::SmallString<32> s;
        v.toString(s, 10);
        json::Object o{{"k", "int"}};
        o["v"] = s.str().str();
        return o;
    }

    json::Value expr(const Expr* e)
    {
        if (!e) return nullptr;
        if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<FullExpr>(e)) return expr(x->getSubExpr()); // ExprWithCleanups, ConstantExpr
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
        if (auto* x = dyn_cast<IntegerLiteral>(e))
        {
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            return json::Object{{"k", "int"}, {"v", s.str().str()}};
        }
        if (auto* x = dyn_cast<FloatingLiteral>(e))
        {
            std::string t = Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(x->getBeginLoc()), SM.getSpellingLoc(x->getEndLoc())), SM, C.getLangOpts()).str();
            llvm::SmallString<64> v;
            x->getValue().toString(v, 0, 0);
            return json::Object{{"k", "flt"}, {"s", t}, {"v", v.str().str()}};
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) return json::Object{{"k", "bool"}, {"v", x->getValue()}};
        if (auto* x = dyn_cast<CharacterLiteral>(e)) return json::Object{{"k", "int"}, {"v", std::to_string(x->getType()->isCharType() ? int((signed char)x->getValue()) : int(x->getValue()))}, {"chr", true}};
        if (auto* x = dyn_cast<StringLiteral>(e)) return json::Object{{"k", "str"}, {"v", x->isOrdinary() ? llvm::json::fixUTF8(x->getString()) : std::string("?")}};
        if (isa<PredefinedExpr>(e)) return json::Object{{"k", "str"}, {"v", "__func__"}};
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return json::Object{{"k", "null"}};
        if (isa<CXXThisExpr>(e)) return json::Object{{"k", "this"}};
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) return json::Object{{"k", "zero"}, {"ty", ty(x->getType())}};
        if (auto* x = dyn_cast<ImplicitValueInitExpr>(e)) return json::Object{{"k", "zero"}, {"ty", ty(x->getType())}};
        if (auto* x = dyn_cast<TypeTraitExpr>(e)) return json::Object{{"k", "bool"}, {"v", x->isValueDependent() ? false : x->getValue()}};
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            Expr::EvalResult r;
            if (!x->isValueDependent() && x->EvaluateAsInt(r, C)) return constInt(r.Val.getInt());
            return unk("sizeof", e);
        }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) return declref(x->getDecl(), e);
        if (auto* x = dyn_cast<MemberExpr>(e))
        {
            if (auto* f = dyn_cast<FieldDecl>(x->getMemberDecl()))
            {
                json::Object o{{"k", "mem"}, {"arrow", x->isArrow()}, {"f", f->getNameAsString()}};
                o["base"] = expr(x->getBase());
                o["rec"]  = ty(C.getRecordType(cast<CXXRecordDecl>(f->getParent())));
                o["ty"]   = ty(f->getType());
                o["l"]    = line(x->getMemberLoc());
                return o;
            }
            return declref(x->getMemberDecl(), e);
        }
        if (auto* x = dyn_cast<UnaryOperator>(e))
        {
            json::Object o{{"k", "un"}, {"op", (x->isPostfix() ? "post" : "") + UnaryOperator::getOpcodeStr(x->getOpcode()).str()}};
            o["e"] = expr(x->getSubExpr());
            o["l"] = line(x->getOperatorLoc());
            o["ty"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e))
        {
            json::Object o{{"k", "bin"}, {"op", x->getOpcodeStr().str()}};
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            o["l"] = line(x->getOperatorLoc());
            o["ty"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e))
        {
            json::Object o{{"k", "cond"}, {"l", line(x->getBeginLoc())}};
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
        {
            json::Object o{{"k", "idx"}, {"l", line(x->getBeginLoc())}};
            o["a"] = expr(x->getBase());
            o["i"] = expr(x->getIdx());
            return o;
        }
        if (auto* x = dyn_cast<CastExpr>(e))
        {
            if (isa<CXXDynamicCastExpr>(e))
            {
                json::Object o{{"k", "dyncast"}, {"to", ty(x->getType())}, {"l", line(x->getBeginLoc())}};
                o["e"] = expr(x->getSubExpr());
                return o;
            }
            if (x->getCastKind() == CK_NullToPointer) return json::Object{{"k", "null"}};
            auto* ck = castKind(x->getCastKind());
            if (!ck)
            {
                if (isa<CXXReinterpretCastExpr>(e) || x->getCastKind() == CK_BitCast) ck = "bit";
                else
                    return expr(x->getSubExpr());
            }
            json::Object o{{"k", "cast"}, {"ck", ck}, {"to", ty(x->getType())}};
            o["from"] = ty(x->getSubExpr()->getType());
            if (isa<ExplicitCastExpr>(e)) o["explicit"] = true;
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e))
        {
            json::Object o{{"k", "inhctor"}, {"c", callee(x->getConstructor())}};
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e))
        {
            auto* c = x->getConstructor();
            json::Object o{{"k", "ctor"}, {"l", line(x->getBeginLoc())}, {"ty", ty(x->getType())}};
            o["c"]    = callee(c);
            if (c->isCopyConstructor()) o["copy"] = true;
            if (c->isMoveConstructor()) o["move"] = true;
            if (c->isTrivial()) o["trivial"] = true;
            if (c->isImplicit()) o["implicit"] = true;
            if (c->isInheritingConstructor()) o["inheriting"] = true;
            o["args"] = exprs(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(e))
        {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            json::Object o{{"k", "initlist"}, {"ty", ty(x->getType())}};
            o["items"] = exprs(x->inits());
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) return lambda(x);
        if (auto* x = dyn_cast<CXXThrowExpr>(e))
        {
            json::Object o{{"k", "throw"}, {"l", line(x->getThrowLoc())}};
            o["e"] = x->getSubExpr() ? expr(x->getSubExpr()) : json::Value(nullptr);
            return o;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e))
        {
            json::Object o{{"k", "new"}, {"ty", ty(x->getAllocatedType())}, {"l", line(x->getBeginLoc())}};
            if (x->getConstructExpr()) o["init"] = expr(x->getConstructExpr());
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e))
        {
            json::Object o{{"k", "delete"}, {"l", line(x->getBeginLoc())}};
            o["e"] = expr(x->getArgument());
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            json::Object o{{"k", "call"}, {"l", line(x->getOperatorLoc())}, {"ty", ty(x->getType())}};
            auto* f = x->getDirectCallee();
            if (!f) return unk("opcall", e);
            o["c"]  = callee(f);
            o["op"] = getOperatorSpelling(x->getOperator());
            json::Array a;
            unsigned i = 0;
            if (auto* m = dyn_cast<CXXMethodDecl>(f); m && !m->isStatic())
            {
                o["obj"]   = expr(x->getArg(0));
                o["arrow"] = x->getArg(0)->getType()->isPointerType();
                i          = 1;
            }
            for (; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e))
        {
            auto* m = x->getMethodDecl();
            if (!m) return unk("memptrcall", e);
            json::Object o{{"k", "call"}, {"l", line(x->getExprLoc())}, {"ty", ty(x->getType())}};
            o["c"]   = callee(m);
            auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts());
            if (me && me->hasQualifier()) o["qual"] = true;
            o["obj"]   = expr(x->getImplicitObjectArgument());
            o["arrow"] = x->getImplicitObjectArgument()->getType()->isPointerType();
            o["args"]  = exprs(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e))
        {
            json::Object o{{"k", "call"}, {"l", line(x->getBeginLoc())}, {"ty", ty(x->getType())}};
            if (auto* f = x->getDirectCallee())
                o["c"] = callee(f);
            else
                o["fe"] = expr(x->getCallee());
            o["args"] = exprs(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXNoexceptExpr>(e)) return json::Object{{"k", "bool"}, {"v", x->getValue()}};
        if (auto* x = dyn_cast<CXXTypeidExpr>(e))
        {
            json::Object o{{"k", "typeid"}};
            if (x->isTypeOperand()) o["ty"] = ty(x->getTypeOperand(C));
            else o["e"] = expr(x->getExprOperand());
            return o;
        }
        return unk(e->getStmtClassName(), e);
    }

    json::Value declref(const ValueDecl* d, const Expr* e)
    {
        if (auto* ec = dyn_cast<EnumConstantDecl>(d))
        {
            auto v = constInt(ec->getInitVal());
            (*v.getAsObject())["enum"] = ec->getNameAsString();
            return v;
        }
        if (auto* f = dyn_cast<FunctionDecl>(d))
        {
            json::Object o{{"k", "fn"}};
            o["c"] = callee(f);
            return o;
        }
        if (auto* b = dyn_cast<BindingDecl>(d))
        {
            return json::Object{{"k", "var"}, {"id", id(b)}, {"n", b->getNameAsString()}};
        }
        if (auto* v = dyn_cast<VarDecl>(d))
        {
            if (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType() && !v->isLocalVarDeclOrParm() && inRoot(v->getLocation()))
            {
                const VarDecl* def = nullptr;
                auto* init         = v->getAnyInitializer(def);
                if (init && def && !init->isValueDependent())
                    if (auto* val = def->evaluateValue(); val && val->isInt()) return constInt(val->getInt());
            }
            if (v->isLocalVarDeclOrParm())
                return json::Object{{"k", "var"}, {"id", id(v)}, {"n", v->getNameAsString()}, {"ty", ty(v->getType())}};
            return json::Object{{"k", "gvar"}, {"q", qname(v)}, {"ty", ty(v->getType())}};
        }
        return unk("declref", e);
    }

    json::Array params(const FunctionDecl* f)
    {
        json::Array a;
        for (auto* p : f->parameters())
        {
            json::Object o{{"id", id(p)}, {"n", p->getNameAsString()}, {"ty", ty(p->getType())}};
            if (p->hasDefaultArg())
            {
                // what a caller gets who leaves the argument out, where it is a plain number
                o["dflt"] = nullptr;
                if (!p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg() && p->getType()->isIntegerType())
                {
                    const Expr*      d = p->getDefaultArg();
                    Expr::EvalResult r;
                    if (d && !d->isValueDependent() && d->EvaluateAsInt(r, C)) o["dflt"] = r.Val.getInt().getExtValue();
                }
            }
            a.push_back(std::move(o));
        }
        return a;
    }

    json::Value lambda(const LambdaExpr* x)
    {
        json::Object o{{"k", "lambda"}, {"l", line(x->getBeginLoc())}};
        const FunctionDecl* op = x->getCallOperator();
        if (auto* t = x->getLambdaClass()->getDependentLambdaCallOperator())
        {
            for (auto* s : t->specializations())
                if (s->getBody()) op = s;
        }
        o["id"]     = usr(x->getLambdaClass());
        o["params"] = params(op);
        json::Array caps;
        for (auto& c : x->captures())
        {
            if (c.capturesThis())
                caps.push_back(json::Object{{"this", true}, {"ref", c.getCaptureKind() != LCK_StarThis}});
            else if (c.capturesVariable())
            {
                json::Object co{{"id", id(c.getCapturedVar())}, {"n", c.getCapturedVar()->getNameAsString()}, {"ref", c.getCaptureKind() == LCK_ByRef}};
                if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()); vd && vd->isInitCapture()) co["init"] = expr(vd->getInit());
                caps.push_back(std::move(co));
            }
        }
        o["caps"] = std::move(caps);
        o["rt"]   = ty(op->getReturnType());
        o["mut"]  = x->isMutable();
        o["body"] = op->getBody() ? stmt(op->getBody()) : json::Value(nullptr);
        return o;
    }

    json::Value vardecl(const VarDecl* v)
    {
        if (auto* d = dyn_cast<DecompositionDecl>(v))
        {
            json::Object o{{"k", "decomp"}, {"id", id(d)}, {"ty", ty(d->getType())}, {"l", line(d->getLocation())}};
            o["init"] = expr(d->getInit());
            json::Array b;
            int i = 0;
            for (auto* x : d->bindings())
            {
                json::Object bo{{"id", id(x)}, {"n", x->getNameAsString()}, {"i", i++}};
                if (auto* be = x->getBinding())
                {
                    if (auto* me = dyn_cast<MemberExpr>(be->IgnoreParenImpCasts())) bo["f"] = me->getMemberDecl()->getNameAsString();
                    if (auto* hv = x->getHoldingVar()) bo["hv"] = id(hv);
                }
                b.push_back(std::move(bo));
            }
            o["b"] = std::move(b);
            return o;
        }
        json::Object o{{"k", "decl"}, {"id", id(v)}, {"n", v->getNameAsString()}, {"ty", ty(v->getType())}, {"l", line(v->getLocation())}};
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getType()->isReferenceType()) o["ref"] = true;
        if (v->getInit()) o["init"] = expr(v->getInit());
        return o;
    }

    json::Value stmt(const Stmt* s)
    {
        if (!s) return nullptr;
        if (auto* x = dyn_cast<CompoundStmt>(s))
        {
            json::Array a;
            for (auto* c : x->body()) a.push_back(stmt(c));
            return json::Object{{"k", "block"}, {"s", std::move(a)}};
        }
        if (auto* x = dyn_cast<Expr>(s))
        {
            json::Object o{{"k", "expr"}, {"l", line(x->getBeginLoc())}};
            o["e"] = expr(x);
            return o;
        }
        if (auto* x = dyn_cast<DeclStmt>(s))
        {
            json::Array a;
            for (auto* d : x->decls())
                if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
            return json::Object{{"k", "block"}, {"s", std::move(a)}, {"noscope", true}};
        }
        if (auto* x = dyn_cast<IfStmt>(s))
        {
            json::Object o{{"k", "if"}, {"l", line(x->getBeginLoc())}};
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->isConstexpr() && !x->getCond()->isValueDependent())
            {
                Expr::EvalResult r;
                if (x->getCond()->EvaluateAsConstantExpr(r, C) && r.Val.isInt())
                {
                    auto* b = r.Val.getInt().getBoolValue() ? x->getThen() : x->getElse();
                    return b ? stmt(b) : json::Value(json::Object{{"k", "block"}, {"s", json::Array()}});
                }
            }
            if (auto* v = x->getConditionVariable()) o["var"] = vardecl(v);
            o["c"] = expr(x->getCond());
            o["t"] = stmt(x->getThen());
            if (x->getElse()) o["e"] = stmt(x->getElse());
            return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s))
        {
            json::Object o{{"k", "while"}, {"l", line(x->getBeginLoc())}};
            if (auto* v = x->getConditionVariable()) o["var"] = vardecl(v);
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s))
        {
            json::Object o{{"k", "do"}, {"l", line(x->getBeginLoc())}};
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s))
        {
            json::Object o{{"k", "for"}, {"l", line(x->getBeginLoc())}};
            o["init"] = x->getInit() ? stmt(x->getInit()) : json::Value(nullptr);
            if (auto* v = x->getConditionVariable()) o["var"] = vardecl(v);
            o["c"]   = x->getCond() ? expr(x->getCond()) : json::Value(nullptr);
            o["inc"] = x->getInc() ? expr(x->getInc()) : json::Value(nullptr);
            o["b"]   = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s))
        {
            json::Object o{{"k", "rfor"}, {"l", line(x->getBeginLoc())}};
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["var"]   = vardecl(x->getLoopVariable());
            o["range"] = expr(x->getRangeInit());
            o["rty"]   = ty(x->getRangeInit()->getType());
            o["b"]     = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<ReturnStmt>(s))
        {
            json::Object o{{"k", "ret"}, {"l", line(x->getBeginLoc())}};
            if (x->getRetValue()) o["e"] = expr(x->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(s)) return json::Object{{"k", "break"}};
        if (isa<ContinueStmt>(s)) return json::Object{{"k", "continue"}};
        if (isa<NullStmt>(s)) return json::Object{{"k", "block"}, {"s", json::Array()}};
        if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
        if (auto* x = dyn_cast<SwitchStmt>(s))
        {
            json::Object o{{"k", "switch"}, {"l", line(x->getBeginLoc())}};
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CaseStmt>(s))
        {
            json::Object o{{"k", "case"}};
            o["v"] = expr(x->getLHS());
            if (x->getRHS()) return unk("caserange", s);
            o["s"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s))
        {
            json::Object o{{"k", "default"}};
            o["s"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto* x = dyn_cast<CXXTryStmt>(s))
        {
            json::Object o{{"k", "try"}, {"l", line(x->getBeginLoc())}};
            o["b"] = stmt(x->getTryBlock());
            json::Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); i++)
            {
                auto* hs = x->getHandler(i);
                json::Object ho;
                if (hs->getExceptionDecl()) ho["var"] = vardecl(hs->getExceptionDecl());
                ho["b"] = stmt(hs->getHandlerBlock());
                h.push_back(std::move(ho));
            }
            o["h"] = std::move(h);
            return o;
        }
        return unk(s->getStmtClassName(), s);
    }

    std::string access(AccessSpecifier a) { return a == AS_public ? "public" : a == AS_protected ? "protected" : a == AS_private ? "private" : "none"; }

    void dumpFunction(const FunctionDecl* f)
    {
        if (f->isDependentContext() || !inRoot(f->getLocation())) return;
        if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda()) return;
        std::string u = usr(f);
        const FunctionDecl* def = nullptr;
        bool has = f->hasBody(def);
        bool defaulted = f->isDefaulted();
        if (!has && !f->isPureVirtual() && !f->isDeleted() && !defaulted && f->getTemplateInstantiationPattern() == nullptr) { /* declaration only */ }
        if (has) f = def;
        std::string key = u + (has ? "#d" : "#n");
        if (seenF.count(u + "#d") || !seenF.insert(key).second) return;
        json::Object o;
        o["id"]   = u;
        o["q"]    = qname(f);
        o["n"]    = f->getNameAsString();
        o["file"] = fileOf(f->getLocation());
        o["l"]    = line(f->getLocation());
        o["el"]   = line(f->getEndLoc());
        o["rt"]   = ty(f->getReturnType());
        o["ty"]   = ty(f->getType());
        o["params"] = params(f);
        if (f->isDeleted()) o["deleted"] = true;
        if (f->isDefaulted()) o["defaulted"] = true;
        if (f->isImplicit()) o["implicit"] = true;
        if (f->isTemplateInstantiation()) o["inst"] = true;
        o["access"] = access(f->getAccess());
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = ty(C.getRecordType(m->getParent()));
            o["ct"]  = tmplName(m->getParent());
            if (m->isVirtual()) o["virt"] = true;
            if (m->isPureVirtual()) o["pure"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
            json::Array ov;
            for (auto* b : m->overridden_methods()) ov.push_back(usr(b));
            o["over"] = std::move(ov);
            if (isa<CXXConversionDecl>(m)) o["conv"] = true;
            if (auto* c = dyn_cast<CXXConstructorDecl>(m))
            {
                o["isctor"] = true;
                if (c->isCopyConstructor()) o["copy"] = true;
                if (c->isMoveConstructor()) o["move"] = true;
                if (c->isExplicit()) o["explicit"] = true;
                json::Array in;
                if (has)
                    for (auto* i : c->inits())
                    {
                        json::Object io;
                        if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                        else if (i->isDelegatingInitializer()) io["deleg"] = true;
                        else if (i->getAnyMember())
                        {
                            io["f"]   = i->getAnyMember()->getNameAsString();
                            io["rec"] = ty(C.getRecordType(cast<CXXRecordDecl>(i->getAnyMember()->getParent())));
                            io["fty"] = ty(i->getAnyMember()->getType());
                        }
                        io["w"] = i->isWritten();
                        io["e"] = expr(i->getInit());
                        in.push_back(std::move(io));
                    }
                o["inits"] = std::move(in);
            }
            if (isa<CXXDestructorDecl>(m)) o["isdtor"] = true;
            if (m->isCopyAssignmentOperator()) o["copyasg"] = true;
            if (m->isMoveAssignmentOperator()) o["moveasg"] = true;
        }
        if (has)
        {
            o["body"] = stmt(f->getBody());
        }
        functions.push_back(std::move(o));
    }

    bool VisitFunctionDecl(FunctionDecl* f)
    {
        dumpFunction(f);
        // definitions in headers: would they clash when the header is included by several translation units?
        if (f->isThisDeclarationADefinition() && inRoot(f->getLocation()) && !f->isDependentContext() &&
            !f->isDefaulted() && !f->isDeleted())
        {
            std::string file = fileOf(f->getLocation());
            if (!llvm::StringRef(file).ends_with(".cpp"))
            {
                json::Object o{{"q", qname(f)}, {"file", file}, {"l", line(f->getLocation())}};
                bool implicitInst = f->getTemplateSpecializationKind() == TSK_ImplicitInstantiation;
                o["ok"] = f->isInlined() || implicitInst || !f->isExternallyVisible() || f->getTemplateSpecializationKind() == TSK_ExplicitInstantiationDefinition;
                if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda()) o["ok"] = true;
                o["tsk"] = int(f->getTemplateSpecializationKind());
                hdrdefs.push_back(std::move(o));
            }
        }
        return true;
    }

    bool VisitVarDecl(VarDecl* v)
    {
        if (!v->isFileVarDecl() || !inRoot(v->getLocation()) || v->isTemplated()) return true;
        std::string file = fileOf(v->getLocation());
        json::Object o{{"q", qname(v)}, {"ty", ty(v->getType())}, {"file", file}, {"l", line(v->getLocation())}};
        bool def  = v->isThisDeclarationADefinition() == VarDecl::Definition;
        o["def"]  = def;
        o["inl"]  = v->isInline() || v->isConstexpr();
        o["ext"]  = v->isExternallyVisible();
        o["const"] = v->getType().isConstQualified();
        globals.push_back(std::move(o));
        return true;
    }

    bool VisitEnumDecl(EnumDecl* e)
    {
        if (!inRoot(e->getLocation()) || e->isDependentContext()) return true;
        json::Array a;
        for (auto* c : e->enumerators())
        {
            llvm::SmallString<32> s;
            c->getInitVal().toString(s, 10);
            a.push_back(json::Object{{"n", c->getNameAsString()}, {"v", s.str().str()}});
        }
        json::Object o{{"q", qname(e)}};
        o["items"] = std::move(a);
        enums.push_back(std::move(o));
        return true;
    }

    bool VisitTypedefNameDecl(TypedefNameDecl* t)
    {
        if (!inRoot(t->getLocation()) || t->getDeclContext()->isDependentContext()) return true;
        if (t->getDescribedTemplate()) return true;
        if (isa<TypeAliasDecl>(t) && cast<TypeAliasDecl>(t)->getDescribedAliasTemplate()) return true;
        json::Object o{{"q", qname(t)}, {"n", t->getNameAsString()}, {"ty", ty(t->getUnderlyingType())}, {"file", fileOf(t->getLocation())}, {"l", line(t->getLocation())}};
        o["ns"] = t->getDeclContext()->isFileContext();
        aliases.push_back(std::move(o));
        return true;
    }

    void dumpRecord(CXXRecordDecl* r)
    {
        if (!r->isCompleteDefinition() || r->isDependentContext() || r->isLambda() || !inRoot(locOf(r))) return;
        std::string n = ty(C.getRecordType(r));
        if (!seenR.insert(n).second) return;
        json::Object o{{"n", n}, {"q", qname(r)}, {"ct", tmplName(r)}, {"file", fileOf(locOf(r))}, {"l", line(locOf(r))}};
        json::Array bases, fields, methods;
        for (auto& b : r->bases())
            bases.push_back(json::Object{{"ty", ty(b.getType())}, {"virt", b.isVirtual()}, {"access", access(b.getAccessSpecifier())}});
        for (auto* f : r->fields())
        {
            json::Object fo{{"f", f->getNameAsString()}, {"ty", ty(f->getType())}, {"access", access(f->getAccess())}, {"l", line(f->getLocation())}};
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fields.push_back(std::move(fo));
        }
        for (auto* m : r->methods()) { methods.push_back(usr(m)); dumpFunction(m); }
        o["bases"]   = std::move(bases);
        o["fields"]  = std::move(fields);
        o["methods"] = std::move(methods);
        o["abstract"]  = r->isAbstract();
        o["moveCtor"]  = r->hasMoveConstructor();
        o["userMove"]  = r->hasUserDeclaredMoveConstructor();
        o["moveAsg"]   = r->hasMoveAssignment();
        o["copyCtor"]  = r->hasUserDeclaredCopyConstructor();
        o["polymorphic"] = r->isPolymorphic();
        functionsOfRecord(r, o);
        records.push_back(std::move(o));
    }
    void functionsOfRecord(CXXRecordDecl* r, json::Object& o)
    {
        json::Array fr;
        for (auto* f : r->friends()) fr.push_back(f->getFriendType() ? ty(f->getFriendType()->getType()) : f->getFriendDecl() ? f->getFriendDecl()->getNameAsString() : "?");
        o["friends"] = std::move(fr);
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        dumpRecord(r);
        return true;
    }
};

struct Consumer : ASTConsumer
{
    CompilerInstance& CI;
    explicit Consumer(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& c) override
    {
        if (CI.getDiagnostics().hasUncompilableErrorOccurred()) return;
        Dumper d(c);
        d.TraverseDecl(c.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(d.functions);
        o["records"]   = std::move(d.records);
        o["aliases"]   = std::move(d.aliases);
        o["globals"]   = std::move(d.globals);
        o["hdrdefs"]   = std::move(d.hdrdefs);
        o["enums"]     = std::move(d.enums);
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        os << json::Value(std::move(o)) << "\n";
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override
    {
        return std::make_unique<Consumer>(ci);
    }
};

} // namespace

int main(int argc, const char** argv)
{
    if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT -- args... file\n"; return 2; }
    Root    = argv[1];
    OutFile = argv[2];
    std::vector<std::string> args;
    for (int i = 4; i < argc - 1; i++) args.push_back(argv[i]);
    std::string file = argv[argc - 1];
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {file});
    tool.clearArgumentsAdjusters();
    tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
