// Typed-AST dumper: parses one translation unit with clang and prints, as JSON,
// every function with a body that is written in one of the given source
// prefixes (library headers and driver), fully resolved and instantiated.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> prefixes;

struct Dumper : RecursiveASTVisitor<Dumper> {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    json::Array functions, records, vars, types, fnrefs;
    std::map<const void *, int> ids;
    std::map<std::string, int> typeids;
    std::set<const Decl *> seenfn, seenrec, seenvar, seenref;
    std::vector<const CXXRecordDecl *> recqueue;
    std::vector<const FunctionDecl *> fnqueue;
    std::map<std::string, int> files;
    json::Array filenames;

    Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    int id(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        int n = (int)ids.size() + 1;
        ids[d] = n;
        return n;
    }
    int file(StringRef f) {
        auto it = files.find(f.str());
        if (it != files.end()) return it->second;
        int n = (int)files.size();
        files[f.str()] = n;
        filenames.push_back(f.str());
        return n;
    }
    bool inProject(SourceLocation l) {
        if (l.isInvalid()) return false;
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        if (p.isInvalid()) return false;
        StringRef f = p.getFilename();
        for (auto &x : prefixes) if (f.starts_with(x)) return true;
        return false;
    }
    // small generic algorithms and functors of the standard library are analysed from their bodies
    bool inAlgo(SourceLocation l) {
        if (l.isInvalid()) return false;
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        if (p.isInvalid()) return false;
        StringRef f = p.getFilename();
        for (auto x : {"bits/stl_algo.h", "bits/stl_algobase.h", "bits/stl_numeric.h", "bits/stl_function.h",
                       "bits/predefined_ops.h"})
            if (f.ends_with(x)) return true;
        return false;
    }
    void loc(json::Object &o, SourceLocation l) {
        if (l.isInvalid()) return;
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        if (p.isInvalid()) return;
        o["L"] = (int)p.getLine();
        o["F"] = file(p.getFilename());
    }
    int type(QualType q) {
        q = q.getCanonicalType();
        std::string key = q.getAsString(PP);
        // lambda types print alike, distinguish them
        const Type *t = q.getTypePtr();
        if (auto *r = t->getAsCXXRecordDecl()) key += "#" + std::to_string(id(r));
        auto it = typeids.find(key);
        if (it != typeids.end()) return it->second;
        int n = (int)types.size();
        typeids[key] = n;
        types.push_back(nullptr);
        json::Object o;
        o["s"] = q.getAsString(PP);
        if (q.isConstQualified()) o["const"] = true;
        if (t->isDependentType()) o["k"] = "dep";
        else if (t->isBooleanType()) o["k"] = "bool";
        else if (t->isEnumeralType()) { o["k"] = "enum"; }
        else if (t->isIntegerType()) {
            o["k"] = "int";
            o["bits"] = (int)C.getTypeSize(q);
            o["uns"] = t->isUnsignedIntegerType();
        } else if (t->isRealFloatingType()) {
            o["k"] = "float";
            o["bits"] = (int)C.getTypeSize(q);
        } else if (t->isReferenceType()) {
            o["k"] = "ref";
            o["sub"] = type(t->getPointeeType());
            o["rv"] = t->isRValueReferenceType();
        } else if (t->isPointerType()) {
            o["k"] = "ptr";
            o["sub"] = type(t->getPointeeType());
        } else if (t->isNullPtrType()) o["k"] = "nullptr";
        else if (t->isVoidType()) o["k"] = "void";
        else if (auto *a = C.getAsConstantArrayType(q)) {
            o["k"] = "arr";
            o["sub"] = type(a->getElementType());
            o["n"] = (int64_t)a->getSize().getZExtValue();
        } else if (auto *r = t->getAsCXXRecordDecl()) {
            o["k"] = "rec";
            o["qn"] = r->getQualifiedNameAsString();
            o["rid"] = id(r);
            if (r->isLambda()) o["lambda"] = true;
            if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
                json::Array ta;
                for (auto &a : s->getTemplateArgs().asArray()) targ(ta, a);
                o["targs"] = std::move(ta);
            }
            if (auto *par = dyn_cast<CXXRecordDecl>(r->getDeclContext())) {
                o["outer"] = type(C.getRecordType(par));
            }
            recqueue.push_back(r);
        } else if (t->isFunctionType()) o["k"] = "func";
        else if (t->isMemberPointerType()) o["k"] = "memptr";
        else o["k"] = "other";
        types[n] = std::move(o);
        return n;
    }
    void targ(json::Array &ta, const TemplateArgument &a) {
        switch (a.getKind()) {
        case TemplateArgument::Type: ta.push_back(json::Object{{"t", type(a.getAsType())}}); break;
        case TemplateArgument::Integral: ta.push_back(json::Object{{"i", a.getAsIntegral().getExtValue()}}); break;
        case TemplateArgument::Pack: for (auto &b : a.pack_elements()) targ(ta, b); break;
        default: ta.push_back(nullptr);
        }
    }
    // a reference to a function: resolved name and signature, kept in a table
    int fnref(const FunctionDecl *f) {
        int n = id(f);
        if (!seenref.insert(f->getCanonicalDecl()).second) return n;
        json::Object o;
        o["id"] = n;
        o["qn"] = f->getQualifiedNameAsString();
        o["name"] = f->getNameAsString();
        json::Array ps;
        for (auto *p : f->parameters()) ps.push_back(type(p->getType()));
        o["ptypes"] = std::move(ps);
        o["ret"] = type(f->getReturnType());
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = type(C.getRecordType(m->getParent()));
            o["static"] = m->isStatic();
            o["mconst"] = m->isConst();
            if (isa<CXXConstructorDecl>(m)) {
                o["kind"] = "ctor";
                auto *c = cast<CXXConstructorDecl>(m);
                if (c->isCopyOrMoveConstructor()) o["copyctor"] = true;
                if (c->isDefaultConstructor()) o["defctor"] = true;
            } else if (isa<CXXDestructorDecl>(m)) o["kind"] = "dtor";
            else if (isa<CXXConversionDecl>(m)) o["kind"] = "conv";
            else o["kind"] = "method";
            if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["copyassign"] = true;
        } else o["kind"] = "function";
        if (f->isDefaulted()) o["defaulted"] = true;
        if (f->isImplicit()) o["implicit"] = true;
        if (f->isVariadic()) o["variadic"] = true;
        if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        if (auto *ta = f->getTemplateSpecializationArgs()) {
            json::Array a;
            for (auto &x : ta->asArray()) targ(a, x);
            o["targs"] = std::move(a);
        }
        if (auto *fpt = f->getType()->getAs<FunctionProtoType>()) {
            if (fpt->hasNoexceptExceptionSpec() && fpt->canThrow() == CT_Cannot) o["noexcept"] = true;
        }
        o["proj"] = inProject(f->getLocation());
        loc(o, f->getLocation());
        if (inAlgo(f->getLocation())) fnqueue.push_back(f);
        fnrefs.push_back(std::move(o));
        return n;
    }
    json::Object var(const VarDecl *v) {
        json::Object o;
        o["id"] = id(v);
        o["name"] = v->getNameAsString();
        o["t"] = type(v->getType());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->hasGlobalStorage()) o["global"] = true;
        if (v->isConstexpr()) o["constexpr"] = true;
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        loc(o, v->getLocation());
        return o;
    }
    json::Value ex(const Expr *e);
    json::Value st(const Stmt *s);
    json::Value vardecl(const VarDecl *v) {
        json::Object o = var(v);
        if (v->getInit()) o["init"] = ex(v->getInit());
        return o;
    }
    void function(const FunctionDecl *f, bool std_ = false) {
        const FunctionDecl *def = nullptr;
        if (!f->hasBody(def) || def != f) {
            // defaulted special members have no body until used
            return;
        }
        if (f->isDependentContext()) return;
        if (f->isTemplated() && f->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
        if (!inProject(f->getLocation()) && !std_) return;
        if (!seenfn.insert(f->getCanonicalDecl()).second) return;
        json::Object o;
        o["id"] = fnref(f);
        o["qn"] = f->getQualifiedNameAsString();
        o["name"] = f->getNameAsString();
        json::Array ps;
        for (auto *p : f->parameters()) ps.push_back(var(p));
        o["params"] = std::move(ps);
        o["ret"] = type(f->getReturnType());
        loc(o, f->getLocation());
        o["inline"] = f->isInlined();
        o["linkage"] = (int)f->getFormalLinkage();
        o["tmplinst"] = f->isTemplateInstantiation();
        if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
            json::Array in;
            for (auto *i : c->inits()) {
                json::Object x;
                if (i->isAnyMemberInitializer()) {
                    x["field"] = id(i->getAnyMember());
                    x["fname"] = i->getAnyMember()->getNameAsString();
                } else if (i->isDelegatingInitializer()) x["deleg"] = true;
                else if (i->isBaseInitializer()) x["base"] = type(QualType(i->getBaseClass(), 0));
                x["init"] = ex(i->getInit());
                x["written"] = i->isWritten();
                in.push_back(std::move(x));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = st(f->getBody());
        functions.push_back(std::move(o));
    }
    void record(const CXXRecordDecl *r) {
        r = r->getDefinition();
        if (!r || r->isDependentContext()) return;
        if (!seenrec.insert(r->getCanonicalDecl()).second) return;
        json::Object o;
        o["rid"] = id(r);
        o["qn"] = r->getQualifiedNameAsString();
        o["proj"] = inProject(r->getLocation());
        o["union"] = r->isUnion();
        loc(o, r->getLocation());
        if (r->isLambda()) o["lambda"] = true;
        if (!inProject(r->getLocation()) && !inAlgo(r->getLocation())) { return; }
        json::Array fs;
        for (auto *f : r->fields()) {
            json::Object x;
            x["id"] = id(f);
            x["name"] = f->getNameAsString();
            x["t"] = type(f->getType());
            x["mutable"] = f->isMutable();
            loc(x, f->getLocation());
            if (f->hasInClassInitializer() && f->getInClassInitializer()) x["init"] = ex(f->getInClassInitializer());
            fs.push_back(std::move(x));
        }
        o["fields"] = std::move(fs);
        json::Array bs;
        for (auto &b : r->bases()) bs.push_back(type(b.getType()));
        o["bases"] = std::move(bs);
        records.push_back(std::move(o));
    }
    bool VisitFunctionDecl(FunctionDecl *f) { function(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (inProject(r->getLocation())) record(r);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr *l) {
        if (inProject(l->getBeginLoc())) { record(l->getLambdaClass()); function(l->getCallOperator()); }
        return true;
    }
    bool VisitVarDecl(VarDecl *v) {
        if (!v->hasGlobalStorage() || isa<ParmVarDecl>(v)) return true;
        if (!inProject(v->getLocation())) return true;
        if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return true;
        if (isa<VarTemplateDecl>(v)) return true;
        json::Object o = var(v);
        o["qn"] = v->getQualifiedNameAsString();
        o["def"] = (int)v->isThisDeclarationADefinition();
        o["member"] = v->isStaticDataMember();
        o["linkage"] = (int)v->getFormalLinkage();
        o["inlinevar"] = v->isInline();
        o["tmpl"] = v->isTemplated() || v->getTemplateSpecializationKind() != TSK_Undeclared ||
            (isa<CXXRecordDecl>(v->getDeclContext()) && isa<ClassTemplateSpecializationDecl>(v->getDeclContext()));
        if (v->getInit() && !v->getInit()->isValueDependent()) o["init"] = ex(v->getInit());
        vars.push_back(std::move(o));
        return true;
    }
};

static const Expr *strip(const Expr *e) {
    for (;;) {
        if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
        else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
        else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
        else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
        else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
        else return e;
    }
}

json::Value Dumper::ex(const Expr *e0) {
    if (!e0) return nullptr;
    const Expr *e = strip(e0);
    json::Object o;
    o["t"] = type(e->getType());
    o["v"] = e->isLValue() ? "l" : e->isXValue() ? "x" : "r";
    loc(o, e->getExprLoc());
    auto args = [&](auto range) {
        json::Array a;
        for (auto *x : range) a.push_back(ex(x));
        return a;
    };
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) {
        o["k"] = "mat";
        o["e"] = ex(x->getSubExpr());
    } else if (auto *x = dyn_cast<IntegerLiteral>(e)) {
        o["k"] = "int";
        llvm::SmallString<32> s;
        x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
        o["val"] = std::string(s);
    } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
        o["k"] = "flt";
        SourceLocation b = SM.getSpellingLoc(x->getBeginLoc());
        std::string txt = Lexer::getSourceText(CharSourceRange::getTokenRange(b), SM, C.getLangOpts()).str();
        o["text"] = txt;
        o["exact"] = x->isExact();
        llvm::SmallString<64> s;
        x->getValue().toString(s, 40);
        o["val"] = std::string(s);
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
        o["k"] = "bool";
        o["val"] = x->getValue();
    } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
        o["k"] = "chr";
        o["val"] = (int)x->getValue();
    } else if (auto *x = dyn_cast<StringLiteral>(e)) {
        o["k"] = "str";
        o["val"] = x->getCharByteWidth() == 1 ? json::fixUTF8(x->getString()) : std::string("?");
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
        o["k"] = "null";
    } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
        o["k"] = "ref";
        const ValueDecl *d = x->getDecl();
        o["name"] = d->getNameAsString();
        if (auto *f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "fn"; o["fn"] = fnref(f); }
        else if (auto *c = dyn_cast<EnumConstantDecl>(d)) {
            o["dk"] = "enum";
            o["qn"] = c->getQualifiedNameAsString();
            o["val"] = c->getInitVal().getExtValue();
        } else if (auto *v = dyn_cast<VarDecl>(d)) {
            o["dk"] = "var";
            o["d"] = id(v);
            if (v->hasGlobalStorage()) {
                o["global"] = true;
                o["qn"] = v->getQualifiedNameAsString();
                if (v->isStaticLocal()) o["static"] = true;
                if (!inProject(v->getLocation())) {
                    Expr::EvalResult r;
                    if (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType() &&
                        e->EvaluateAsInt(r, C)) {
                        llvm::SmallString<32> s;
                        r.Val.getInt().toString(s, 10);
                        o["cval"] = std::string(s);
                    }
                }
            }
            if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        } else if (isa<BindingDecl>(d)) { o["dk"] = "binding"; o["d"] = id(d); }
        else { o["dk"] = "other"; }
    } else if (auto *x = dyn_cast<MemberExpr>(e)) {
        o["k"] = "mem";
        o["arrow"] = x->isArrow();
        o["e"] = ex(x->getBase());
        const ValueDecl *d = x->getMemberDecl();
        o["name"] = d->getNameAsString();
        if (auto *f = dyn_cast<FieldDecl>(d)) { o["d"] = id(f); }
        else if (auto *m = dyn_cast<CXXMethodDecl>(d)) o["fn"] = fnref(m);
        else if (auto *v = dyn_cast<VarDecl>(d)) { o["k"] = "ref"; o["dk"] = "var"; o["d"] = id(v); o["global"] = true; o["qn"] = v->getQualifiedNameAsString(); }
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
        o["k"] = "mcall";
        if (auto *m = x->getMethodDecl()) o["fn"] = fnref(m);
        if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
            o["obj"] = ex(me->getBase());
            o["arrow"] = me->isArrow();
        } else o["k"] = "unk";
        o["args"] = args(x->arguments());
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
        o["k"] = "opcall";
        o["op"] = getOperatorSpelling(x->getOperator());
        if (auto *f = x->getDirectCallee()) {
            o["fn"] = fnref(f);
            o["method"] = isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
        }
        o["args"] = args(x->arguments());
    } else if (auto *x = dyn_cast<CallExpr>(e)) {
        o["k"] = "call";
        if (auto *f = x->getDirectCallee()) o["fn"] = fnref(f);
        else o["callee"] = ex(x->getCallee());
        o["args"] = args(x->arguments());
    } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
        o["k"] = "ctor";
        o["fn"] = fnref(x->getConstructor());
        o["elid"] = x->isElidable();
        o["list"] = x->isListInitialization();
        if (x->requiresZeroInitialization()) o["zero"] = true;
        o["args"] = args(x->arguments());
    } else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
        o["k"] = "unk"; o["cls"] = "inhctor"; (void)x;
    } else if (auto *x = dyn_cast<CastExpr>(e)) {
        o["k"] = "cast";
        o["ck"] = x->getCastKindName();
        o["impl"] = isa<ImplicitCastExpr>(x);
        if (isa<CXXConstCastExpr>(x)) o["constcast"] = true;
        if (isa<CXXReinterpretCastExpr>(x)) o["reinterpret"] = true;
        if (isa<CStyleCastExpr>(x)) o["cstyle"] = true;
        if (auto *f = x->getConversionFunction()) {
            if (auto *ff = dyn_cast<FunctionDecl>(f)) o["conv"] = fnref(ff);
        }
        o["e"] = ex(x->getSubExpr());
    } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
        o["k"] = "un";
        o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
        o["post"] = x->isPostfix();
        o["e"] = ex(x->getSubExpr());
    } else if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
        o["k"] = "casg";
        o["op"] = x->getOpcodeStr();
        o["ct"] = type(x->getComputationResultType());
        o["clt"] = type(x->getComputationLHSType());
        o["a"] = ex(x->getLHS());
        o["b"] = ex(x->getRHS());
    } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
        o["k"] = "bin";
        o["op"] = x->getOpcodeStr();
        o["a"] = ex(x->getLHS());
        o["b"] = ex(x->getRHS());
    } else if (auto *x = dyn_cast<ConditionalOperator>(e)) {
        o["k"] = "cond";
        o["c"] = ex(x->getCond());
        o["a"] = ex(x->getTrueExpr());
        o["b"] = ex(x->getFalseExpr());
    } else if (auto *x = dyn_cast<InitListExpr>(e)) {
        if (x->isSemanticForm() == false && x->getSemanticForm()) return ex(x->getSemanticForm());
        o["k"] = "init";
        json::Array a;
        for (auto *i : x->inits()) a.push_back(ex(i));
        o["args"] = std::move(a);
        if (x->hasArrayFiller()) o["filler"] = ex(x->getArrayFiller());
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
        o["k"] = "zero";
    } else if (isa<CXXThisExpr>(e)) {
        o["k"] = "this";
    } else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
        return ex(x->getExpr());
    } else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) {
        return ex(x->getExpr());
    } else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
        o["k"] = "stdinit";
        o["e"] = ex(x->getSubExpr());
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
        o["k"] = "idx";
        o["a"] = ex(x->getBase());
        o["b"] = ex(x->getIdx());
    } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
        o["k"] = "throw";
        o["e"] = ex(x->getSubExpr());
    } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
        o["k"] = "lambda";
        o["rid"] = id(x->getLambdaClass());
        o["fn"] = fnref(x->getCallOperator());
        record(x->getLambdaClass());
        function(x->getCallOperator());
        json::Array caps;
        auto init = x->capture_init_begin();
        for (auto c = x->capture_begin(); c != x->capture_end(); ++c, ++init) {
            json::Object k;
            k["byref"] = c->getCaptureKind() == LCK_ByRef;
            if (c->capturesThis()) k["this"] = true;
            else if (c->capturesVariable()) {
                k["d"] = id(c->getCapturedVar());
                k["name"] = c->getCapturedVar()->getNameAsString();
            }
            if (*init) k["init"] = ex(*init);
            caps.push_back(std::move(k));
        }
        o["caps"] = std::move(caps);
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
        Expr::EvalResult r;
        if (x->EvaluateAsInt(r, C)) {
            o["k"] = "int";
            llvm::SmallString<32> s;
            r.Val.getInt().toString(s, 10);
            o["val"] = std::string(s);
        } else o["k"] = "unk";
    } else if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) {
        o["k"] = "arrcopy";
        o["e"] = ex(x->getCommonExpr()->getSourceExpr());
    } else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
        if (x->getSourceExpr()) return ex(x->getSourceExpr());
        o["k"] = "unk";
    } else if (auto *x = dyn_cast<PredefinedExpr>(e)) {
        o["k"] = "str"; o["val"] = "func"; (void)x;
    } else if (auto *x = dyn_cast<SourceLocExpr>(e)) {
        o["k"] = "int"; o["val"] = "0"; (void)x;
    } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
        o["k"] = "new";
        if (x->getInitializer()) o["init"] = ex(x->getInitializer());
    } else if (auto *x = dyn_cast<CXXNoexceptExpr>(e)) {
        o["k"] = "bool"; o["val"] = x->getValue();
    } else if (auto *x = dyn_cast<TypeTraitExpr>(e)) {
        o["k"] = "bool"; o["val"] = x->isValueDependent() ? false : x->getValue();
    } else {
        o["k"] = "unk";
        o["cls"] = e->getStmtClassName();
    }
    return o;
}

json::Value Dumper::st(const Stmt *s) {
    if (!s) return nullptr;
    json::Object o;
    loc(o, s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
        o["k"] = "block";
        json::Array a;
        for (auto *c : x->body()) a.push_back(st(c));
        o["s"] = std::move(a);
    } else if (auto *x = dyn_cast<DeclStmt>(s)) {
        o["k"] = "decl";
        json::Array a;
        for (auto *d : x->decls()) {
            if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
            else if (isa<UsingDecl>(d) || isa<TypedefNameDecl>(d) || isa<UsingDirectiveDecl>(d) ||
                     isa<StaticAssertDecl>(d) || isa<UsingShadowDecl>(d) || isa<TagDecl>(d)) {}
            else a.push_back(json::Object{{"unk", d->getDeclKindName()}});
        }
        o["vars"] = std::move(a);
    } else if (auto *x = dyn_cast<IfStmt>(s)) {
        o["k"] = "if";
        if (x->getInit()) o["init"] = st(x->getInit());
        if (x->getConditionVariableDeclStmt()) o["cvar"] = st(x->getConditionVariableDeclStmt());
        o["c"] = ex(x->getCond());
        o["a"] = st(x->getThen());
        if (x->getElse()) o["b"] = st(x->getElse());
    } else if (auto *x = dyn_cast<WhileStmt>(s)) {
        o["k"] = "while";
        if (x->getConditionVariableDeclStmt()) o["cvar"] = st(x->getConditionVariableDeclStmt());
        o["c"] = ex(x->getCond());
        o["body"] = st(x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(s)) {
        o["k"] = "do";
        o["c"] = ex(x->getCond());
        o["body"] = st(x->getBody());
    } else if (auto *x = dyn_cast<ForStmt>(s)) {
        o["k"] = "for";
        if (x->getInit()) o["init"] = st(x->getInit());
        if (x->getConditionVariableDeclStmt()) o["cvar"] = st(x->getConditionVariableDeclStmt());
        if (x->getCond()) o["c"] = ex(x->getCond());
        if (x->getInc()) o["inc"] = ex(x->getInc());
        o["body"] = st(x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
        o["k"] = "rfor";
        o["range"] = st(x->getRangeStmt());
        o["begin"] = st(x->getBeginStmt());
        o["end"] = st(x->getEndStmt());
        o["c"] = ex(x->getCond());
        o["inc"] = ex(x->getInc());
        o["var"] = st(x->getLoopVarStmt());
        o["body"] = st(x->getBody());
    } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
        o["k"] = "ret";
        if (x->getRetValue()) o["e"] = ex(x->getRetValue());
    } else if (isa<BreakStmt>(s)) o["k"] = "break";
    else if (isa<ContinueStmt>(s)) o["k"] = "continue";
    else if (isa<NullStmt>(s)) o["k"] = "null";
    else if (auto *x = dyn_cast<SwitchStmt>(s)) {
        o["k"] = "switch";
        if (x->getInit()) o["init"] = st(x->getInit());
        o["c"] = ex(x->getCond());
        o["body"] = st(x->getBody());
    } else if (auto *x = dyn_cast<CaseStmt>(s)) {
        o["k"] = "case";
        Expr::EvalResult r;
        if (x->getLHS()->EvaluateAsInt(r, C)) o["val"] = r.Val.getInt().getExtValue();
        o["s"] = st(x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
        o["k"] = "default";
        o["s"] = st(x->getSubStmt());
    } else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
        o["k"] = "try";
        o["body"] = st(x->getTryBlock());
        json::Array a;
        for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
            json::Object h;
            auto *c = x->getHandler(i);
            if (!c->getCaughtType().isNull()) h["t"] = type(c->getCaughtType());
            if (c->getExceptionDecl()) h["var"] = var(c->getExceptionDecl());
            h["body"] = st(c->getHandlerBlock());
            a.push_back(std::move(h));
        }
        o["handlers"] = std::move(a);
    } else if (auto *x = dyn_cast<AttributedStmt>(s)) {
        return st(x->getSubStmt());
    } else if (auto *x = dyn_cast<LabelStmt>(s)) {
        o["k"] = "unk"; o["cls"] = "label"; (void)x;
    } else if (auto *x = dyn_cast<Expr>(s)) {
        o["k"] = "expr";
        o["e"] = ex(x);
    } else {
        o["k"] = "unk";
        o["cls"] = s->getStmtClassName();
    }
    return o;
}

struct Cons : ASTConsumer {
    CompilerInstance &CI;
    Cons(CompilerInstance &c) : CI(c) {}
    void HandleTranslationUnit(ASTContext &c) override {
        if (c.getDiagnostics().hasErrorOccurred()) return;
        Dumper d(c);
        d.TraverseDecl(c.getTranslationUnitDecl());
        for (size_t n = 0, m = 0; n < d.recqueue.size() || m < d.fnqueue.size();) {
            while (n < d.recqueue.size()) d.record(d.recqueue[n++]);
            while (m < d.fnqueue.size()) {
                const FunctionDecl *f = d.fnqueue[m++], *def = nullptr;
                if (f->hasBody(def) && def) d.function(def, true);
            }
        }
        json::Object o;
        o["functions"] = std::move(d.functions);
        o["records"] = std::move(d.records);
        o["vars"] = std::move(d.vars);
        o["types"] = std::move(d.types);
        o["fnrefs"] = std::move(d.fnrefs);
        o["files"] = std::move(d.filenames);
        llvm::outs() << json::Value(std::move(o)) << "\n";
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override {
        return std::make_unique<Cons>(ci);
    }
};
int main(int argc, const char **argv) {
    // dump PREFIX[,PREFIX...] -- clang++ args...
    std::string p = argv[1];
    for (size_t i = 0; i <= p.size();) {
        size_t j = p.find(',', i);
        if (j == std::string::npos) j = p.size();
        if (j > i) prefixes.push_back(p.substr(i, j - i));
        i = j + 1;
    }
    std::vector<std::string> args(argv + 2, argv + argc);
    llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation t(args, std::make_unique<Act>(), fm.get());
    return !t.run();
}
