// cxxast: dumps the bodies of functions defined under a source root as JSON.
//
// For one translation unit it prints every non-template function definition
// located under --root (plus, transitively, every template instantiation and
// lambda they call whose body is located under --root) and the fields of every
// record located under --root.  The dump is purely syntactic+resolved types:
// no interpretation of the code happens here.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string g_root;
static std::string g_out;

namespace {
struct Dumper {
    ASTContext &ctx;
    SourceManager &sm;
    PrintingPolicy pp;
    std::map<const Decl *, int> declIds;
    std::map<const FunctionDecl *, bool> queued;
    std::deque<const FunctionDecl *> work;
    std::map<const RecordDecl *, bool> recs;
    Object records;
    Array functions;
    Object vars;

    explicit Dumper(ASTContext &c) : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy())
    {
        pp.SuppressTagKeyword = true;
        pp.SuppressScope = false;
        pp.FullyQualifiedName = true;
        pp.PrintCanonicalTypes = true;
        pp.SuppressDefaultTemplateArgs = true;
        pp.SuppressUnwrittenScope = false;
        pp.SuppressInlineNamespace = PrintingPolicy::SuppressInlineNamespaceMode::All;
        pp.Bool = true;
        pp.AnonymousTagLocations = true;
    }
    int id(const Decl *d)
    {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end()) return it->second;
        int n = (int)declIds.size() + 1;
        declIds[d] = n;
        return n;
    }
    std::string typeStr(QualType t)
    {
        if (t.isNull()) return "?";
        return t.getCanonicalType().getAsString(pp);
    }
    std::string fileOf(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        auto f = sm.getFilename(l);
        return f.str();
    }
    unsigned lineOf(SourceLocation l) { return sm.getExpansionLineNumber(l); }
    bool inRoot(SourceLocation l)
    {
        if (l.isInvalid()) return false;
        std::string f = fileOf(l);
        llvm::SmallString<256> real;
        return f.rfind(g_root, 0) == 0;
    }
    std::string qname(const NamedDecl *d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy q = pp;
        d->printQualifiedName(os, q);
        return s;
    }
    void need(const FunctionDecl *fd)
    {
        const FunctionDecl *def = nullptr;
        if (!fd->hasBody(def) || !def) {
            // implicit instantiation not yet performed has no body
            return;
        }
        if (!inRoot(def->getLocation())) return;
        if (def->isDependentContext()) return;
        if (queued.count(def->getCanonicalDecl() == def ? def : def)) return;
        queued[def] = true;
        work.push_back(def);
    }
    void needRecord(const RecordDecl *rd)
    {
        rd = rd->getDefinition();
        if (!rd || rd->isDependentContext()) return;
        if (recs.count(rd)) return;
        recs[rd] = true;
        // of the records of clang only plain aggregates of the diagnostics export
        static const std::set<std::string> listed = {"clang::tooling::Diagnostic", "clang::tooling::DiagnosticMessage", "clang::tooling::TranslationUnitDiagnostics"};
        if (!inRoot(rd->getLocation()) && !listed.count(qname(rd))) return;
        Array fields;
        for (auto *f : rd->fields()) {
            Object o;
            o["n"] = f->getNameAsString();
            o["t"] = typeStr(f->getType());
            if (f->hasInClassInitializer() && f->getInClassInitializer()) o["init"] = expr(f->getInClassInitializer());
            if (auto *r = f->getType()->getAsRecordDecl()) needRecord(r);
            fields.push_back(std::move(o));
        }
        Array bases;
        if (auto *c = dyn_cast<CXXRecordDecl>(rd))
            for (auto &b : c->bases()) bases.push_back(typeStr(b.getType()));
        Object r;
        r["fields"] = std::move(fields);
        r["bases"] = std::move(bases);
        r["line"] = lineOf(rd->getLocation());
        r["file"] = fileOf(rd->getLocation());
        records[typeStr(QualType(rd->getTypeForDecl(), 0))] = std::move(r);
    }
    std::string fnKey(const FunctionDecl *fd)
    {
        std::string s = qname(fd);
        s += "(";
        bool first = true;
        for (auto *p : fd->parameters()) {
            if (!first) s += ", ";
            first = false;
            s += typeStr(p->getType());
        }
        s += ")";
        if (auto *m = dyn_cast<CXXMethodDecl>(fd))
            if (m->isConst()) s += " const";
        return s;
    }
    Value varInfo(const VarDecl *v)
    {
        Object o;
        o["id"] = id(v);
        o["n"] = v->getNameAsString();
        o["t"] = typeStr(v->getType());
        if (isa<ParmVarDecl>(v)) o["vk"] = "param";
        else if (v->isStaticLocal()) o["vk"] = "static";
        else if (v->isLocalVarDecl()) o["vk"] = "local";
        else o["vk"] = "global";
        return Value(std::move(o));
    }
    void globalVar(const VarDecl *v)
    {
        if (v->isLocalVarDecl() || isa<ParmVarDecl>(v)) return;
        std::string k = qname(v);
        if (vars.get(k)) return;
        Object o;
        o["t"] = typeStr(v->getType());
        vars[k] = Value(std::move(o));
        const VarDecl *def = nullptr;
        if (const Expr *init = v->getAnyInitializer(def)) {
            if (inRoot(v->getLocation())) {
                Object o2;
                o2["t"] = typeStr(v->getType());
                o2["init"] = expr(init);
                vars[k] = Value(std::move(o2));
            }
        }
    }
    Value stmt(const Stmt *s)
    {
        if (!s) return Value(nullptr);
        if (auto *e = dyn_cast<Expr>(s)) return expr(e);
        Object o;
        o["k"] = s->getStmtClassName();
        o["l"] = lineOf(s->getBeginLoc());
        switch (s->getStmtClass()) {
        case Stmt::DeclStmtClass: {
            Array a;
            for (auto *d : cast<DeclStmt>(s)->decls()) {
                if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
                else {
                    Object x;
                    x["k"] = std::string(d->getDeclKindName()) + "Decl";
                    a.push_back(std::move(x));
                }
            }
            o["decls"] = std::move(a);
            break;
        }
        case Stmt::IfStmtClass: {
            auto *i = cast<IfStmt>(s);
            if (i->getInit()) o["init"] = stmt(i->getInit());
            if (i->getConditionVariable()) o["var"] = varDecl(i->getConditionVariable());
            o["cond"] = expr(i->getCond());
            o["then"] = stmt(i->getThen());
            if (i->getElse()) o["else"] = stmt(i->getElse());
            if (i->isConstexpr()) {
                o["constexpr"] = true;
                Expr::EvalResult r;
                if (!i->getCond()->isValueDependent() && i->getCond()->EvaluateAsRValue(r, ctx) && r.Val.isInt())
                    o["cval"] = (int64_t)r.Val.getInt().getExtValue();
            }
            break;
        }
        case Stmt::WhileStmtClass: {
            auto *w = cast<WhileStmt>(s);
            if (w->getConditionVariable()) o["var"] = varDecl(w->getConditionVariable());
            o["cond"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            break;
        }
        case Stmt::DoStmtClass: {
            auto *w = cast<DoStmt>(s);
            o["cond"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            break;
        }
        case Stmt::ForStmtClass: {
            auto *f = cast<ForStmt>(s);
            o["init"] = stmt(f->getInit());
            o["cond"] = f->getCond() ? expr(f->getCond()) : Value(nullptr);
            o["inc"] = f->getInc() ? expr(f->getInc()) : Value(nullptr);
            if (f->getConditionVariable()) o["var"] = varDecl(f->getConditionVariable());
            o["body"] = stmt(f->getBody());
            break;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto *f = cast<CXXForRangeStmt>(s);
            if (f->getInit()) o["init"] = stmt(f->getInit());
            o["var"] = varDecl(f->getLoopVariable());
            o["range"] = expr(f->getRangeInit());
            o["body"] = stmt(f->getBody());
            break;
        }
        case Stmt::ReturnStmtClass: {
            auto *r = cast<ReturnStmt>(s);
            if (r->getRetValue()) o["e"] = expr(r->getRetValue());
            break;
        }
        case Stmt::SwitchStmtClass: {
            auto *w = cast<SwitchStmt>(s);
            o["cond"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            break;
        }
        case Stmt::CaseStmtClass: {
            auto *c = cast<CaseStmt>(s);
            o["lhs"] = expr(c->getLHS());
            o["sub"] = stmt(c->getSubStmt());
            break;
        }
        case Stmt::DefaultStmtClass: {
            o["sub"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
            break;
        }
        default: {
            Array a;
            for (auto *c : s->children()) a.push_back(stmt(c));
            o["c"] = std::move(a);
        }
        }
        return Value(std::move(o));
    }
    Value varDecl(const VarDecl *v)
    {
        Object o;
        o["k"] = "VarDecl";
        o["l"] = lineOf(v->getLocation());
        o["id"] = id(v);
        o["n"] = v->getNameAsString();
        o["t"] = typeStr(v->getType());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getInit()) o["init"] = expr(v->getInit());
        if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            Array a;
            for (auto *b : dd->bindings()) {
                Object x;
                x["n"] = b->getNameAsString();
                x["id"] = id(b);
                if (b->getBinding()) x["e"] = expr(b->getBinding());
                x["t"] = typeStr(b->getType());
                a.push_back(std::move(x));
            }
            o["bindings"] = std::move(a);
        }
        if (auto *r = v->getType().getNonReferenceType()->getAsRecordDecl()) needRecord(r);
        return Value(std::move(o));
    }
    Value callee(const FunctionDecl *fd)
    {
        Object o;
        o["n"] = qname(fd);
        o["key"] = fnKey(fd);
        const FunctionDecl *def = nullptr;
        if (fd->hasBody(def) && def && inRoot(def->getLocation()) && !def->isDependentContext()) {
            o["def"] = id(def);
        }
        if (inRoot(fd->getLocation())) o["root"] = true;
        o["rt"] = typeStr(fd->getReturnType());
        Array pt;
        for (auto *p : fd->parameters()) pt.push_back(typeStr(p->getType()));
        o["pt"] = std::move(pt);
        if (fd->isVariadic()) o["variadic"] = true;
        if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
            o["method"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isVirtual()) o["virtual"] = true;
            o["rec"] = typeStr(ctx.getRecordType(const_cast<CXXRecordDecl *>(m->getParent())));
        }
        if (auto *ta = fd->getTemplateSpecializationArgs()) {
            Array a;
            for (auto &t : ta->asArray()) {
                if (t.getKind() == TemplateArgument::Type) a.push_back(typeStr(t.getAsType()));
                else if (t.getKind() == TemplateArgument::Pack) {
                    for (auto &q : t.pack_elements())
                        if (q.getKind() == TemplateArgument::Type) a.push_back(typeStr(q.getAsType()));
                } else a.push_back("?");
            }
            o["ta"] = std::move(a);
        }
        need(fd);
        return Value(std::move(o));
    }
    Value expr(const Expr *e)
    {
        // transparent wrappers
        while (true) {
            if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else break;
        }
        Object o;
        o["k"] = e->getStmtClassName();
        o["l"] = lineOf(e->getBeginLoc());
        o["t"] = typeStr(e->getType());
        auto kids = [&](const Stmt *s) {
            Array a;
            for (auto *c : s->children()) a.push_back(stmt(c));
            o["c"] = std::move(a);
        };
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
            o["k"] = "DefaultArg";
            o["e"] = expr(x->getExpr());
        } else if (auto *x = dyn_cast<CastExpr>(e)) {
            o["ck"] = x->getCastKindName();
            if (isa<ImplicitCastExpr>(e)) o["implicit"] = true;
            o["e"] = expr(x->getSubExpr());
            if (auto *cf = x->getConversionFunction())
                if (auto *ff = dyn_cast<FunctionDecl>(cf)) o["conv"] = qname(ff);
        } else if (auto *x = dyn_cast<IntegerLiteral>(e)) {
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            o["v"] = s.str().str();
        } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
            o["v"] = std::to_string((int)(signed char)x->getValue());
            if (x->getKind() != CharacterLiteralKind::Ascii) o["v"] = std::to_string(x->getValue());
        } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            o["v"] = x->getValue();
        } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
            o["v"] = x->getValueAsApproximateDouble();
        } else if (auto *x = dyn_cast<clang::StringLiteral>(e)) {
            Array a;
            if (x->getCharByteWidth() == 1)
                for (unsigned char c : x->getBytes()) a.push_back((int)(signed char)c);
            else o["wide"] = true;
            o["bytes"] = std::move(a);
        } else if (auto *x = dyn_cast<PredefinedExpr>(e)) {
            (void)x;
        } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            auto *d = x->getDecl();
            o["n"] = d->getNameAsString();
            o["id"] = id(d);
            if (auto *v = dyn_cast<VarDecl>(d)) {
                if (isa<ParmVarDecl>(v)) o["dk"] = "param";
                else if (v->isStaticLocal()) o["dk"] = "static";
                else if (v->isLocalVarDecl()) o["dk"] = "local";
                else {
                    o["dk"] = "global";
                    o["q"] = qname(v);
                    globalVar(v);
                }
            } else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enum";
                o["q"] = qname(ec);
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                o["v"] = s.str().str();
            } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "fn";
                o["fn"] = callee(f);
            } else if (isa<BindingDecl>(d)) {
                o["dk"] = "binding";
            } else {
                o["dk"] = d->getDeclKindName();
                o["q"] = qname(d);
            }
        } else if (auto *x = dyn_cast<MemberExpr>(e)) {
            auto *d = x->getMemberDecl();
            o["n"] = d->getNameAsString();
            o["arrow"] = x->isArrow();
            o["e"] = expr(x->getBase());
            if (isa<FieldDecl>(d)) {
                o["dk"] = "field";
                o["rec"] = typeStr(ctx.getRecordType(cast<FieldDecl>(d)->getParent()));
                needRecord(cast<FieldDecl>(d)->getParent());
            } else if (auto *f = dyn_cast<CXXMethodDecl>(d)) {
                o["dk"] = "method";
                o["fn"] = callee(f);
            } else if (auto *v = dyn_cast<VarDecl>(d)) {
                o["dk"] = "global";
                o["q"] = qname(v);
                globalVar(v);
            }
        } else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
            return expr(x->getSemanticForm());
        } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
            o["op"] = x->getOpcodeStr().str();
            kids(x);
        } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["prefix"] = x->isPrefix();
            kids(x);
        } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["op"] = getOperatorSpelling(x->getOperator());
            if (auto *f = x->getDirectCallee()) o["fn"] = callee(f);
            Array a;
            for (auto *arg : x->arguments()) a.push_back(expr(arg));
            o["args"] = std::move(a);
        } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
            if (auto *f = x->getMethodDecl()) o["fn"] = callee(f);
            if (auto *b = x->getImplicitObjectArgument()) {
                o["obj"] = expr(b);
                o["objptr"] = b->getType()->isPointerType();
            }
            Array a;
            for (auto *arg : x->arguments()) a.push_back(expr(arg));
            o["args"] = std::move(a);
        } else if (auto *x = dyn_cast<CallExpr>(e)) {
            if (auto *f = x->getDirectCallee()) o["fn"] = callee(f);
            else o["calleeE"] = expr(x->getCallee());
            Array a;
            for (auto *arg : x->arguments()) a.push_back(expr(arg));
            o["args"] = std::move(a);
        } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            o["fn"] = callee(x->getConstructor());
            if (x->isElidable()) o["elidable"] = true;
            if (x->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
            if (x->isListInitialization()) o["list"] = true;
            Array a;
            for (auto *arg : x->arguments()) a.push_back(expr(arg));
            o["args"] = std::move(a);
        } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
            Array caps;
            for (auto &c : x->captures()) {
                Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) {
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["id"] = id(c.getCapturedVar());
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            auto *op = x->getCallOperator();
            Array ps;
            for (auto *p : op->parameters()) ps.push_back(varInfo(p));
            o["params"] = std::move(ps);
            o["rt"] = typeStr(op->getReturnType());
            o["generic"] = x->isGenericLambda();
            o["body"] = stmt(x->getBody());
            o["opid"] = id(op);
        } else if (auto *x = dyn_cast<CXXThisExpr>(e)) {
            o["implicit"] = x->isImplicit();
        } else if (auto *x = dyn_cast<InitListExpr>(e)) {
            const InitListExpr *sem = x->isSemanticForm() ? x : x->getSemanticForm();
            if (!sem) sem = x;
            Array a;
            for (auto *i : sem->inits()) a.push_back(i ? expr(i) : Value(nullptr));
            o["c"] = std::move(a);
        } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            o["kind"] = (int)x->getKind();
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, ctx)) o["v"] = std::to_string(r.Val.getInt().getExtValue());
        } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
            o["at"] = typeStr(x->getAllocatedType());
            if (x->getInitializer()) o["e"] = expr(x->getInitializer());
        } else {
            kids(e);
        }
        if (auto *r = e->getType().getNonReferenceType()->getAsRecordDecl()) needRecord(r);
        return Value(std::move(o));
    }
    void dumpFn(const FunctionDecl *fd)
    {
        Object o;
        o["id"] = id(fd);
        o["n"] = qname(fd);
        o["key"] = fnKey(fd);
        o["file"] = fileOf(fd->getLocation());
        o["line"] = lineOf(fd->getLocation());
        o["endline"] = lineOf(fd->getEndLoc());
        o["rt"] = typeStr(fd->getReturnType());
        Array ps;
        for (auto *p : fd->parameters()) ps.push_back(varInfo(p));
        o["params"] = std::move(ps);
        if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
            o["method"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
            o["rec"] = typeStr(ctx.getRecordType(const_cast<CXXRecordDecl *>(m->getParent())));
            needRecord(m->getParent());
        }
        if (fd->isTemplateInstantiation()) o["inst"] = true;
        if (auto *c = dyn_cast<CXXConstructorDecl>(fd)) {
            Array inits;
            for (auto *i : c->inits()) {
                Object x;
                if (i->isAnyMemberInitializer()) x["field"] = i->getAnyMember()->getNameAsString();
                else if (i->isBaseInitializer()) x["base"] = typeStr(QualType(i->getBaseClass(), 0));
                x["e"] = expr(i->getInit());
                inits.push_back(std::move(x));
            }
            o["ctor"] = true;
            o["inits"] = std::move(inits);
        }
        o["body"] = stmt(fd->getBody());
        functions.push_back(std::move(o));
    }
    void drain()
    {
        while (!work.empty()) {
            auto *f = work.front();
            work.pop_front();
            dumpFn(f);
        }
    }
};

class Finder : public RecursiveASTVisitor<Finder> {
public:
    Dumper &d;
    explicit Finder(Dumper &x) : d(x) {}
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *fd)
    {
        if (fd->isThisDeclarationADefinition() && fd->doesThisDeclarationHaveABody() && d.inRoot(fd->getLocation()) && !fd->isDependentContext()
            && !fd->isTemplated() && !fd->isDefaulted())
            d.need(fd);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (r->isThisDeclarationADefinition() && !r->isLambda() && d.inRoot(r->getLocation())) d.needRecord(r);
        return true;
    }
    bool VisitVarDecl(VarDecl *v)
    {
        if (v->hasGlobalStorage() && !v->isStaticLocal() && d.inRoot(v->getLocation()) && !v->isTemplated()) d.globalVar(v);
        return true;
    }
    bool TraverseLambdaExpr(LambdaExpr *) { return true; }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &ctx) override
    {
        Dumper d(ctx);
        Finder f(d);
        // only walk top-level decls located under the root (fast)
        for (auto *x : ctx.getTranslationUnitDecl()->decls())
            if (d.inRoot(x->getLocation())) f.TraverseDecl(x);
        d.drain();
        Object top;
        top["functions"] = std::move(d.functions);
        top["records"] = std::move(d.records);
        top["vars"] = std::move(d.vars);
        Array inc;
        auto &sm = ctx.getSourceManager();
        for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
            std::string n = it->first.getName().str();
            if (n.rfind(g_root, 0) == 0) inc.push_back(n);
        }
        top["files"] = std::move(inc);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << Value(std::move(top));
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override
    {
        (void)ci;
        return std::make_unique<Consumer>();
    }
};
}

// usage: cxxast ROOT OUT.json SOURCE -- flags...
int main(int argc, char **argv)
{
    if (argc < 5) {
        llvm::errs() << "usage: cxxast ROOT OUT.json SOURCE -- flags...\n";
        return 2;
    }
    g_root = argv[1];
    g_out = argv[2];
    std::string src = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
