// huira-facts: a clang LibTooling extractor.
//
// Parses one translation unit and writes, as JSON, the type-checked program: every function whose
// definition lies under --root (template *instantiations* and lambdas included), its resolved
// syntax tree and control-flow graph, every class (fields, bases, special members), enum and
// namespace-scope variable. Nothing is executed; nothing is matched textually.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::StringRef;

static llvm::cl::OptionCategory Cat("huira-facts");
static llvm::cl::list<std::string> Roots("root", llvm::cl::cat(Cat), llvm::cl::desc("source roots"));
static llvm::cl::opt<std::string> Out("o", llvm::cl::cat(Cat), llvm::cl::desc("output"));

static void jstr(llvm::raw_ostream& o, StringRef s)
{
    o << '"';
    for (unsigned char c : s) {
        switch (c) {
        case '"': o << "\\\""; break;
        case '\\': o << "\\\\"; break;
        case '\n': o << "\\n"; break;
        case '\t': o << "\\t"; break;
        case '\r': o << "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o << b;
            } else {
                o << c;
            }
        }
    }
    o << '"';
}

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
  public:
    Dumper(ASTContext& c, llvm::raw_ostream& o) : C(c), SM(c.getSourceManager()), O(o), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.PrintCanonicalTypes = true;
        PP.FullyQualifiedName = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldWalkTypesOfTypeLocs() const { return false; }

    ASTContext& C;
    SourceManager& SM;
    llvm::raw_ostream& O;
    PrintingPolicy PP;
    llvm::DenseMap<const Decl*, int> declIds;
    std::vector<const FunctionDecl*> fnRefs; // every function referenced
    std::set<const FunctionDecl*> fnRefSeen;
    std::set<const FunctionDecl*> defined;
    std::vector<const FunctionDecl*> todo;
    std::set<const CXXRecordDecl*> recSeen;
    std::vector<const CXXRecordDecl*> recs;
    std::set<const EnumDecl*> enumSeen;
    std::vector<const EnumDecl*> enums;
    std::vector<const VarDecl*> vars;
    std::set<const VarDecl*> varSeen;
    llvm::DenseMap<const Type*, int> dummy;
    std::map<const void*, int> typeIds;
    std::vector<QualType> typeList;
    std::map<const FunctionDecl*, int> patternInst; // pattern -> number of instantiations

    int id(const Decl* d)
    {
        if (!d)
            return 0;
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end())
            return it->second;
        int n = declIds.size() + 1;
        declIds[d] = n;
        return n;
    }
    int type(QualType t)
    {
        if (t.isNull())
            return -1;
        t = t.getCanonicalType();
        const void* k = t.getAsOpaquePtr();
        auto it = typeIds.find(k);
        if (it != typeIds.end())
            return it->second;
        int n = typeList.size();
        typeIds[k] = n;
        typeList.push_back(t);
        return n;
    }
    bool inRoots(SourceLocation l, std::string* rel = nullptr, unsigned* line = nullptr)
    {
        if (l.isInvalid())
            return false;
        l = SM.getExpansionLoc(l);
        PresumedLoc p = SM.getPresumedLoc(l);
        if (p.isInvalid())
            return false;
        StringRef f = p.getFilename();
        if (line)
            *line = p.getLine();
        for (auto& r : Roots) {
            if (f.starts_with(r)) {
                if (rel) {
                    StringRef x = f.substr(r.size());
                    while (x.starts_with("/"))
                        x = x.substr(1);
                    *rel = x.str();
                }
                return true;
            }
        }
        if (rel)
            *rel = f.str();
        return false;
    }
    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->getNameForDiagnostic(os, PP, true);
        os.flush();
        return s;
    }
    // name without any template arguments
    std::string key(const NamedDecl* d)
    {
        std::string s;
        std::vector<std::string> parts;
        const DeclContext* dc = d->getDeclContext();
        std::string self;
        if (isa<CXXConstructorDecl>(d))
            self = "(ctor)";
        else if (isa<CXXDestructorDecl>(d))
            self = "(dtor)";
        else if (auto* cv = dyn_cast<CXXConversionDecl>(d))
            self = "(conv)";
        else
            self = d->getDeclName().getAsString();
        while (dc && !dc->isTranslationUnit()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
                if (ns->isAnonymousNamespace())
                    parts.push_back("(anon)");
                else if (!ns->isInline())
                    parts.push_back(ns->getName().str());
            } else if (auto* r = dyn_cast<RecordDecl>(dc)) {
                auto* cr = dyn_cast<CXXRecordDecl>(r);
                parts.push_back(cr && cr->isLambda() ? "(lambda)" : r->getName().str());
            } else if (auto* f = dyn_cast<FunctionDecl>(dc)) {
                parts.push_back(f->getDeclName().getAsString() + "()");
            }
            dc = dc->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it)
            s += *it + "::";
        return s + self;
    }

    // ---- declaration collection ------------------------------------------------------------
    void noteFn(const FunctionDecl* f)
    {
        if (!f)
            return;
        f = f->getCanonicalDecl();
        if (fnRefSeen.insert(f).second)
            fnRefs.push_back(f);
    }
    void noteRec(const CXXRecordDecl* r)
    {
        if (!r)
            return;
        r = r->getDefinition() ? r->getDefinition() : r;
        if (r->isDependentContext())
            return;
        if (recSeen.insert(r).second)
            recs.push_back(r);
    }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->isThisDeclarationADefinition() && !f->isDefaulted())
            return true;
        if (!inRoots(f->getLocation()))
            return true;
        if (f->isDependentContext()) {
            patternInst.emplace(f, 0);
            return true;
        }
        addDef(f);
        return true;
    }
    void addDef(const FunctionDecl* f)
    {
        if (defined.insert(f->getCanonicalDecl()).second) {
            todo.push_back(f);
            noteFn(f);
        }
    }
    bool VisitLambdaExpr(LambdaExpr* e)
    {
        CXXMethodDecl* m = e->getCallOperator();
        if (m && !m->isDependentContext() && inRoots(m->getLocation()))
            addDef(m);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (r->isThisDeclarationADefinition() && inRoots(r->getLocation()))
            noteRec(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (e->isThisDeclarationADefinition() && inRoots(e->getLocation()) && enumSeen.insert(e).second)
            enums.push_back(e);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (isa<ParmVarDecl>(v))
            return true;
        if (!v->hasGlobalStorage())
            return true;
        if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType())
            return true;
        if (v->getDescribedVarTemplate())
            return true;
        if (inRoots(v->getLocation()) && varSeen.insert(v->getCanonicalDecl()).second)
            vars.push_back(v);
        return true;
    }

    // ---- statements ------------------------------------------------------------------------
    struct FnCtx {
        llvm::DenseMap<const Stmt*, int> ids;
        int next = 0;
    };
    FnCtx* F = nullptr;

    int lineOf(SourceLocation l) { return l.isValid() ? (int)SM.getExpansionLineNumber(l) : 0; }

    void attrInt(const char* k, long long v) { O << ",\"" << k << "\":" << v; }
    void attrStr(const char* k, StringRef v)
    {
        O << ",\"" << k << "\":";
        jstr(O, v);
    }

    void callee(const FunctionDecl* f)
    {
        if (!f)
            return;
        noteFn(f);
        if (const auto* m = dyn_cast<CXXMethodDecl>(f))
            noteRec(m->getParent());
        attrInt("f", id(f));
    }
    void declAttr(const ValueDecl* d)
    {
        attrInt("d", id(d));
        attrStr("n", d->getDeclName().getAsString());
        if (auto* f = dyn_cast<FunctionDecl>(d)) {
            noteFn(f);
            attrStr("dk", "fn");
            attrInt("f", id(f));
        } else if (isa<ParmVarDecl>(d)) {
            attrStr("dk", "parm");
        } else if (auto* v = dyn_cast<VarDecl>(d)) {
            attrStr("dk", v->hasGlobalStorage() ? (v->isStaticLocal() ? "slocal" : "global") : "var");
            if (v->hasGlobalStorage())
                attrStr("q", key(v));
        } else if (isa<EnumConstantDecl>(d)) {
            attrStr("dk", "enum");
            attrStr("q", key(d));
        } else if (isa<FieldDecl>(d)) {
            attrStr("dk", "field");
        } else if (auto* b = dyn_cast<BindingDecl>(d)) {
            attrStr("dk", "bind");
        } else {
            attrStr("dk", "other");
        }
    }

    void child(const Stmt* s, const char* role = nullptr)
    {
        if (!first)
            O << ',';
        first = false;
        stmt(s, role);
    }
    bool first = true;

    void varDecl(const VarDecl* v, const char* role = nullptr)
    {
        if (!first)
            O << ',';
        first = false;
        O << "{\"k\":\"Var\",\"l\":" << lineOf(v->getLocation()) << ",\"t\":" << type(v->getType());
        attrInt("d", id(v));
        attrStr("n", v->getNameAsString());
        if (v->isStaticLocal())
            attrInt("static", 1);
        if (v->getTLSKind() != VarDecl::TLS_None)
            attrInt("tls", 1);
        if (v->isConstexpr())
            attrInt("constexpr", 1);
        if (role)
            attrStr("r", role);
        O << ",\"c\":[";
        bool sv = first;
        first = true;
        if (v->hasInit())
            child(v->getInit(), "init");
        first = sv;
        O << ']';
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            O << ",\"b\":[";
            bool f1 = true;
            for (auto* b : dd->bindings()) {
                if (!f1)
                    O << ',';
                f1 = false;
                O << "{\"d\":" << id(b) << ",\"n\":";
                jstr(O, b->getNameAsString());
                O << ",\"t\":" << type(b->getType()) << ",\"c\":[";
                bool sv2 = first;
                first = true;
                if (b->getBinding())
                    child(b->getBinding());
                first = sv2;
                O << "]}";
            }
            O << ']';
        }
        O << '}';
        first = false;
    }

    void stmt(const Stmt* s, const char* role)
    {
        if (!s) {
            O << "null";
            return;
        }
        // Transparent nodes
        if (auto* e = dyn_cast<ExprWithCleanups>(s))
            return alias(s, e->getSubExpr(), role);
        if (auto* e = dyn_cast<ParenExpr>(s))
            return alias(s, e->getSubExpr(), role);
        if (auto* e = dyn_cast<ConstantExpr>(s))
            return alias(s, e->getSubExpr(), role);
        if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
            return alias(s, e->getReplacement(), role);
        if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s))
            return alias(s, e->getSubExpr(), role);
        if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s))
            return alias(s, e->getSubExpr(), role);
        if (auto* e = dyn_cast<CXXDefaultArgExpr>(s))
            return alias(s, e->getExpr(), role, true);
        if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s))
            return alias(s, e->getSemanticForm(), role);
        if (auto* e = dyn_cast<OpaqueValueExpr>(s))
            if (e->getSourceExpr())
                return alias(s, e->getSourceExpr(), role);

        int my = F->next++;
        F->ids[s] = my;
        O << "{\"k\":";
        jstr(O, s->getStmtClassName());
        O << ",\"i\":" << my << ",\"l\":" << lineOf(s->getBeginLoc());
        const Expr* e = dyn_cast<Expr>(s);
        if (e) {
            O << ",\"t\":" << type(e->getType());
            if (e->isGLValue())
                O << ",\"lv\":1";
            constVal(e);
        }
        if (role)
            attrStr("r", role);

        if (auto* x = dyn_cast<DeclRefExpr>(s)) {
            declAttr(x->getDecl());
        } else if (auto* x = dyn_cast<MemberExpr>(s)) {
            declAttr(x->getMemberDecl());
            if (x->isArrow())
                attrInt("arrow", 1);
            if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl())) {
                attrInt("cls", id(fd->getParent()));
                if (fd->isMutable())
                    attrInt("mutable", 1);
            }
        } else if (auto* x = dyn_cast<CallExpr>(s)) {
            callee(x->getDirectCallee());
            if (auto* oc = dyn_cast<CXXOperatorCallExpr>(s))
                attrStr("op", getOperatorSpelling(oc->getOperator()));
            if (auto* mc = dyn_cast<CXXMemberCallExpr>(s)) {
                if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens()))
                    if (me->hasQualifier())
                        attrInt("nonvirt", 1);
            }
        } else if (auto* x = dyn_cast<CXXConstructExpr>(s)) {
            callee(x->getConstructor());
            if (x->isElidable())
                attrInt("elide", 1);
            if (x->requiresZeroInitialization())
                attrInt("zero", 1);
        } else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
            callee(x->getConstructor());
        } else if (auto* x = dyn_cast<BinaryOperator>(s)) {
            attrStr("op", x->getOpcodeStr());
        } else if (auto* x = dyn_cast<UnaryOperator>(s)) {
            attrStr("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
            if (x->isPostfix())
                attrInt("post", 1);
        } else if (auto* x = dyn_cast<CastExpr>(s)) {
            attrStr("ck", x->getCastKindName());
        } else if (auto* x = dyn_cast<IntegerLiteral>(s)) {
            llvm::SmallString<32> b;
            x->getValue().toString(b, 10, x->getType()->isSignedIntegerType());
            O << ",\"v\":" << b;
        } else if (auto* x = dyn_cast<FloatingLiteral>(s)) {
            attrStr("v", fl(x->getValue()));
        } else if (auto* x = dyn_cast<StringLiteral>(s)) {
            if (x->getCharByteWidth() == 1)
                attrStr("v", x->getString());
        } else if (auto* x = dyn_cast<CharacterLiteral>(s)) {
            O << ",\"v\":" << x->getValue();
        } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(s)) {
            O << ",\"v\":" << (x->getValue() ? 1 : 0);
        } else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            attrInt("trait", x->getKind());
            attrInt("tt", type(x->getTypeOfArgument()));
        } else if (auto* x = dyn_cast<IfStmt>(s)) {
            if (x->isConstexpr())
                attrInt("constexpr", 1);
        } else if (auto* x = dyn_cast<GotoStmt>(s)) {
            attrStr("n", x->getLabel()->getName());
        } else if (auto* x = dyn_cast<LabelStmt>(s)) {
            attrStr("n", x->getName());
        } else if (auto* x = dyn_cast<CXXNewExpr>(s)) {
            attrInt("at", type(x->getAllocatedType()));
            if (x->isArray())
                attrInt("array", 1);
        } else if (auto* x = dyn_cast<CXXDeleteExpr>(s)) {
            if (x->isArrayForm())
                attrInt("array", 1);
        } else if (auto* x = dyn_cast<LambdaExpr>(s)) {
            CXXMethodDecl* m = x->getCallOperator();
            // generic lambda: use the instantiations
            attrInt("lam", id(m));
            O << ",\"lams\":[";
            bool f1 = true;
            if (FunctionTemplateDecl* ft = x->getLambdaClass()->getDependentLambdaCallOperator()) {
                for (FunctionDecl* sp : ft->specializations()) {
                    if (!f1)
                        O << ',';
                    f1 = false;
                    O << id(sp);
                    if (sp->getDefinition())
                        addDef(sp->getDefinition());
                }
            } else {
                O << id(m);
                if (!m->isDependentContext())
                    addDef(m);
            }
            O << "]";
            O << ",\"cap\":[";
            f1 = true;
            auto fi = x->getLambdaClass()->field_begin();
            for (auto& c : x->captures()) {
                if (!f1)
                    O << ',';
                f1 = false;
                O << '{';
                if (c.capturesThis())
                    O << "\"this\":" << (c.getCaptureKind() == LCK_This ? 1 : 2);
                else if (c.capturesVariable())
                    O << "\"d\":" << id(c.getCapturedVar()) << ",\"n\":\""
                      << c.getCapturedVar()->getNameAsString() << "\",\"ref\":"
                      << (c.getCaptureKind() == LCK_ByRef ? 1 : 0) << ",\"t\":"
                      << type(c.getCapturedVar()->getType());
                if (c.isExplicit())
                    O << ",\"x\":1";
                O << '}';
            }
            O << "]";
        } else if (auto* x = dyn_cast<DeclStmt>(s)) {
            (void)x;
        } else if (auto* x = dyn_cast<CXXThrowExpr>(s)) {
            (void)x;
        } else if (auto* x = dyn_cast<CXXCatchStmt>(s)) {
            if (x->getExceptionDecl()) {
                attrInt("d", id(x->getExceptionDecl()));
                attrInt("ct", type(x->getCaughtType()));
            } else {
                attrInt("all", 1);
            }
        } else if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(s)) {
            (void)x;
        } else if (auto* x = dyn_cast<CXXNoexceptExpr>(s)) {
            attrInt("v", x->getValue());
        } else if (auto* x = dyn_cast<InitListExpr>(s)) {
            if (auto* rt = x->getType()->getAsCXXRecordDecl())
                noteRec(rt);
        }

        O << ",\"c\":[";
        bool sv = first;
        first = true;
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            for (auto* d : x->decls()) {
                if (auto* v = dyn_cast<VarDecl>(d))
                    varDecl(v);
            }
        } else if (auto* x = dyn_cast<IfStmt>(s)) {
            if (x->getInit())
                child(x->getInit(), "init");
            if (x->getConditionVariable())
                varDecl(x->getConditionVariable(), "condvar");
            child(x->getCond(), "cond");
            bool constant = false, val = false;
            if (x->isConstexpr()) {
                Expr::EvalResult r;
                if (!x->getCond()->isValueDependent() && x->getCond()->EvaluateAsInt(r, C)) {
                    constant = true;
                    val = r.Val.getInt().getBoolValue();
                }
            }
            if (!constant || val)
                if (x->getThen())
                    child(x->getThen(), "then");
            if (!constant || !val)
                if (x->getElse())
                    child(x->getElse(), "else");
        } else if (auto* x = dyn_cast<ForStmt>(s)) {
            if (x->getInit())
                child(x->getInit(), "init");
            if (x->getConditionVariable())
                varDecl(x->getConditionVariable(), "condvar");
            if (x->getCond())
                child(x->getCond(), "cond");
            if (x->getInc())
                child(x->getInc(), "inc");
            child(x->getBody(), "body");
        } else if (auto* x = dyn_cast<WhileStmt>(s)) {
            if (x->getConditionVariable())
                varDecl(x->getConditionVariable(), "condvar");
            child(x->getCond(), "cond");
            child(x->getBody(), "body");
        } else if (auto* x = dyn_cast<DoStmt>(s)) {
            child(x->getBody(), "body");
            child(x->getCond(), "cond");
        } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            if (x->getInit())
                child(x->getInit(), "init");
            child(x->getRangeStmt(), "range");
            child(x->getBeginStmt(), "begin");
            child(x->getEndStmt(), "end");
            child(x->getCond(), "cond");
            child(x->getInc(), "inc");
            child(x->getLoopVarStmt(), "var");
            child(x->getBody(), "body");
        } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
            if (x->getInit())
                child(x->getInit(), "init");
            if (x->getConditionVariable())
                varDecl(x->getConditionVariable(), "condvar");
            child(x->getCond(), "cond");
            child(x->getBody(), "body");
        } else if (auto* x = dyn_cast<CaseStmt>(s)) {
            child(x->getLHS(), "lhs");
            if (x->getRHS())
                child(x->getRHS(), "rhs");
            child(x->getSubStmt(), "sub");
        } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            child(x->getTryBlock(), "body");
            for (unsigned i = 0; i < x->getNumHandlers(); ++i)
                child(x->getHandler(i), "handler");
        } else if (auto* x = dyn_cast<CXXCatchStmt>(s)) {
            child(x->getHandlerBlock(), "body");
        } else if (auto* x = dyn_cast<LambdaExpr>(s)) {
            for (auto it = x->capture_init_begin(); it != x->capture_init_end(); ++it)
                child(*it);
        } else if (auto* x = dyn_cast<CXXDefaultInitExpr>(s)) {
            child(x->getExpr());
        } else if (auto* x = dyn_cast<CXXNewExpr>(s)) {
            if (x->isArray() && x->getArraySize())
                child(*x->getArraySize(), "size");
            if (x->getInitializer())
                child(x->getInitializer(), "init");
            for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i)
                child(x->getPlacementArg(i), "place");
        } else if (auto* x = dyn_cast<InitListExpr>(s)) {
            const InitListExpr* sem = x->isSemanticForm() ? x : x->getSemanticForm();
            if (!sem)
                sem = x;
            for (unsigned i = 0; i < sem->getNumInits(); ++i)
                child(sem->getInit(i));
        } else if (isa<UnaryExprOrTypeTraitExpr>(s)) {
            // unevaluated
        } else if (isa<CXXNoexceptExpr>(s)) {
        } else if (isa<RequiresExpr>(s) || isa<ConceptSpecializationExpr>(s)) {
        } else {
            for (const Stmt* c : s->children())
                child(c);
        }
        first = sv;
        O << "]}";
        first = false;
    }
    void alias(const Stmt* outer, const Stmt* inner, const char* role, bool fresh = false)
    {
        int n = F->next;
        stmt(inner, role);
        F->ids[outer] = n;
        (void)fresh;
    }
    std::string fl(const llvm::APFloat& v)
    {
        llvm::APFloat d = v;
        bool li;
        d.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
        char b[64];
        snprintf(b, sizeof b, "%.17g", d.convertToDouble());
        return b;
    }
    void constVal(const Expr* e)
    {
        if (isa<IntegerLiteral>(e) || isa<FloatingLiteral>(e) || isa<CXXBoolLiteralExpr>(e) || isa<CharacterLiteral>(e))
            return;
        if (e->isValueDependent() || e->isTypeDependent())
            return;
        QualType t = e->getType();
        if (!t->isArithmeticType() && !t->isEnumeralType())
            return;
        if (e->isGLValue() && !isa<DeclRefExpr>(e) && !isa<MemberExpr>(e))
            return;
        Expr::EvalResult r;
        if (!e->EvaluateAsRValue(r, C) || r.HasSideEffects)
            return;
        if (r.Val.isInt()) {
            llvm::SmallString<32> b;
            r.Val.getInt().toString(b, 10);
            O << ",\"cv\":" << b;
        } else if (r.Val.isFloat()) {
            attrStr("cf", fl(r.Val.getFloat()));
        }
    }

    // ---- functions -------------------------------------------------------------------------
    void loc(SourceLocation l)
    {
        std::string rel;
        unsigned line = 0;
        inRoots(l, &rel, &line);
        O << ",\"file\":";
        jstr(O, rel);
        O << ",\"line\":" << line;
    }
    void fnHead(const FunctionDecl* f)
    {
        O << "{\"id\":" << id(f);
        attrStr("q", qname(f));
        attrStr("key", key(f));
        attrStr("n", f->getDeclName().getAsString());
        loc(f->getLocation());
        attrInt("ret", type(f->getReturnType()));
        if (f->isVariadic())
            attrInt("variadic", 1);
        O << ",\"params\":[";
        bool f1 = true;
        const FunctionDecl* named = f->getDefinition() ? f->getDefinition() : f;
        for (auto* p : named->parameters()) {
            if (!f1)
                O << ',';
            f1 = false;
            O << "{\"d\":" << id(p) << ",\"n\":";
            jstr(O, p->getNameAsString());
            O << ",\"t\":" << type(p->getType()) << '}';
        }
        O << ']';
        if (auto* fpt = f->getType()->getAs<FunctionProtoType>()) {
            auto es = fpt->getExceptionSpecType();
            if (es == EST_Unevaluated || es == EST_Uninstantiated)
                attrStr("noex", "implicit");
            else if (fpt->isNothrow())
                attrStr("noex", "yes");
        }
        if (f->isExternC())
            attrInt("externc", 1);
        if (f->isInlined())
            attrInt("inline", 1);
        if (f->isConstexpr())
            attrInt("constexpr", 1);
        if (f->isStatic())
            attrInt("static", 1);
        if (f->isDeleted())
            attrInt("deleted", 1);
        if (f->isDefaulted())
            attrInt("defaulted", 1);
        if (f->isImplicit())
            attrInt("implicit", 1);
        if (f->isNoReturn())
            attrInt("noreturn", 1);
        if (f->hasAttr<WarnUnusedResultAttr>())
            attrInt("nodiscard", 1);
        if (f->isTemplateInstantiation())
            attrInt("inst", 1);
        attrInt("linkage", (int)f->getFormalLinkage());
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            attrInt("cls", id(m->getParent()));
            attrStr("clsq", qname(m->getParent()));
            attrStr("clskey", key(m->getParent()));
            attrStr("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
            if (m->isConst())
                attrInt("const", 1);
            if (m->isVirtual())
                attrInt("virtual", 1);
            if (m->isPureVirtual())
                attrInt("pure", 1);
            O << ",\"over\":[";
            f1 = true;
            for (auto* o : m->overridden_methods()) {
                if (!f1)
                    O << ',';
                f1 = false;
                O << id(o);
            }
            O << ']';
            if (isa<CXXConstructorDecl>(m)) {
                auto* cc = cast<CXXConstructorDecl>(m);
                attrStr("sp", cc->isCopyConstructor() ? "copy" : cc->isMoveConstructor() ? "move" : cc->isDefaultConstructor() ? "default" : "ctor");
                if (cc->isExplicit())
                    attrInt("explicit", 1);
                if (cc->isDelegatingConstructor())
                    attrInt("delegating", 1);
            } else if (isa<CXXDestructorDecl>(m)) {
                attrStr("sp", "dtor");
            } else if (m->isCopyAssignmentOperator()) {
                attrStr("sp", "copyassign");
            } else if (m->isMoveAssignmentOperator()) {
                attrStr("sp", "moveassign");
            } else if (m->getParent()->isLambda()) {
                attrStr("sp", "lambda");
            }
        }
        // generic template arguments of the function itself
        if (auto* args = f->getTemplateSpecializationArgs()) {
            O << ",\"targs\":[";
            f1 = true;
            for (unsigned i = 0; i < args->size(); ++i) {
                std::string s;
                llvm::raw_string_ostream os(s);
                args->get(i).print(PP, os, true);
                os.flush();
                if (!f1)
                    O << ',';
                f1 = false;
                jstr(O, s);
            }
            O << ']';
        }
        const FunctionDecl* pat = f->getTemplateInstantiationPattern();
        if (pat) {
            attrInt("pat", id(pat));
        }
    }
    void fnBody(const FunctionDecl* f)
    {
        FnCtx ctx;
        F = &ctx;
        const FunctionDecl* d = f->getDefinition();
        if (!d)
            d = f;
        fnHead(f);
        // where the body is
        std::string rel;
        unsigned line = 0;
        bool in = inRoots(d->getLocation(), &rel, &line);
        (void)in;
        O << ",\"deffile\":";
        jstr(O, rel);
        O << ",\"defline\":" << line << ",\"endline\":" << lineOf(d->getEndLoc());
        if (auto* cc = dyn_cast<CXXConstructorDecl>(d)) {
            O << ",\"inits\":[";
            bool f1 = true;
            for (auto* in2 : cc->inits()) {
                if (!f1)
                    O << ',';
                f1 = false;
                O << '{';
                if (in2->isAnyMemberInitializer())
                    O << "\"field\":" << id(in2->getAnyMember()) << ",\"n\":\""
                      << in2->getAnyMember()->getNameAsString() << "\"";
                else if (in2->isDelegatingInitializer())
                    O << "\"deleg\":1";
                else
                    O << "\"base\":" << type(QualType(in2->getBaseClass(), 0));
                O << ",\"w\":" << (in2->isWritten() ? 1 : 0) << ",\"e\":";
                first = true;
                stmt(in2->getInit(), nullptr);
                O << '}';
            }
            O << ']';
        }
        O << ",\"body\":";
        first = true;
        if (d->hasBody() && d->getBody() && !d->isDefaulted())
            stmt(d->getBody(), nullptr);
        else
            O << "null";
        if (d->hasBody() && d->getBody() && !d->isDefaulted())
            cfg(d);
        O << "}";
        F = nullptr;
        if (pattern(f))
            patternInst[pattern(f)]++;
    }
    const FunctionDecl* pattern(const FunctionDecl* f)
    {
        const FunctionDecl* p = f->getTemplateInstantiationPattern();
        if (!p)
            return nullptr;
        if (p->getDefinition())
            return p->getDefinition();
        return p;
    }
    int sid(const Stmt* s)
    {
        auto it = F->ids.find(s);
        return it == F->ids.end() ? -1 : it->second;
    }
    void cfg(const FunctionDecl* d)
    {
        CFG::BuildOptions bo;
        bo.AddImplicitDtors = true;
        bo.AddInitializers = true;
        bo.AddTemporaryDtors = false;
        bo.AddEHEdges = true;
        bo.PruneTriviallyFalseEdges = true;
        bo.setAllAlwaysAdd();
        std::unique_ptr<CFG> g = CFG::buildCFG(d, d->getBody(), &C, bo);
        if (!g)
            return;
        O << ",\"cfg\":{\"entry\":" << g->getEntry().getBlockID() << ",\"exit\":" << g->getExit().getBlockID() << ",\"b\":[";
        bool f1 = true;
        for (CFGBlock* b : *g) {
            if (!f1)
                O << ',';
            f1 = false;
            O << "{\"id\":" << b->getBlockID() << ",\"e\":[";
            bool f2 = true;
            for (auto& el : *b) {
                std::string item;
                llvm::raw_string_ostream os(item);
                switch (el.getKind()) {
                case CFGElement::Statement:
                case CFGElement::Constructor:
                case CFGElement::CXXRecordTypedCall: {
                    const Stmt* st = el.castAs<CFGStmt>().getStmt();
                    int n = sid(st);
                    if (n < 0) {
                        if (auto* ds = dyn_cast<DeclStmt>(st)) {
                            if (ds->isSingleDecl())
                                os << "[\"decl\"," << id(ds->getSingleDecl()) << "]";
                        }
                    } else {
                        os << n;
                    }
                    break;
                }
                case CFGElement::AutomaticObjectDtor: {
                    auto dt = el.castAs<CFGAutomaticObjDtor>();
                    os << "[\"dtor\"," << id(dt.getVarDecl()) << "]";
                    break;
                }
                case CFGElement::Initializer: {
                    auto in = el.castAs<CFGInitializer>().getInitializer();
                    os << "[\"init\"," << (in->isAnyMemberInitializer() ? id(in->getAnyMember()) : 0) << "," << sid(in->getInit()) << "]";
                    break;
                }
                default: break;
                }
                os.flush();
                if (item.empty())
                    continue;
                if (!f2)
                    O << ',';
                f2 = false;
                O << item;
            }
            O << "],\"s\":[";
            f2 = true;
            for (auto& s : b->succs()) {
                if (!f2)
                    O << ',';
                f2 = false;
                const CFGBlock* r = s.getReachableBlock();
                if (r)
                    O << r->getBlockID();
                else
                    O << "null";
            }
            O << "]";
            if (const Stmt* t = b->getTerminatorStmt()) {
                O << ",\"term\":" << sid(t);
                if (const Stmt* cnd = b->getTerminatorCondition())
                    O << ",\"cond\":" << sid(cnd);
            }
            if (const Stmt* l = b->getLabel())
                O << ",\"label\":" << sid(l);
            if (b->hasNoReturnElement())
                O << ",\"noret\":1";
            O << "}";
        }
        O << "]}";
    }

    // ---- records, enums, variables, types --------------------------------------------------
    void record(const CXXRecordDecl* r)
    {
        O << "{\"id\":" << id(r);
        attrStr("q", qname(r));
        attrStr("key", key(r));
        loc(r->getLocation());
        if (r->isLambda())
            attrInt("lambda", 1);
        if (!r->hasDefinition()) {
            O << "}";
            return;
        }
        attrInt("t", type(C.getRecordType(r)));
        if (r->isUnion())
            attrInt("union", 1);
        if (r->isPolymorphic())
            attrInt("poly", 1);
        if (r->isAbstract())
            attrInt("abstract", 1);
        if (r->hasTrivialDestructor())
            attrInt("trivdtor", 1);
        if (r->isTriviallyCopyable())
            attrInt("trivcopy", 1);
        if (r->isAggregate())
            attrInt("agg", 1);
        O << ",\"bases\":[";
        bool f1 = true;
        for (auto& b : r->bases()) {
            if (!f1)
                O << ',';
            f1 = false;
            auto* br = b.getType()->getAsCXXRecordDecl();
            if (br)
                noteRec(br);
            O << "{\"t\":" << type(b.getType()) << ",\"id\":" << (br ? id(br) : 0) << ",\"acc\":" << (int)b.getAccessSpecifier() << "}";
        }
        O << "],\"fields\":[";
        f1 = true;
        FnCtx ctx;
        FnCtx* save = F;
        F = &ctx;
        bool in = inRoots(r->getLocation());
        for (auto* fd : r->fields()) {
            if (!f1)
                O << ',';
            f1 = false;
            O << "{\"d\":" << id(fd) << ",\"n\":";
            jstr(O, fd->getNameAsString());
            O << ",\"t\":" << type(fd->getType()) << ",\"l\":" << lineOf(fd->getLocation()) << ",\"acc\":" << (int)fd->getAccess();
            if (fd->isMutable())
                O << ",\"mutable\":1";
            if (fd->hasInClassInitializer()) {
                O << ",\"hasinit\":1";
                if (in && fd->getInClassInitializer()) {
                    O << ",\"init\":";
                    bool sv = first;
                    first = true;
                    stmt(fd->getInClassInitializer(), nullptr);
                    first = sv;
                }
            }
            O << "}";
        }
        O << "],\"methods\":[";
        f1 = true;
        for (auto* m : r->methods()) {
            if (in)
                noteFn(m);
            if (!f1)
                O << ',';
            f1 = false;
            O << id(m);
        }
        O << "]";
        F = save;
        // special members
        auto state = [&](const char* n, bool user, bool simple, bool deletedLike) {
            O << ",\"" << n << "\":\"" << (deletedLike ? "deleted" : user ? "user" : simple ? "implicit" : "none") << '"';
        };
        bool cd = false, md = false, cad = false, mad = false;
        bool cu = false, mu = false, cau = false, mau = false;
        for (auto* m : r->methods()) {
            auto* cc = dyn_cast<CXXConstructorDecl>(m);
            bool user = m->isUserProvided();
            if (cc && cc->isCopyConstructor()) { cd |= m->isDeleted(); cu |= user; }
            if (cc && cc->isMoveConstructor()) { md |= m->isDeleted(); mu |= user; }
            if (m->isCopyAssignmentOperator()) { cad |= m->isDeleted(); cau |= user; }
            if (m->isMoveAssignmentOperator()) { mad |= m->isDeleted(); mau |= user; }
        }
        state("cctor", cu, r->hasSimpleCopyConstructor() || r->hasCopyConstructorWithConstParam(), cd || r->defaultedCopyConstructorIsDeleted());
        state("mctor", mu, r->hasMoveConstructor(), md || (r->hasMoveConstructor() && r->defaultedMoveConstructorIsDeleted()));
        state("cassign", cau, r->hasCopyAssignmentWithConstParam(), cad);
        state("massign", mau, r->hasMoveAssignment(), mad);
        state("dtor", r->hasUserDeclaredDestructor() && !r->getDestructor()->isDefaulted(), true, false);
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            O << ",\"targs\":[";
            f1 = true;
            for (auto& a : sp->getTemplateArgs().asArray()) {
                std::string s;
                llvm::raw_string_ostream os(s);
                a.print(PP, os, true);
                os.flush();
                if (!f1)
                    O << ',';
                f1 = false;
                jstr(O, s);
            }
            O << ']';
        }
        O << "}";
    }
    void typeRec(QualType t)
    {
        std::string s = t.getAsString(PP);
        O << "{\"s\":";
        jstr(O, s);
        if (t.isConstQualified())
            O << ",\"const\":1";
        QualType u = t.getUnqualifiedType();
        if (u->isReferenceType()) {
            O << ",\"k\":\"ref\",\"p\":" << type(u->getPointeeType());
            if (u->isRValueReferenceType())
                O << ",\"rv\":1";
        } else if (u->isPointerType()) {
            O << ",\"k\":\"ptr\",\"p\":" << type(u->getPointeeType());
        } else if (u->isBooleanType()) {
            O << ",\"k\":\"bool\"";
        } else if (u->isEnumeralType()) {
            O << ",\"k\":\"enum\",\"e\":" << id(u->getAs<EnumType>()->getDecl());
            if (u->getAs<EnumType>()->getDecl()->isComplete())
                O << ",\"w\":" << C.getTypeSize(u);
        } else if (u->isIntegerType()) {
            O << ",\"k\":\"int\",\"w\":" << C.getTypeSize(u) << ",\"sg\":" << (u->isSignedIntegerType() ? 1 : 0);
        } else if (u->isRealFloatingType()) {
            O << ",\"k\":\"float\",\"w\":" << C.getTypeSize(u);
        } else if (u->isVoidType()) {
            O << ",\"k\":\"void\"";
        } else if (auto* ca = C.getAsConstantArrayType(u)) {
            O << ",\"k\":\"array\",\"p\":" << type(ca->getElementType()) << ",\"n\":" << ca->getSize().getZExtValue();
        } else if (auto* rd = u->getAsCXXRecordDecl()) {
            O << ",\"k\":\"rec\",\"rec\":" << id(rd) << ",\"key\":";
            jstr(O, key(rd));
            noteRec(rd);
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                O << ",\"targs\":[";
                bool f1 = true;
                for (auto& a : sp->getTemplateArgs().asArray()) {
                    if (a.getKind() == TemplateArgument::Pack) {
                        for (auto& b : a.pack_elements()) {
                            if (!f1) O << ',';
                            f1 = false;
                            if (b.getKind() == TemplateArgument::Type) O << type(b.getAsType());
                            else if (b.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> bb; b.getAsIntegral().toString(bb, 10); O << "\"" << bb << "\""; }
                            else O << "null";
                        }
                        continue;
                    }
                    if (!f1) O << ',';
                    f1 = false;
                    if (a.getKind() == TemplateArgument::Type)
                        O << type(a.getAsType());
                    else if (a.getKind() == TemplateArgument::Integral) {
                        llvm::SmallString<32> b;
                        a.getAsIntegral().toString(b, 10);
                        O << "\"" << b << "\"";
                    } else
                        O << "null";
                }
                O << "]";
            }
        } else {
            O << ",\"k\":\"other\"";
        }
        O << "}";
    }

    void run(TranslationUnitDecl* tu)
    {
        TraverseDecl(tu);
        O << "{\"functions\":[\n";
        bool f1 = true;
        for (size_t i = 0; i < todo.size(); ++i) {
            if (!f1)
                O << ",\n";
            f1 = false;
            fnBody(todo[i]);
        }
        O << "\n],\"vars\":[\n";
        f1 = true;
        for (size_t i = 0; i < vars.size(); ++i) {
            const VarDecl* v = vars[i];
            if (!f1)
                O << ",\n";
            f1 = false;
            FnCtx ctx;
            F = &ctx;
            O << "{\"d\":" << id(v);
            attrStr("q", qname(v));
            attrStr("key", key(v));
            attrInt("t", type(v->getType()));
            loc(v->getLocation());
            if (v->isStaticLocal())
                attrInt("slocal", 1);
            if (v->isConstexpr())
                attrInt("constexpr", 1);
            bool inl = false;
            for (auto* rd : v->redecls())
                inl |= rd->isInline();
            if (inl)
                attrInt("inline", 1);
            if (v->getTLSKind() != VarDecl::TLS_None)
                attrInt("tls", 1);
            attrInt("linkage", (int)v->getFormalLinkage());
            if (v->isThisDeclarationADefinition() || v->getDefinition())
                attrInt("def", 1);
            if (isa<VarTemplateSpecializationDecl>(v))
                attrInt("inst", 1);
            if (auto* st = v->getDeclContext())
                if (auto* fd = dyn_cast<FunctionDecl>(st))
                    attrInt("infn", id(fd));
            O << ",\"c\":[";
            first = true;
            if (v->hasInit() && !v->getInit()->isValueDependent())
                child(v->getInit(), "init");
            O << "]}";
            F = nullptr;
        }
        O << "\n],\"records\":[\n";
        f1 = true;
        for (size_t i = 0; i < recs.size(); ++i) {
            if (!f1)
                O << ",\n";
            f1 = false;
            record(recs[i]);
        }
        O << "\n],\"enums\":[\n";
        f1 = true;
        for (auto* e : enums) {
            if (!f1)
                O << ",\n";
            f1 = false;
            O << "{\"id\":" << id(e);
            attrStr("q", qname(e));
            attrStr("key", key(e));
            loc(e->getLocation());
            O << ",\"v\":[";
            bool f2 = true;
            for (auto* k : e->enumerators()) {
                if (!f2)
                    O << ',';
                f2 = false;
                llvm::SmallString<32> b;
                k->getInitVal().toString(b, 10);
                O << "{\"d\":" << id(k) << ",\"n\":";
                jstr(O, k->getName());
                O << ",\"v\":" << b << "}";
            }
            O << "]}";
        }
        O << "\n],\"externs\":[\n";
        f1 = true;
        for (size_t i = 0; i < fnRefs.size(); ++i) {
            if (defined.count(fnRefs[i]))
                continue;
            if (!f1)
                O << ",\n";
            f1 = false;
            fnHead(fnRefs[i]);
            O << "}";
        }
        O << "\n],\"patterns\":[\n";
        f1 = true;
        for (auto& p : patternInst) {
            if (!f1)
                O << ",\n";
            f1 = false;
            O << "{\"id\":" << id(p.first);
            attrStr("key", key(p.first));
            attrStr("q", qname(p.first));
            loc(p.first->getLocation());
            attrInt("line2", lineOf(p.first->getEndLoc()));
            attrInt("inst", p.second);
            if (p.first->isDeleted())
                attrInt("deleted", 1);
            if (p.first->isDefaulted())
                attrInt("defaulted", 1);
            O << "}";
        }
        O << "\n],\"types\":[\n";
        f1 = true;
        for (size_t i = 0; i < typeList.size(); ++i) {
            if (!f1)
                O << ",\n";
            f1 = false;
            QualType t = typeList[i];
            typeRec(t);
        }
        // records reached only through types
        O << "\n],\"records2\":[\n";
        f1 = true;
        size_t base = 0;
        (void)base;
        O << "\n]}\n";
    }
};

class Consumer : public ASTConsumer {
  public:
    explicit Consumer(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& c) override
    {
        std::error_code ec;
        llvm::raw_fd_ostream os(Out, ec);
        if (ec) {
            llvm::errs() << "cannot write " << Out << "\n";
            exit(3);
        }
        os.SetBufferSize(1 << 20);
        Dumper d(c, os);
        d.run(c.getTranslationUnitDecl());
    }
    CompilerInstance& CI;
};
class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override
    {
        return std::make_unique<Consumer>(ci);
    }
};
} // namespace

int main(int argc, const char** argv)
{
    auto op = clang::tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!op) {
        llvm::errs() << op.takeError();
        return 3;
    }
    clang::tooling::ClangTool tool(op->getCompilations(), op->getSourcePathList());
    return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
