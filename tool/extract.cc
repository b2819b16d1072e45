// AST extractor: parses one translation unit of sst-core and writes, one JSON value per line, every function
// definition (including implicit template instantiations), class, enum and namespace-scope/static variable whose
// location lies under a given source prefix.  All names are resolved by Sema; nothing is matched textually.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace clang;

static std::vector<std::string> Prefixes;
static std::string              OutFile;

namespace {

void
jstr(std::string& o, llvm::StringRef s)
{
    o += '"';
    for ( unsigned char c : s ) {
        switch ( c ) {
        case '"':
            o += "\\\"";
            break;
        case '\\':
            o += "\\\\";
            break;
        case '\n':
            o += "\\n";
            break;
        case '\t':
            o += "\\t";
            break;
        case '\r':
            o += "\\r";
            break;
        default:
            if ( c < 0x20 || c >= 0x80 ) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
            else
                o += (char)c;
        }
    }
    o += '"';
}

class Emitter
{
public:
    ASTContext&                                C;
    SourceManager&                             SM;
    PrintingPolicy                             PP;
    std::unique_ptr<MangleContext>             MC;
    std::unordered_map<const Decl*, int>       localIds;
    int                                        nextLocal = 0;
    std::string                                o;
    std::vector<const CXXMethodDecl*>          pendingLambdas;
    std::unordered_map<std::string, bool>      fileOk;
    std::unordered_map<const Decl*, std::string> idCache;
    std::string                                curFile;

    explicit Emitter(ASTContext& C) :
        C(C),
        SM(C.getSourceManager()),
        PP(C.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool               = true;
        PP.SuppressInlineNamespace = true;
        PP.PrintCanonicalTypes = true;
        MC.reset(C.createMangleContext());
    }

    std::string fileOf(SourceLocation L)
    {
        if ( L.isInvalid() ) return "";
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
        if ( P.isInvalid() ) return "";
        return P.getFilename();
    }
    unsigned line(SourceLocation L)
    {
        if ( L.isInvalid() ) return 0;
        return SM.getExpansionLineNumber(L);
    }
    bool inScope(SourceLocation L)
    {
        std::string f  = fileOf(L);
        auto        it = fileOk.find(f);
        if ( it != fileOk.end() ) return it->second;
        bool ok = false;
        llvm::SmallString<256> p(f);
        for ( auto& x : Prefixes )
            if ( llvm::StringRef(p).starts_with(x) ) ok = true;
        fileOk[f] = ok;
        return ok;
    }

    std::string typeStr(QualType T)
    {
        if ( T.isNull() ) return "";
        return T.getCanonicalType().getAsString(PP);
    }

    std::string qname(const NamedDecl* D)
    {
        if ( !D ) return "";
        std::string s;
        {
            llvm::raw_string_ostream os(s);
            D->printQualifiedName(os, PP);
        }
        return s;
    }

    // class name with template arguments dropped
    std::string funcId(const FunctionDecl* F)
    {
        F        = F->getCanonicalDecl();
        auto it = idCache.find(F);
        if ( it != idCache.end() ) return it->second;
        std::string r;
        const auto* M = dyn_cast<CXXMethodDecl>(F);
        if ( M && M->getParent()->isLambda() ) {
            SourceLocation L = SM.getExpansionLoc(M->getParent()->getBeginLoc());
            r = "lambda@" + fileOf(L) + ":" + std::to_string(SM.getExpansionLineNumber(L)) + ":" +
                std::to_string(SM.getExpansionColumnNumber(L));
            // generic lambda / template context instantiations: add type of the operator and context id
            if ( const auto* PF = dyn_cast_or_null<FunctionDecl>(M->getParent()->getDeclContext()) ) {
                if ( PF != F ) r += "@" + funcId(PF);
            }
            r += "#" + typeStr(F->getType());
        }
        else if ( F->isDependentContext() ) {
            r = "dep:" + qname(F) + "#" + typeStr(F->getType());
        }
        else {
            llvm::raw_string_ostream os(r);
            GlobalDecl               GD;
            if ( auto* K = dyn_cast<CXXConstructorDecl>(F) )
                GD = GlobalDecl(K, Ctor_Complete);
            else if ( auto* K = dyn_cast<CXXDestructorDecl>(F) )
                GD = GlobalDecl(K, Dtor_Complete);
            else
                GD = GlobalDecl(F);
            if ( MC->shouldMangleDeclName(F) )
                MC->mangleName(GD, os);
            else
                os << F->getNameAsString();
            os.flush();
            if ( !F->isExternallyVisible() && !(M && !M->getParent()->isInAnonymousNamespace() && false) ) {
                // internal linkage: disambiguate by file
                r += "@" + fileOf(F->getLocation());
            }
        }
        idCache[F] = r;
        return r;
    }

    int localId(const Decl* D)
    {
        D        = D->getCanonicalDecl();
        auto it = localIds.find(D);
        if ( it != localIds.end() ) return it->second;
        return localIds[D] = nextLocal++;
    }

    void S(llvm::StringRef s) { jstr(o, s); }
    void N(long n) { o += std::to_string(n); }
    void open(const char* k, SourceLocation L)
    {
        o += "[\"";
        o += k;
        o += "\",";
        N(line(L));
    }
    void close() { o += ']'; }
    void comma() { o += ','; }

    static bool mutRef(const FunctionDecl* F, unsigned i)
    {
        if ( !F || i >= F->getNumParams() ) return false;
        QualType T = F->getParamDecl(i)->getType();
        return T->isLValueReferenceType() && !T->getPointeeType().isConstQualified();
    }
    void arg(const FunctionDecl* F, unsigned i, const Expr* e)
    {
        if ( mutRef(F, i) ) {
            open("byref", e->getBeginLoc());
            comma();
            E(e);
            close();
        }
        else
            E(e);
    }
    template <typename X>
    void argList(const FunctionDecl* F, const X* x)
    {
        o += '[';
        for ( unsigned i = 0; i < x->getNumArgs(); ++i ) {
            if ( i ) o += ',';
            arg(F, i, x->getArg(i));
        }
        o += ']';
    }

    template <typename R>
    void exprList(R&& range)
    {
        o += '[';
        bool first = true;
        for ( const Stmt* e : range ) {
            if ( !first ) o += ',';
            first = false;
            E(e);
        }
        o += ']';
    }

    void varDecl(const VarDecl* V)
    {
        open("var", V->getLocation());
        comma();
        N(localId(V));
        comma();
        S(V->getNameAsString());
        comma();
        S(typeStr(V->getType()));
        comma();
        if ( const auto* DD = dyn_cast<DecompositionDecl>(V) ) {
            if ( V->getInit() )
                E(V->getInit());
            else
                o += "null";
            comma();
            o += "\"decomp\",[";
            bool first = true;
            for ( auto* B : DD->bindings() ) {
                if ( !first ) o += ',';
                first = false;
                o += '[';
                N(localId(B));
                comma();
                S(B->getNameAsString());
                comma();
                S(typeStr(B->getType()));
                o += ']';
            }
            o += ']';
        }
        else {
            if ( V->getInit() )
                E(V->getInit());
            else
                o += "null";
            comma();
            o += V->isStaticLocal() ? (V->getTSCSpec() != TSCS_unspecified ? "\"tls\"" : "\"static\"") : "\"auto\"";
        }
        close();
    }

    void callee(const FunctionDecl* F)
    {
        S(qname(F));
        comma();
        S(funcId(F));
        if ( const auto* M = dyn_cast<CXXMethodDecl>(F) )
            if ( M->getParent()->isLambda() ) pendingLambdas.push_back(M);
    }

    void E(const Stmt* s)
    {
        if ( !s ) {
            o += "null";
            return;
        }
        // transparent nodes
        if ( auto* x = dyn_cast<ParenExpr>(s) ) return E(x->getSubExpr());
        if ( auto* x = dyn_cast<ImplicitCastExpr>(s) ) {
            if ( x->getCastKind() == CK_DerivedToBase || x->getCastKind() == CK_UncheckedDerivedToBase )
                return E(x->getSubExpr());
            return E(x->getSubExpr());
        }
        if ( auto* x = dyn_cast<ExprWithCleanups>(s) ) return E(x->getSubExpr());
        if ( auto* x = dyn_cast<MaterializeTemporaryExpr>(s) ) return E(x->getSubExpr());
        if ( auto* x = dyn_cast<CXXBindTemporaryExpr>(s) ) return E(x->getSubExpr());
        if ( auto* x = dyn_cast<ConstantExpr>(s) ) return E(x->getSubExpr());
        if ( auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(s) ) return E(x->getReplacement());
        if ( auto* x = dyn_cast<CXXDefaultArgExpr>(s) ) return E(x->getExpr());
        if ( auto* x = dyn_cast<CXXDefaultInitExpr>(s) ) return E(x->getExpr());
        if ( auto* x = dyn_cast<CXXStdInitializerListExpr>(s) ) return E(x->getSubExpr());
        if ( auto* x = dyn_cast<AttributedStmt>(s) ) return E(x->getSubStmt());
        if ( auto* x = dyn_cast<OpaqueValueExpr>(s) ) return E(x->getSourceExpr());
        if ( auto* x = dyn_cast<CXXRewrittenBinaryOperator>(s) ) return E(x->getSemanticForm());
        if ( auto* x = dyn_cast<ArrayInitLoopExpr>(s) ) return E(x->getCommonExpr());

        SourceLocation L = s->getBeginLoc();

        switch ( s->getStmtClass() ) {
        case Stmt::CompoundStmtClass:
            open("seq", L);
            comma();
            exprList(cast<CompoundStmt>(s)->body());
            close();
            return;
        case Stmt::NullStmtClass:
            open("null", L);
            close();
            return;
        case Stmt::IfStmtClass:
        {
            auto* x = cast<IfStmt>(s);
            if ( x->isConstexpr() && x->getCond() && !x->getCond()->isValueDependent() ) {
                // keep only the selected branch
                Expr::EvalResult R;
                if ( x->getCond()->EvaluateAsRValue(R, C) && R.Val.isInt() ) {
                    bool b = R.Val.getInt().getBoolValue();
                    open("seq", L);
                    o += ",[";
                    if ( x->getInit() ) {
                        E(x->getInit());
                        comma();
                    }
                    const Stmt* br = b ? x->getThen() : x->getElse();
                    if ( br )
                        E(br);
                    else {
                        open("null", L);
                        close();
                    }
                    o += "]]";
                    return;
                }
            }
            open("if", L);
            comma();
            E(x->getInit());
            comma();
            if ( x->getConditionVariable() )
                varDecl(x->getConditionVariable());
            else
                o += "null";
            comma();
            E(x->getCond());
            comma();
            E(x->getThen());
            comma();
            E(x->getElse());
            close();
            return;
        }
        case Stmt::ForStmtClass:
        {
            auto* x = cast<ForStmt>(s);
            open("for", L);
            comma();
            E(x->getInit());
            comma();
            E(x->getCond());
            comma();
            E(x->getInc());
            comma();
            E(x->getBody());
            close();
            return;
        }
        case Stmt::WhileStmtClass:
        {
            auto* x = cast<WhileStmt>(s);
            open("while", L);
            comma();
            if ( x->getConditionVariable() )
                varDecl(x->getConditionVariable());
            else
                o += "null";
            comma();
            E(x->getCond());
            comma();
            E(x->getBody());
            close();
            return;
        }
        case Stmt::DoStmtClass:
        {
            auto* x = cast<DoStmt>(s);
            open("do", L);
            comma();
            E(x->getBody());
            comma();
            E(x->getCond());
            close();
            return;
        }
        case Stmt::CXXForRangeStmtClass:
        {
            auto* x = cast<CXXForRangeStmt>(s);
            open("rfor", L);
            comma();
            if ( x->getLoopVariable() )
                varDecl(x->getLoopVariable());
            else
                o += "null";
            comma();
            E(x->getRangeInit());
            comma();
            E(x->getBody());
            close();
            return;
        }
        case Stmt::SwitchStmtClass:
        {
            auto* x = cast<SwitchStmt>(s);
            open("switch", L);
            comma();
            E(x->getInit());
            comma();
            if ( x->getConditionVariable() )
                varDecl(x->getConditionVariable());
            else
                o += "null";
            comma();
            E(x->getCond());
            comma();
            E(x->getBody());
            close();
            return;
        }
        case Stmt::CaseStmtClass:
        {
            auto* x = cast<CaseStmt>(s);
            open("case", L);
            comma();
            E(x->getLHS());
            comma();
            E(x->getSubStmt());
            close();
            return;
        }
        case Stmt::DefaultStmtClass:
            open("default", L);
            comma();
            E(cast<DefaultStmt>(s)->getSubStmt());
            close();
            return;
        case Stmt::BreakStmtClass:
            open("break", L);
            close();
            return;
        case Stmt::ContinueStmtClass:
            open("continue", L);
            close();
            return;
        case Stmt::ReturnStmtClass:
            open("ret", L);
            comma();
            E(cast<ReturnStmt>(s)->getRetValue());
            close();
            return;
        case Stmt::GotoStmtClass:
            open("goto", L);
            comma();
            S(cast<GotoStmt>(s)->getLabel()->getNameAsString());
            close();
            return;
        case Stmt::LabelStmtClass:
            open("label", L);
            comma();
            S(cast<LabelStmt>(s)->getDecl()->getNameAsString());
            comma();
            E(cast<LabelStmt>(s)->getSubStmt());
            close();
            return;
        case Stmt::DeclStmtClass:
        {
            auto* x = cast<DeclStmt>(s);
            open("decl", L);
            o += ",[";
            bool first = true;
            for ( auto* d : x->decls() ) {
                if ( auto* V = dyn_cast<VarDecl>(d) ) {
                    if ( !first ) o += ',';
                    first = false;
                    varDecl(V);
                }
            }
            o += "]";
            close();
            return;
        }
        case Stmt::CXXTryStmtClass:
        {
            auto* x = cast<CXXTryStmt>(s);
            open("try", L);
            comma();
            E(x->getTryBlock());
            o += ",[";
            for ( unsigned i = 0; i < x->getNumHandlers(); ++i ) {
                if ( i ) o += ',';
                auto* h = x->getHandler(i);
                o += '[';
                S(h->getExceptionDecl() ? typeStr(h->getExceptionDecl()->getType()) : "...");
                comma();
                E(h->getHandlerBlock());
                o += ']';
            }
            o += "]";
            close();
            return;
        }
        default:
            break;
        }

        const Expr* e = dyn_cast<Expr>(s);
        if ( !e ) {
            other(s);
            return;
        }

        if ( auto* x = dyn_cast<CXXOperatorCallExpr>(e) ) {
            const FunctionDecl* F = x->getDirectCallee();
            if ( F ) {
                open("call", x->getOperatorLoc());
                comma();
                callee(F);
                comma();
                unsigned i = 0;
                if ( const auto* M = dyn_cast<CXXMethodDecl>(F) ) {
                    if ( !M->isStatic() ) {
                        E(x->getArg(0));
                        i = 1;
                    }
                    else
                        o += "null";
                }
                else
                    o += "null";
                o += ",[";
                for ( unsigned k = i; k < x->getNumArgs(); ++k ) {
                    if ( k > i ) o += ',';
                    arg(F, k - i, x->getArg(k));
                }
                o += "],";
                S(typeStr(x->getType()));
                comma();
                const auto* M = dyn_cast<CXXMethodDecl>(F);
                std::string fl;
                if ( M && M->isVirtual() ) fl += "v";
                if ( M && !M->isStatic() && !M->isConst() ) fl += "m";
                S(fl);
                close();
                return;
            }
        }
        if ( auto* x = dyn_cast<CallExpr>(e) ) {
            const FunctionDecl* F = x->getDirectCallee();
            if ( F ) {
                SourceLocation CL = L;
                if ( auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts()) ) CL = me->getMemberLoc();
                if ( CL.isInvalid() ) CL = L;
                open("call", CL);
                comma();
                callee(F);
                comma();
                std::string flags;
                if ( auto* mc = dyn_cast<CXXMemberCallExpr>(x) ) {
                    E(mc->getImplicitObjectArgument());
                    if ( auto* M = dyn_cast<CXXMethodDecl>(F) ) {
                        if ( M->isVirtual() ) {
                            auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParenImpCasts());
                            if ( !(me && me->hasQualifier()) ) flags += "v";
                        }
                    }
                }
                else
                    o += "null";
                comma();
                argList(F, x);
                comma();
                S(typeStr(x->getType()));
                comma();
                if ( auto* M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic() && !M->isConst() ) flags += "m";
                if ( F->isNoReturn() ) flags += "n";
                S(flags);
                close();
                return;
            }
            open("icall", L);
            comma();
            E(x->getCallee());
            comma();
            exprList(x->arguments());
            comma();
            S(typeStr(x->getType()));
            close();
            return;
        }
        if ( auto* x = dyn_cast<CXXConstructExpr>(e) ) {
            // elide copy/move of a temporary
            if ( x->isElidable() && x->getNumArgs() == 1 ) return E(x->getArg(0));
            open("ctor", L);
            comma();
            S(qname(x->getConstructor()->getParent()));
            comma();
            S(funcId(x->getConstructor()));
            comma();
            argList(x->getConstructor(), x);
            comma();
            S(typeStr(x->getType()));
            comma();
            o += x->getConstructor()->isCopyOrMoveConstructor() ? "\"c\"" : "\"\"";
            close();
            return;
        }
        if ( auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e) ) {
            open("ctor", L);
            comma();
            S(qname(x->getConstructor()->getParent()));
            comma();
            S(funcId(x->getConstructor()));
            o += ",[],";
            S(typeStr(x->getType()));
            o += ",\"\"";
            close();
            return;
        }
        if ( auto* x = dyn_cast<CXXNewExpr>(e) ) {
            open("new", L);
            comma();
            S(typeStr(x->getAllocatedType()));
            comma();
            E(x->getInitializer());
            comma();
            if ( x->isArray() && x->getArraySize() )
                E(*x->getArraySize());
            else
                o += "null";
            comma();
            o += '[';
            for ( unsigned i = 0; i < x->getNumPlacementArgs(); ++i ) {
                if ( i ) o += ',';
                E(x->getPlacementArg(i));
            }
            o += ']';
            close();
            return;
        }
        if ( auto* x = dyn_cast<CXXDeleteExpr>(e) ) {
            open("delete", L);
            comma();
            E(x->getArgument());
            comma();
            o += x->isArrayForm() ? "1" : "0";
            comma();
            S(typeStr(x->getDestroyedType()));
            close();
            return;
        }
        if ( auto* x = dyn_cast<DeclRefExpr>(e) ) {
            declRef(x->getDecl(), L, x->getType());
            return;
        }
        if ( auto* x = dyn_cast<MemberExpr>(e) ) {
            const ValueDecl* D = x->getMemberDecl();
            if ( isa<FieldDecl>(D) ) {
                open("mem", x->getMemberLoc());
                comma();
                E(x->getBase());
                comma();
                S(qname(D));
                comma();
                S(typeStr(D->getType()));
                comma();
                o += x->isArrow() ? "1" : "0";
                close();
            }
            else
                declRef(D, L, x->getType());
            return;
        }
        if ( isa<CXXThisExpr>(e) ) {
            open("this", L);
            close();
            return;
        }
        if ( auto* x = dyn_cast<UnaryOperator>(e) ) {
            open("un", L);
            comma();
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if ( x->isPostfix() ) op = "p" + op;
            S(op);
            comma();
            E(x->getSubExpr());
            close();
            return;
        }
        if ( auto* x = dyn_cast<CompoundAssignOperator>(e) ) {
            open("asg", x->getOperatorLoc());
            comma();
            S(x->getOpcodeStr());
            comma();
            E(x->getLHS());
            comma();
            E(x->getRHS());
            close();
            return;
        }
        if ( auto* x = dyn_cast<BinaryOperator>(e) ) {
            open(x->isAssignmentOp() ? "asg" : "bin", x->getOperatorLoc());
            comma();
            S(x->getOpcodeStr());
            comma();
            E(x->getLHS());
            comma();
            E(x->getRHS());
            close();
            return;
        }
        if ( auto* x = dyn_cast<AbstractConditionalOperator>(e) ) {
            open("cond", L);
            comma();
            E(x->getCond());
            comma();
            E(x->getTrueExpr());
            comma();
            E(x->getFalseExpr());
            close();
            return;
        }
        if ( auto* x = dyn_cast<StringLiteral>(e) ) {
            open("str", L);
            comma();
            if ( x->getCharByteWidth() == 1 )
                S(x->getString());
            else
                S("");
            close();
            return;
        }
        if ( auto* x = dyn_cast<IntegerLiteral>(e) ) {
            open("lit", L);
            comma();
            llvm::SmallString<32> b;
            x->getValue().toString(b, 10, x->getType()->isSignedIntegerType());
            S(b);
            comma();
            S(typeStr(x->getType()));
            close();
            return;
        }
        if ( auto* x = dyn_cast<CXXBoolLiteralExpr>(e) ) {
            open("lit", L);
            comma();
            S(x->getValue() ? "true" : "false");
            o += ",\"bool\"";
            close();
            return;
        }
        if ( isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e) ) {
            open("lit", L);
            o += ",\"nullptr\",\"nullptr_t\"";
            close();
            return;
        }
        if ( auto* x = dyn_cast<CharacterLiteral>(e) ) {
            open("lit", L);
            comma();
            S(std::to_string(x->getValue()));
            o += ",\"char\"";
            close();
            return;
        }
        if ( auto* x = dyn_cast<FloatingLiteral>(e) ) {
            open("lit", L);
            comma();
            llvm::SmallString<32> b;
            x->getValue().toString(b);
            S(b);
            o += ",\"double\"";
            close();
            return;
        }
        if ( auto* x = dyn_cast<ExplicitCastExpr>(e) ) {
            open("cast", L);
            comma();
            const char* k = "c";
            if ( isa<CXXStaticCastExpr>(x) ) k = "static";
            else if ( isa<CXXDynamicCastExpr>(x) ) k = "dynamic";
            else if ( isa<CXXReinterpretCastExpr>(x) ) k = "reinterpret";
            else if ( isa<CXXConstCastExpr>(x) ) k = "const";
            else if ( isa<CXXFunctionalCastExpr>(x) ) k = "func";
            S(k);
            comma();
            S(typeStr(x->getTypeAsWritten()));
            comma();
            E(x->getSubExpr());
            close();
            return;
        }
        if ( auto* x = dyn_cast<ArraySubscriptExpr>(e) ) {
            open("idx", L);
            comma();
            E(x->getBase());
            comma();
            E(x->getIdx());
            close();
            return;
        }
        if ( auto* x = dyn_cast<LambdaExpr>(e) ) {
            open("lambda", L);
            comma();
            S(funcId(x->getCallOperator()));
            comma();
            o += '[';
            bool first = true;
            for ( auto it = x->capture_begin(); it != x->capture_end(); ++it ) {
                if ( !first ) o += ',';
                first = false;
                o += '[';
                if ( it->capturesThis() )
                    o += "\"this\",null";
                else if ( it->capturesVariable() ) {
                    S(it->getCaptureKind() == LCK_ByRef ? "ref" : "copy");
                    comma();
                    auto* cv = it->getCapturedVar();
                    if ( auto* vv = dyn_cast<VarDecl>(cv); vv && vv->isInitCapture() && vv->getInit() )
                        E(vv->getInit());
                    else
                        declRef(cv, L, cv->getType());
                }
                else
                    o += "\"?\",null";
                o += ']';
            }
            o += "],";
            E(x->getBody());
            comma();
            params(x->getCallOperator());
            close();
            return;
        }
        if ( auto* x = dyn_cast<InitListExpr>(e) ) {
            open("init", L);
            comma();
            S(typeStr(x->getType()));
            comma();
            exprList(x->inits());
            close();
            return;
        }
        if ( auto* x = dyn_cast<CXXParenListInitExpr>(e) ) {
            open("init", L);
            comma();
            S(typeStr(x->getType()));
            comma();
            o += "[]";
            close();
            return;
        }
        if ( auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e) ) {
            open("sizeof", L);
            comma();
            if ( x->isArgumentType() )
                S(typeStr(x->getArgumentType()));
            else
                S(typeStr(x->getArgumentExpr()->getType()));
            close();
            return;
        }
        if ( auto* x = dyn_cast<CXXThrowExpr>(e) ) {
            open("throw", L);
            comma();
            E(x->getSubExpr());
            close();
            return;
        }
        if ( auto* x = dyn_cast<CXXScalarValueInitExpr>(e) ) {
            open("lit", L);
            o += ",\"0\",";
            S(typeStr(x->getType()));
            close();
            return;
        }
        if ( auto* x = dyn_cast<ImplicitValueInitExpr>(e) ) {
            open("lit", L);
            o += ",\"0\",";
            S(typeStr(x->getType()));
            close();
            return;
        }
        if ( auto* x = dyn_cast<CXXTypeidExpr>(e) ) {
            open("typeid", L);
            comma();
            if ( x->isTypeOperand() )
                S(typeStr(x->getTypeOperand(C)));
            else
                S(typeStr(x->getExprOperand()->getType()));
            close();
            return;
        }
        if ( auto* x = dyn_cast<CXXFoldExpr>(e) ) {
            other(x);
            return;
        }
        if ( auto* x = dyn_cast<PredefinedExpr>(e) ) {
            open("str", L);
            o += ",\"__func__\"";
            close();
            return;
        }
        if ( auto* x = dyn_cast<StmtExpr>(e) ) {
            open("stmtexpr", L);
            comma();
            E(x->getSubStmt());
            close();
            return;
        }
        {
            Expr::EvalResult R;
            if ( !e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsRValue(R, C) &&
                 R.Val.isInt() ) {
                open("lit", L);
                comma();
                llvm::SmallString<32> b;
                R.Val.getInt().toString(b, 10);
                S(b);
                comma();
                S(typeStr(e->getType()));
                close();
                return;
            }
        }
        other(s);
    }

    void other(const Stmt* s)
    {
        open("other", s->getBeginLoc());
        comma();
        S(s->getStmtClassName());
        comma();
        exprList(s->children());
        close();
    }

    void declRef(const ValueDecl* D, SourceLocation L, QualType T)
    {
        open("ref", L);
        comma();
        if ( auto* EC = dyn_cast<EnumConstantDecl>(D) ) {
            o += "\"enum\",";
            S(qname(D));
            comma();
            llvm::SmallString<32> b;
            EC->getInitVal().toString(b, 10);
            S(b);
            comma();
            S(typeStr(T));
        }
        else if ( auto* F = dyn_cast<FunctionDecl>(D) ) {
            o += "\"fn\",";
            S(qname(D));
            comma();
            S(funcId(F));
            comma();
            S(typeStr(T));
        }
        else if ( auto* P = dyn_cast<ParmVarDecl>(D) ) {
            o += "\"param\",";
            S(D->getNameAsString());
            comma();
            N(localId(D));
            comma();
            S(typeStr(D->getType()));
        }
        else if ( auto* V = dyn_cast<VarDecl>(D) ) {
            if ( V->isLocalVarDecl() || V->isInitCapture() ) {
                o += "\"var\",";
                S(D->getNameAsString());
                comma();
                N(localId(D));
                comma();
                S(typeStr(D->getType()));
            }
            else {
                o += "\"global\",";
                S(qname(D));
                comma();
                // constant value if known
                std::string val;
                if ( V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() ) {
                    const VarDecl* Def = nullptr;
                    if ( const Expr* I = V->getAnyInitializer(Def) )
                        if ( !I->isValueDependent() && !I->isTypeDependent() && Def )
                            if ( auto* AV = Def->getEvaluatedValue() )
                                if ( AV->isInt() ) {
                                    llvm::SmallString<32> b;
                                    AV->getInt().toString(b, 10);
                                    val = std::string(b);
                                }
                }
                S(val);
                comma();
                S(typeStr(D->getType()));
            }
        }
        else if ( isa<BindingDecl>(D) ) {
            o += "\"var\",";
            S(D->getNameAsString());
            comma();
            N(localId(D));
            comma();
            S(typeStr(D->getType()));
        }
        else {
            o += "\"other\",";
            S(qname(D));
            o += ",\"\",";
            S(typeStr(T));
        }
        close();
    }

    void params(const FunctionDecl* F)
    {
        o += '[';
        bool first = true;
        for ( auto* P : F->parameters() ) {
            if ( !first ) o += ',';
            first = false;
            o += '[';
            N(localId(P));
            comma();
            S(P->getNameAsString());
            comma();
            S(typeStr(P->getType()));
            comma();
            if ( P->hasInit() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() ) o += "1";
            else o += "0";
            o += ']';
        }
        o += ']';
    }

    void function(const FunctionDecl* F)
    {
        localIds.clear();
        nextLocal = 0;
        o += "{\"k\":\"func\",\"id\":";
        S(funcId(F));
        o += ",\"q\":";
        S(qname(F));
        o += ",\"n\":";
        S(F->getNameAsString());
        o += ",\"f\":";
        S(fileOf(F->getLocation()));
        o += ",\"l\":";
        N(line(F->getLocation()));
        o += ",\"el\":";
        N(line(F->getEndLoc()));
        const auto* M = dyn_cast<CXXMethodDecl>(F);
        if ( M ) {
            o += ",\"cls\":";
            S(qname(M->getParent()));
            o += ",\"clst\":";
            S(typeStr(C.getRecordType(M->getParent())));
            if ( M->isVirtual() ) o += ",\"virt\":1";
            if ( M->isStatic() ) o += ",\"static\":1";
            if ( M->isConst() ) o += ",\"const\":1";
            if ( M->size_overridden_methods() ) {
                o += ",\"over\":[";
                bool first = true;
                for ( auto* X : M->overridden_methods() ) {
                    if ( !first ) o += ',';
                    first = false;
                    S(funcId(X));
                }
                o += "]";
            }
            if ( M->getParent()->isLambda() ) o += ",\"lambda\":1";
        }
        if ( isa<CXXConstructorDecl>(F) ) o += ",\"ctor\":1";
        if ( isa<CXXDestructorDecl>(F) ) o += ",\"dtor\":1";
        if ( F->isImplicit() ) o += ",\"implicit\":1";
        if ( F->isDefaulted() ) o += ",\"defaulted\":1";
        if ( F->isTemplateInstantiation() || F->getMemberSpecializationInfo() ) o += ",\"inst\":1";
        if ( F->isNoReturn() ) o += ",\"noreturn\":1";
        o += ",\"ret\":";
        S(typeStr(F->getReturnType()));
        o += ",\"params\":";
        params(F);
        if ( auto* K = dyn_cast<CXXConstructorDecl>(F) ) {
            o += ",\"inits\":[";
            bool first = true;
            for ( auto* I : K->inits() ) {
                if ( !first ) o += ',';
                first = false;
                o += '[';
                if ( I->isAnyMemberInitializer() ) {
                    o += "\"m\",";
                    S(qname(I->getAnyMember()));
                }
                else if ( I->isDelegatingInitializer() ) {
                    o += "\"d\",\"\"";
                }
                else {
                    o += "\"b\",";
                    S(typeStr(QualType(I->getBaseClass(), 0)));
                }
                comma();
                N(I->isWritten() ? 1 : 0);
                comma();
                E(I->getInit());
                o += ']';
            }
            o += ']';
        }
        o += ",\"body\":";
        E(F->getBody());
        o += "}\n";
    }

    void record(const CXXRecordDecl* R)
    {
        o += "{\"k\":\"class\",\"q\":";
        S(qname(R));
        o += ",\"t\":";
        S(typeStr(C.getRecordType(R)));
        o += ",\"f\":";
        S(fileOf(R->getLocation()));
        o += ",\"l\":";
        N(line(R->getLocation()));
        if ( R->isAbstract() ) o += ",\"abstract\":1";
        if ( R->isUnion() ) o += ",\"union\":1";
        if ( R->isLambda() ) o += ",\"lambda\":1";
        if ( isa<ClassTemplateSpecializationDecl>(R) ) o += ",\"inst\":1";
        if ( R->isDependentContext() ) o += ",\"dep\":1";
        o += ",\"bases\":[";
        bool first = true;
        for ( auto& B : R->bases() ) {
            if ( !first ) o += ',';
            first = false;
            o += '[';
            if ( auto* BR = B.getType()->getAsCXXRecordDecl() )
                S(qname(BR));
            else
                S("");
            comma();
            S(typeStr(B.getType()));
            o += ']';
        }
        o += "],\"fields\":[";
        first = true;
        for ( auto* F : R->fields() ) {
            if ( !first ) o += ',';
            first = false;
            o += '[';
            S(F->getNameAsString());
            comma();
            S(typeStr(F->getType()));
            comma();
            N(line(F->getLocation()));
            comma();
            N(F->hasInClassInitializer() ? 1 : 0);
            comma();
            N((F->isMutable() ? 1 : 0) | (F->getType().isConstQualified() ? 2 : 0) |
                (F->getType()->isReferenceType() ? 4 : 0) |
                (F->getType()->isScalarType() ? 8 : 0));
            o += ']';
        }
        o += "],\"statics\":[";
        first = true;
        for ( auto* D : R->decls() ) {
            if ( auto* V = dyn_cast<VarDecl>(D) ) {
                if ( !first ) o += ',';
                first = false;
                o += '[';
                S(V->getNameAsString());
                comma();
                S(typeStr(V->getType()));
                comma();
                N(line(V->getLocation()));
                comma();
                N(V->getTSCSpec() != TSCS_unspecified ? 1 : 0);
                o += ']';
            }
        }
        o += "],\"methods\":[";
        first = true;
        for ( auto* M : R->methods() ) {
            if ( !first ) o += ',';
            first = false;
            o += '[';
            S(M->getNameAsString());
            comma();
            S(funcId(M));
            comma();
            N((M->isVirtual() ? 1 : 0) | (M->isPureVirtual() ? 2 : 0) | (M->isStatic() ? 4 : 0) |
                (M->isImplicit() ? 8 : 0) | (M->isDeleted() ? 16 : 0) | (M->getAccess() == AS_public ? 32 : 0) | (M->isDefaulted() ? 64 : 0));
            comma();
            o += '[';
            bool f2 = true;
            for ( auto* X : M->overridden_methods() ) {
                if ( !f2 ) o += ',';
                f2 = false;
                S(funcId(X));
            }
            o += "]]";
        }
        o += "]}\n";
    }

    void enumDecl(const EnumDecl* D)
    {
        o += "{\"k\":\"enum\",\"q\":";
        S(qname(D));
        o += ",\"f\":";
        S(fileOf(D->getLocation()));
        o += ",\"l\":";
        N(line(D->getLocation()));
        o += ",\"consts\":[";
        bool first = true;
        for ( auto* c : D->enumerators() ) {
            if ( !first ) o += ',';
            first = false;
            o += '[';
            S(c->getNameAsString());
            comma();
            llvm::SmallString<32> b;
            c->getInitVal().toString(b, 10);
            S(b);
            o += ']';
        }
        o += "]}\n";
    }

    void globalVar(const VarDecl* V)
    {
        localIds.clear();
        nextLocal = 0;
        o += "{\"k\":\"gvar\",\"q\":";
        S(qname(V));
        o += ",\"t\":";
        S(typeStr(V->getType()));
        o += ",\"f\":";
        S(fileOf(V->getLocation()));
        o += ",\"l\":";
        N(line(V->getLocation()));
        o += ",\"tls\":";
        N(V->getTSCSpec() != TSCS_unspecified ? 1 : 0);
        o += ",\"init\":";
        if ( V->isThisDeclarationADefinition() && V->getInit() && !V->getInit()->isValueDependent() )
            E(V->getInit());
        else
            o += "null";
        o += "}\n";
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    ASTContext&                     C;
    Emitter                         em;
    std::unordered_set<std::string> seen;
    llvm::raw_ostream&              os;

    Visitor(ASTContext& C, llvm::raw_ostream& os) :
        C(C),
        em(C),
        os(os)
    {}

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    void flush()
    {
        os << em.o;
        em.o.clear();
    }

    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if ( !F->doesThisDeclarationHaveABody() ) return true;
        if ( F->isDependentContext() ) return true;
        if ( F->isImplicit() ) {
            const auto* M = dyn_cast<CXXMethodDecl>(F);
            if ( !M || !M->getParent()->isLambda() ) return true;
        }
        if ( !em.inScope(F->getLocation()) ) return true;
        const auto* M = dyn_cast<CXXMethodDecl>(F);
        if ( M && M->getParent()->isLambda() && F->getBody() == nullptr ) return true;
        std::string id = em.funcId(F);
        if ( !seen.insert("F" + id).second ) return true;
        em.function(F);
        flush();
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if ( !R->isThisDeclarationADefinition() ) return true;
        if ( R->isLambda() ) return true;
        if ( !em.inScope(R->getLocation()) ) return true;
        std::string id = em.typeStr(C.getRecordType(R)) + (R->isDependentContext() ? "#dep" : "");
        if ( !seen.insert("C" + id).second ) return true;
        em.record(R);
        flush();
        return true;
    }
    bool VisitEnumDecl(EnumDecl* D)
    {
        if ( !D->isThisDeclarationADefinition() || !em.inScope(D->getLocation()) ) return true;
        if ( D->isDependentContext() ) return true;
        em.enumDecl(D);
        flush();
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        if ( V->isLocalVarDeclOrParm() || isa<ParmVarDecl>(V) ) return true;
        if ( V->getDeclContext()->isDependentContext() || V->getType()->isDependentType() ) return true;
        if ( !V->hasGlobalStorage() || !em.inScope(V->getLocation()) ) return true;
        if ( isa<VarTemplateSpecializationDecl>(V) ) return true;
        if ( !V->isThisDeclarationADefinition() ) return true;
        std::string id = em.qname(V);
        if ( !seen.insert("V" + id).second ) return true;
        em.globalVar(V);
        flush();
        return true;
    }
};

class Consumer : public ASTConsumer
{
public:
    void HandleTranslationUnit(ASTContext& C) override
    {
        std::error_code      ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        if ( ec ) {
            llvm::errs() << "cannot write " << OutFile << "\n";
            exit(3);
        }
        Visitor v(C, os);
        v.TraverseDecl(C.getTranslationUnitDecl());
        unsigned errs = C.getDiagnostics().getNumErrors();
        os << "{\"k\":\"end\",\"errors\":" << errs << "}\n";
    }
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

} // namespace

int
main(int argc, char** argv)
{
    // extract OUT FILE PREFIX[,PREFIX...] -- clang flags
    if ( argc < 5 ) {
        llvm::errs() << "usage: extract OUT FILE PREFIXES -- flags\n";
        return 2;
    }
    OutFile          = argv[1];
    std::string file = argv[2];
    {
        llvm::SmallVector<llvm::StringRef, 4> parts;
        llvm::StringRef(argv[3]).split(parts, ',');
        for ( auto p : parts )
            Prefixes.push_back(p.str());
    }
    std::vector<std::string> flags;
    for ( int i = 5; i < argc; ++i )
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool                tool(db, { file });
    tool.clearArgumentsAdjusters();
    tool.appendArgumentsAdjuster([](const tooling::CommandLineArguments& a, StringRef) {
        tooling::CommandLineArguments r = a;
        r.push_back("-fsyntax-only");
        return r;
    });
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc;
}
