// Writes the type-checked AST of the library's functions as JSON.
// usage: cxdump <root> <out.json> <source> -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Basic/Builtins.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot, gRoot2, gOut;

struct Dumper : public RecursiveASTVisitor<Dumper>
{
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    json::Array functions, records, globals;
    std::map<const Decl *, std::string> varIds;
    std::set<const Decl *> doneFn, doneRec;
    std::map<std::string, int> lambdaSeq;

    explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.PrintCanonicalTypes = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto f = SM.getFilename(L);
        return f.str();
    }
    bool inRoot(SourceLocation L)
    {
        auto f = fileOf(L);
        return f.rfind(gRoot, 0) == 0 || (!gRoot2.empty() && f.rfind(gRoot2, 0) == 0);
    }
    std::string loc(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto f = fileOf(L);
        if (f.rfind(gRoot, 0) == 0)
            f = f.substr(gRoot.size());
        while (!f.empty() && f[0] == '/' )
            f = f.substr(1);
        return f + ":" + std::to_string(SM.getSpellingLineNumber(L));
    }
    std::string locCol(SourceLocation L)
    {
        // macro arguments need the spelling position to tell lambdas apart
        auto S = SM.getSpellingLoc(L);
        return loc(L) + ":" + std::to_string(SM.getSpellingColumnNumber(S)) + "/" + std::to_string(SM.getSpellingLineNumber(S));
    }
    std::string ty(QualType T)
    {
        if (T.isNull())
            return "";
        return T.getCanonicalType().getAsString(PP);
    }
    // qualified name without template arguments and inline namespaces
    std::string qname(const NamedDecl *D)
    {
        std::string n;
        if (auto *FD = dyn_cast<FunctionDecl>(D))
            n = FD->getNameInfo().getName().getAsString();
        else
            n = D->getNameAsString();
        if (isa<CXXConstructorDecl>(D))
            n = cast<CXXConstructorDecl>(D)->getParent()->getNameAsString();
        else if (isa<CXXDestructorDecl>(D))
            n = "~" + cast<CXXDestructorDecl>(D)->getParent()->getNameAsString();
        else if (isa<CXXConversionDecl>(D))
            n = "operator()conv";
        std::string r = n;
        const DeclContext *DC = D->getDeclContext();
        while (DC && !DC->isTranslationUnit())
        {
            if (auto *NS = dyn_cast<NamespaceDecl>(DC))
            {
                if (!NS->isInline() && !NS->isAnonymousNamespace())
                    r = NS->getNameAsString() + "::" + r;
            }
            else if (auto *R = dyn_cast<RecordDecl>(DC))
            {
                auto rn = R->getNameAsString();
                if (auto *CR = dyn_cast<CXXRecordDecl>(R))
                    if (CR->isLambda())
                        rn = "(lambda)";
                r = (rn.empty() ? std::string("(anon)") : rn) + "::" + r;
            }
            else if (auto *F = dyn_cast<FunctionDecl>(DC))
                r = F->getNameAsString() + "::" + r;
            DC = DC->getParent();
        }
        return r;
    }
    std::string usr(const Decl *D)
    {
        llvm::SmallString<256> b;
        index::generateUSRForDecl(D, b);
        return std::string(b);
    }
    std::string recId(const CXXRecordDecl *R)
    {
        if (!R)
            return "";
        R = R->getCanonicalDecl();
        if (R->isLambda())
        {
            std::string enc;
            const DeclContext *DC = R->getDeclContext();
            while (DC && !isa<FunctionDecl>(DC) && !isa<CXXRecordDecl>(DC) && !DC->isTranslationUnit())
                DC = DC->getParent();
            if (DC && isa<FunctionDecl>(DC))
                enc = fnId(cast<FunctionDecl>(DC));
            else if (DC && isa<CXXRecordDecl>(DC))
                enc = recId(cast<CXXRecordDecl>(DC));
            return "L(" + enc + ")@" + locCol(R->getBeginLoc());
        }
        return ty(C.getTypeDeclType(R));
    }
    std::string fnId(const FunctionDecl *F)
    {
        F = F->getCanonicalDecl();
        std::string id;
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
        {
            if (M->getParent()->isLambda())
                id = recId(M->getParent()) + "::" + F->getNameAsString();
            else
                id = recId(M->getParent()) + "::" + (isa<CXXConstructorDecl>(M) ? std::string("ctor") : isa<CXXDestructorDecl>(M) ? std::string("dtor")
                                                                                                                                      : F->getNameAsString());
        }
        else
            id = qname(F);
        if (auto *A = F->getTemplateSpecializationArgs())
        {
            id += "<";
            for (unsigned i = 0; i < A->size(); ++i)
            {
                std::string s;
                llvm::raw_string_ostream os(s);
                auto &a = A->get(i);
                if (a.getKind() == TemplateArgument::Type)
                    os << tyLam(a.getAsType());
                else if (a.getKind() == TemplateArgument::Pack)
                {
                    for (auto &e : a.pack_elements())
                    {
                        if (e.getKind() == TemplateArgument::Type)
                            os << tyLam(e.getAsType()) << ";";
                        else
                            e.print(PP, os, true);
                    }
                }
                else
                    a.print(PP, os, true);
                id += os.str() + ",";
            }
            id += ">";
        }
        id += "(";
        for (auto *P : F->parameters())
            id += tyLam(P->getType()) + ",";
        id += ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->isConst())
                id += "const";
        return id;
    }
    std::string tyLam(QualType T)
    {
        auto S = T.getNonReferenceType().getCanonicalType();
        if (auto *R = S->getAsCXXRecordDecl())
            if (R->isLambda())
                return recId(R);
        return ty(T);
    }
    std::string varId(const ValueDecl *V)
    {
        auto it = varIds.find(V->getCanonicalDecl());
        if (it != varIds.end())
            return it->second;
        std::string s;
        if (auto *VD = dyn_cast<VarDecl>(V))
        {
            if (VD->hasGlobalStorage() && !VD->isStaticLocal())
                s = "g:" + qname(VD);
        }
        if (s.empty())
            s = V->getNameAsString() + "#" + std::to_string(varIds.size());
        varIds[V->getCanonicalDecl()] = s;
        return s;
    }
    json::Object node(const char *k, const Stmt *S)
    {
        json::Object o;
        o["k"] = k;
        if (S)
            o["l"] = loc(S->getBeginLoc());
        return o;
    }
    json::Value opt(const Stmt *S)
    {
        if (!S)
            return nullptr;
        return stmt(S);
    }
    json::Array stmts(llvm::iterator_range<ConstStmtIterator> R)
    {
        json::Array a;
        for (auto *s : R)
            a.push_back(opt(s));
        return a;
    }
    void noteFn(const FunctionDecl *F)
    {
        // make sure functions of the library that are referenced get dumped
        const FunctionDecl *Def = nullptr;
        if (F->isDefined(Def) && Def && inRoot(Def->getLocation()))
            dumpFunction(Def);
    }
    void calleeInfo(json::Object &o, const FunctionDecl *F)
    {
        o["f"] = fnId(F);
        o["q"] = qname(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
        {
            o["cls"] = recId(M->getParent());
            if (M->isStatic())
                o["static"] = true;
        }
        if (F->isNoReturn())
            o["noret"] = true;
        json::Array pt;
        for (auto *P : F->parameters())
            pt.push_back(ty(P->getType()));
        o["pt"] = std::move(pt);
        if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
            if (FPT->canThrow() == CT_Cannot)
                o["nx"] = true;
    }
    json::Value varDecl(const VarDecl *V)
    {
        json::Object o;
        o["k"] = "Var";
        o["id"] = varId(V);
        o["n"] = V->getNameAsString();
        o["t"] = ty(V->getType());
        o["l"] = loc(V->getLocation());
        if (V->isStaticLocal())
            o["static"] = true;
        if (auto *R = V->getType().getNonReferenceType()->getAsCXXRecordDecl())
        {
            o["rec"] = recId(R);
            if (!V->getType()->isReferenceType() && R->hasDefinition() && !R->hasTrivialDestructor())
                o["dtor"] = true;
        }
        if (V->getInit())
            o["init"] = stmt(V->getInit());
        if (auto *D = dyn_cast<DecompositionDecl>(V))
        {
            json::Array b;
            for (auto *B : D->bindings())
            {
                json::Object bo;
                bo["id"] = varId(B);
                bo["n"] = B->getNameAsString();
                if (auto *H = B->getHoldingVar())
                {
                    if (H->getInit())
                        bo["init"] = stmt(H->getInit());
                    bo["t"] = ty(H->getType());
                    bo["hid"] = varId(H);
                }
                else if (B->getBinding())
                    bo["bind"] = stmt(B->getBinding());
                b.push_back(std::move(bo));
            }
            o["bindings"] = std::move(b);
        }
        return o;
    }
    json::Value stmt(const Stmt *S)
    {
        if (!S)
            return nullptr;
        // transparent wrappers
        if (auto *E = dyn_cast<ParenExpr>(S))
            return stmt(E->getSubExpr());
        if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S))
            return stmt(E->getReplacement());
        if (auto *E = dyn_cast<CXXRewrittenBinaryOperator>(S))
            return stmt(E->getSemanticForm());
        if (auto *E = dyn_cast<OpaqueValueExpr>(S))
            return stmt(E->getSourceExpr());
        if (auto *E = dyn_cast<AttributedStmt>(S))
            return stmt(E->getSubStmt());
        if (auto *E = dyn_cast<FullExpr>(S))
        {
            if (isa<ConstantExpr>(E))
                return intOr(E, E->getSubExpr());
            auto *EC = cast<ExprWithCleanups>(E);
            auto o = node("Cleanups", S);
            o["e"] = stmt(EC->getSubExpr());
            return o;
        }
        if (auto *E = dyn_cast<Expr>(S))
        {
            if (!E->isValueDependent() && !E->isTypeDependent() && (E->getType()->isIntegralOrEnumerationType()) && E->isPRValue() && !isa<CallExpr>(E))
            {
                Expr::EvalResult R;
                if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
                {
                    auto o = node("Int", S);
                    auto &v = R.Val.getInt();
                    if (v.isSigned() || v.getActiveBits() <= 63)
                        o["v"] = v.getExtValue();
                    else
                        o["v"] = std::to_string(v.getZExtValue());
                    o["t"] = ty(E->getType());
                    return o;
                }
            }
        }
        switch (S->getStmtClass())
        {
        case Stmt::CompoundStmtClass:
        {
            auto o = node("Block", S);
            json::Array a;
            for (auto *s : cast<CompoundStmt>(S)->body())
                a.push_back(stmt(s));
            o["b"] = std::move(a);
            return o;
        }
        case Stmt::NullStmtClass:
            return node("Null", S);
        case Stmt::IfStmtClass:
        {
            auto *I = cast<IfStmt>(S);
            auto o = node("If", S);
            if (I->getInit())
                o["init"] = stmt(I->getInit());
            if (I->getConditionVariable())
                o["cv"] = varDecl(I->getConditionVariable());
            o["c"] = stmt(I->getCond());
            if (I->isConstexpr())
            {
                o["constexpr"] = true;
                auto nd = I->getNondiscardedCase(C);
                if (nd.has_value())
                {
                    auto b = node("Block", S);
                    json::Array a;
                    if (*nd)
                        a.push_back(stmt(*nd));
                    b["b"] = std::move(a);
                    return b;
                }
            }
            o["t"] = stmt(I->getThen());
            o["e"] = opt(I->getElse());
            return o;
        }
        case Stmt::WhileStmtClass:
        {
            auto *W = cast<WhileStmt>(S);
            auto o = node("While", S);
            if (W->getConditionVariable())
                o["cv"] = varDecl(W->getConditionVariable());
            o["c"] = stmt(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::DoStmtClass:
        {
            auto *W = cast<DoStmt>(S);
            auto o = node("Do", S);
            o["c"] = stmt(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::ForStmtClass:
        {
            auto *W = cast<ForStmt>(S);
            auto o = node("For", S);
            o["init"] = opt(W->getInit());
            if (W->getConditionVariable())
                o["cv"] = varDecl(W->getConditionVariable());
            o["c"] = opt(W->getCond());
            o["inc"] = opt(W->getInc());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::CXXForRangeStmtClass:
        {
            auto *W = cast<CXXForRangeStmt>(S);
            auto o = node("ForRange", S);
            if (W->getInit())
                o["init"] = stmt(W->getInit());
            o["range"] = opt(W->getRangeInit());
            o["rt"] = ty(W->getRangeInit()->getType());
            o["rangestmt"] = opt(W->getRangeStmt());
            o["beginstmt"] = opt(W->getBeginStmt());
            o["endstmt"] = opt(W->getEndStmt());
            o["c"] = opt(W->getCond());
            o["inc"] = opt(W->getInc());
            o["var"] = varDecl(W->getLoopVariable());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::ReturnStmtClass:
        {
            auto o = node("Return", S);
            o["e"] = opt(cast<ReturnStmt>(S)->getRetValue());
            return o;
        }
        case Stmt::BreakStmtClass:
            return node("Break", S);
        case Stmt::ContinueStmtClass:
            return node("Continue", S);
        case Stmt::SwitchStmtClass:
        {
            auto *W = cast<SwitchStmt>(S);
            auto o = node("Switch", S);
            if (W->getInit())
                o["init"] = stmt(W->getInit());
            if (W->getConditionVariable())
                o["cv"] = varDecl(W->getConditionVariable());
            o["c"] = stmt(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::CaseStmtClass:
        {
            auto *W = cast<CaseStmt>(S);
            auto o = node("Case", S);
            o["v"] = stmt(W->getLHS());
            o["b"] = opt(W->getSubStmt());
            return o;
        }
        case Stmt::DefaultStmtClass:
        {
            auto o = node("Default", S);
            o["b"] = opt(cast<DefaultStmt>(S)->getSubStmt());
            return o;
        }
        case Stmt::DeclStmtClass:
        {
            auto o = node("Decl", S);
            json::Array a;
            for (auto *D : cast<DeclStmt>(S)->decls())
                if (auto *V = dyn_cast<VarDecl>(D))
                    a.push_back(varDecl(V));
            o["d"] = std::move(a);
            return o;
        }
        case Stmt::CXXTryStmtClass:
        {
            auto *W = cast<CXXTryStmt>(S);
            auto o = node("Try", S);
            o["b"] = stmt(W->getTryBlock());
            json::Array a;
            for (unsigned i = 0; i < W->getNumHandlers(); ++i)
            {
                auto *H = W->getHandler(i);
                json::Object h;
                h["t"] = H->getExceptionDecl() ? ty(H->getExceptionDecl()->getType()) : std::string("...");
                if (H->getExceptionDecl())
                    h["var"] = varId(H->getExceptionDecl());
                h["b"] = stmt(H->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
            return o;
        }
        case Stmt::GCCAsmStmtClass:
        {
            auto *A = cast<GCCAsmStmt>(S);
            auto o = node("Asm", S);
            o["s"] = A->getAsmString()->getString().str();
            json::Array outs, ins, clob;
            for (unsigned i = 0; i < A->getNumOutputs(); ++i)
            {
                json::Object x;
                x["c"] = A->getOutputConstraint(i).str();
                x["e"] = stmt(A->getOutputExpr(i));
                outs.push_back(std::move(x));
            }
            for (unsigned i = 0; i < A->getNumInputs(); ++i)
            {
                json::Object x;
                x["c"] = A->getInputConstraint(i).str();
                x["e"] = stmt(A->getInputExpr(i));
                ins.push_back(std::move(x));
            }
            for (unsigned i = 0; i < A->getNumClobbers(); ++i)
                clob.push_back(A->getClobber(i).str());
            o["outs"] = std::move(outs);
            o["ins"] = std::move(ins);
            o["clob"] = std::move(clob);
            return o;
        }
        default:
            break;
        }
        if (auto *E = dyn_cast<Expr>(S))
            return expr(E);
        auto o = node("Unsupported", S);
        o["cls"] = S->getStmtClassName();
        return o;
    }
    json::Value intOr(const Expr *E, const Expr *Sub)
    {
        return stmt(Sub);
    }
    json::Array exprs(llvm::ArrayRef<const Expr *> A)
    {
        json::Array r;
        for (auto *e : A)
            r.push_back(opt(e));
        return r;
    }
    template <typename T> json::Array args(T *E)
    {
        json::Array r;
        for (auto *e : E->arguments())
            r.push_back(opt(e));
        return r;
    }
    json::Value expr(const Expr *E)
    {
        auto tl = [&](json::Object &o) {
            o["t"] = ty(E->getType());
            if (E->isGLValue())
                o["lv"] = true;
        };
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
            return stmt(X->getExpr());
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
            return stmt(X->getExpr());
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
        {
            auto o = node("BindTemp", E);
            o["e"] = stmt(X->getSubExpr());
            if (auto *R = X->getType()->getAsCXXRecordDecl())
                o["rec"] = recId(R);
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
        {
            auto o = node("MatTemp", E);
            o["e"] = stmt(X->getSubExpr());
            o["sd"] = X->getStorageDuration() == SD_FullExpression ? "full" : "ext";
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<CastExpr>(E))
        {
            auto o = node("Cast", E);
            o["ck"] = X->getCastKindName();
            o["ex"] = isa<ExplicitCastExpr>(X);
            if (isa<CXXReinterpretCastExpr>(X))
                o["reint"] = true;
            if (auto *CF = X->getConversionFunction())
            {
                if (auto *F = dyn_cast<FunctionDecl>(CF))
                {
                    o["conv"] = fnId(F);
                    o["convq"] = qname(F);
                }
            }
            o["e"] = stmt(X->getSubExpr());
            if (auto *R = E->getType()->getPointeeCXXRecordDecl())
                o["prec"] = recId(R);
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E))
        {
            auto o = node("Construct", E);
            calleeInfo(o, X->getConstructor());
            noteFn(X->getConstructor());
            o["rec"] = recId(X->getConstructor()->getParent());
            o["a"] = args(X);
            if (X->isElidable())
                o["elide"] = true;
            if (X->getConstructor()->isCopyConstructor())
                o["copy"] = true;
            if (X->getConstructor()->isMoveConstructor())
                o["move"] = true;
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<CXXNewExpr>(E))
        {
            auto o = node("New", E);
            o["at"] = ty(X->getAllocatedType());
            if (auto *R = X->getAllocatedType()->getAsCXXRecordDecl())
                o["rec"] = recId(R);
            o["init"] = opt(X->getInitializer());
            json::Array pl;
            for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i)
                pl.push_back(opt(X->getPlacementArg(i)));
            o["place"] = std::move(pl);
            if (X->isArray() && X->getArraySize())
                o["n"] = opt(*X->getArraySize());
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E))
        {
            auto o = node("Delete", E);
            o["e"] = stmt(X->getArgument());
            o["dt"] = ty(X->getDestroyedType());
            if (auto *R = X->getDestroyedType()->getAsCXXRecordDecl())
                o["rec"] = recId(R);
            return o;
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E))
        {
            auto o = node("MCall", E);
            auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
            if (ME && X->getMethodDecl())
            {
                calleeInfo(o, X->getMethodDecl());
                noteFn(X->getMethodDecl());
                o["o"] = stmt(ME->getBase());
                o["arrow"] = ME->isArrow();
                if (X->getMethodDecl()->isVirtual() && !ME->hasQualifier())
                    o["virt"] = true;
            }
            else
                o["o"] = stmt(X->getCallee());
            o["a"] = args(X);
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E))
        {
            auto o = node("OpCall", E);
            o["op"] = getOperatorSpelling(X->getOperator());
            if (auto *F = X->getDirectCallee())
            {
                calleeInfo(o, F);
                noteFn(F);
                if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic())
                    o["method"] = true;
            }
            o["a"] = args(X);
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<CallExpr>(E))
        {
            auto o = node("Call", E);
            if (auto *F = X->getDirectCallee())
            {
                calleeInfo(o, F);
                noteFn(F);
                if (auto id = F->getBuiltinID())
                    o["builtin"] = std::string(C.BuiltinInfo.getName(id));
                // explicit template arguments that are types (e.g. duration_cast<ms>)
                if (auto *A = F->getTemplateSpecializationArgs())
                {
                    json::Array ta, ti;
                    for (unsigned i = 0; i < A->size(); ++i)
                        if (A->get(i).getKind() == TemplateArgument::Type)
                            ta.push_back(tyLam(A->get(i).getAsType()));
                        else if (A->get(i).getKind() == TemplateArgument::Integral)
                            ti.push_back(A->get(i).getAsIntegral().getExtValue());
                    o["ta"] = std::move(ta);
                    if (!ti.empty())
                        o["ti"] = std::move(ti);
                }
            }
            else
                o["fe"] = stmt(X->getCallee());
            o["a"] = args(X);
            if (auto *UL = dyn_cast<UserDefinedLiteral>(E))
            {
                o["udl"] = UL->getUDSuffix()->getName();
                if (auto *F = UL->getDirectCallee())
                    if (auto *A = F->getTemplateSpecializationArgs())
                    {
                        std::string s;
                        for (unsigned i = 0; i < A->size(); ++i)
                        {
                            auto &a = A->get(i);
                            if (a.getKind() == TemplateArgument::Pack)
                                for (auto &e : a.pack_elements())
                                    if (e.getKind() == TemplateArgument::Integral)
                                        s += (char)e.getAsIntegral().getExtValue();
                        }
                        o["udlv"] = s;
                    }
            }
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<MemberExpr>(E))
        {
            auto o = node("Member", E);
            o["b"] = stmt(X->getBase());
            o["arrow"] = X->isArrow();
            o["n"] = X->getMemberDecl()->getNameAsString();
            if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl()))
            {
                if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent()))
                    o["cls"] = recId(R);
                o["field"] = true;
            }
            else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl()))
            {
                auto g = node("Ref", E);
                g["id"] = varId(V);
                g["n"] = V->getNameAsString();
                g["g"] = true;
                g["t"] = ty(E->getType());
                return g;
            }
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<DeclRefExpr>(E))
        {
            auto *D = X->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D))
            {
                auto o = node("FnRef", E);
                calleeInfo(o, F);
                noteFn(F);
                return o;
            }
            if (auto *EC = dyn_cast<EnumConstantDecl>(D))
            {
                auto o = node("Int", E);
                o["v"] = EC->getInitVal().getExtValue();
                tl(o);
                return o;
            }
            auto o = node("Ref", E);
            o["id"] = varId(D);
            o["n"] = D->getNameAsString();
            if (X->refersToEnclosingVariableOrCapture())
                o["cap"] = true;
            if (auto *V = dyn_cast<VarDecl>(D))
            {
                if (V->hasGlobalStorage())
                    o["g"] = true;
                o["vt"] = ty(V->getType());
            }
            if (auto *B = dyn_cast<BindingDecl>(D))
            {
                o["binding"] = true;
                (void)B;
            }
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<UnaryOperator>(E))
        {
            auto o = node("Un", E);
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "post" : "");
            o["e"] = stmt(X->getSubExpr());
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<BinaryOperator>(E))
        {
            auto o = node("Bin", E);
            o["op"] = X->getOpcodeStr().str();
            o["a"] = stmt(X->getLHS());
            o["b"] = stmt(X->getRHS());
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<AbstractConditionalOperator>(E))
        {
            auto o = node("Cond", E);
            o["c"] = stmt(X->getCond());
            o["a"] = stmt(X->getTrueExpr());
            o["b"] = stmt(X->getFalseExpr());
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
        {
            auto o = node("Index", E);
            o["a"] = stmt(X->getBase());
            o["b"] = stmt(X->getIdx());
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<InitListExpr>(E))
        {
            const InitListExpr *L = X->isSemanticForm() ? X : X->getSemanticForm();
            if (!L)
                L = X;
            if (L->isTransparent() && L->getNumInits() == 1)
                return stmt(L->getInit(0));
            auto o = node("InitList", E);
            json::Array a;
            for (auto *i : L->inits())
                a.push_back(opt(i));
            o["a"] = std::move(a);
            if (auto *R = E->getType()->getAsCXXRecordDecl())
            {
                o["rec"] = recId(R);
                json::Array f;
                for (auto &b : R->bases())
                    f.push_back("base:" + ty(b.getType()));
                for (auto *fd : R->fields())
                    f.push_back(fd->getNameAsString());
                o["fields"] = std::move(f);
            }
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
        {
            auto o = node("StdInitList", E);
            o["e"] = stmt(X->getSubExpr());
            tl(o);
            return o;
        }
        if (isa<CXXThisExpr>(E))
        {
            auto o = node("This", E);
            if (auto *R = E->getType()->getPointeeCXXRecordDecl())
                o["rec"] = recId(R);
            return o;
        }
        if (auto *X = dyn_cast<LambdaExpr>(E))
        {
            auto o = node("Lambda", E);
            auto *R = X->getLambdaClass();
            o["rec"] = recId(R);
            json::Array caps;
            auto init = X->capture_init_begin();
            for (auto &c : X->captures())
            {
                json::Object co;
                if (c.capturesThis())
                    co["this"] = true;
                else if (c.capturesVariable())
                {
                    co["id"] = varId(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["vt"] = ty(c.getCapturedVar()->getType());
                    if (auto *VD = dyn_cast<VarDecl>(c.getCapturedVar()))
                        if (VD->isInitCapture())
                            co["initcap"] = true;
                }
                co["ref"] = c.getCaptureKind() == LCK_ByRef;
                if (init != X->capture_init_end())
                {
                    co["init"] = opt(*init);
                    ++init;
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            dumpLambdaOps(R);
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E))
        {
            auto o = node("Throw", E);
            o["e"] = opt(X->getSubExpr());
            if (X->getSubExpr())
                o["tt"] = ty(X->getSubExpr()->getType());
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
            return node("NullPtr", E);
        if (auto *X = dyn_cast<StringLiteral>(E))
        {
            auto o = node("Str", E);
            if (X->getCharByteWidth() == 1)
                o["v"] = json::fixUTF8(X->getString());
            return o;
        }
        if (auto *X = dyn_cast<FloatingLiteral>(E))
        {
            auto o = node("Float", E);
            o["v"] = X->getValueAsApproximateDouble();
            return o;
        }
        if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E))
        {
            auto o = node("Zero", E);
            if (auto *R = E->getType()->getAsCXXRecordDecl())
                o["rec"] = recId(R);
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<VAArgExpr>(E))
        {
            auto o = node("VAArg", E);
            o["e"] = stmt(X->getSubExpr());
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<StmtExpr>(E))
        {
            auto o = node("StmtExpr", E);
            o["b"] = stmt(X->getSubStmt());
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<AtomicExpr>(E))
        {
            auto o = node("Atomic", E);
            json::Array a;
            for (unsigned i = 0; i < X->getNumSubExprs(); ++i)
                a.push_back(opt(const_cast<AtomicExpr *>(X)->getSubExprs()[i]));
            o["a"] = std::move(a);
            tl(o);
            return o;
        }
        if (auto *X = dyn_cast<PredefinedExpr>(E))
        {
            auto o = node("Str", E);
            if (X->getFunctionName())
                o["v"] = json::fixUTF8(X->getFunctionName()->getString());
            return o;
        }
        if (isa<CXXNoexceptExpr>(E) || isa<TypeTraitExpr>(E) || isa<UnaryExprOrTypeTraitExpr>(E))
        {
            auto o = node("Opaque", E);
            tl(o);
            return o;
        }
        auto o = node("Unsupported", E);
        o["cls"] = E->getStmtClassName();
        json::Array a;
        for (auto *s : E->children())
            a.push_back(opt(s));
        o["a"] = std::move(a);
        tl(o);
        return o;
    }
    void dumpLambdaOps(const CXXRecordDecl *R)
    {
        dumpRecord(R);
        if (auto *FT = R->getDependentLambdaCallOperator())
        {
            for (auto *S : FT->specializations())
                if (S->hasBody())
                    dumpFunction(S);
        }
        else if (auto *Op = R->getLambdaCallOperator())
            if (Op->hasBody())
                dumpFunction(Op);
    }
    void dumpRecord(const CXXRecordDecl *R)
    {
        if (!R || !R->hasDefinition())
            return;
        R = R->getDefinition();
        if (R->isDependentType() || !doneRec.insert(R).second)
            return;
        json::Object o;
        o["id"] = recId(R);
        o["q"] = qname(R);
        o["l"] = loc(R->getLocation());
        if (R->isLambda())
            o["lambda"] = true;
        o["poly"] = R->isPolymorphic();
        json::Array bases, fields;
        bool layout = !R->isInvalidDecl();
        const ASTRecordLayout *L = layout ? &C.getASTRecordLayout(R) : nullptr;
        for (auto &b : R->bases())
        {
            json::Object bo;
            auto *BR = b.getType()->getAsCXXRecordDecl();
            bo["id"] = recId(BR);
            if (L && BR && !b.isVirtual())
                bo["off"] = (int64_t)L->getBaseClassOffset(BR).getQuantity();
            bases.push_back(std::move(bo));
        }
        for (auto *f : R->fields())
        {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = ty(f->getType());
            if (auto *FR = f->getType().getNonReferenceType()->getAsCXXRecordDecl())
            {
                fo["rec"] = recId(FR);
                fo["dtor"] = !f->getType()->isReferenceType() && FR->hasDefinition() && !FR->hasTrivialDestructor();
            }
            fo["l"] = loc(f->getLocation());
            if (L)
                fo["off"] = (int64_t)(L->getFieldOffset(f->getFieldIndex()) / 8);
            fo["size"] = f->getType()->isIncompleteType() ? 0 : (int64_t)C.getTypeSizeInChars(f->getType()).getQuantity();
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = stmt(f->getInClassInitializer());
            fields.push_back(std::move(fo));
        }
        if (L)
            o["size"] = (int64_t)L->getSize().getQuantity();
        o["bases"] = std::move(bases);
        o["fields"] = std::move(fields);
        if (auto *D = R->getDestructor())
        {
            o["dtor"] = fnId(D);
            noteFn(D);
        }
        if (R->isLambda())
        {
            json::Array ops;
            if (auto *FT = R->getDependentLambdaCallOperator())
            {
                for (auto *S : FT->specializations())
                    if (S->hasBody())
                        ops.push_back(fnId(S));
            }
            else if (auto *Op = R->getLambdaCallOperator())
                ops.push_back(fnId(Op));
            o["ops"] = std::move(ops);
            json::Array cf;
            llvm::DenseMap<const ValueDecl *, FieldDecl *> caps;
            FieldDecl *thisCap = nullptr;
            R->getCaptureFields(caps, thisCap);
            (void)cf;
        }
        records.push_back(std::move(o));
    }
    void dumpFunction(const FunctionDecl *F)
    {
        if (F->isDependentContext() || F->isTemplated())
            return;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def) || !Def)
            return;
        F = Def;
        if (F->isDeleted())
            return;
        if (!inRoot(F->getLocation()) && !isLambdaOp(F))
            return;
        if (!doneFn.insert(F->getCanonicalDecl()).second)
            return;
        json::Object o;
        o["id"] = fnId(F);
        o["q"] = qname(F);
        o["l"] = loc(F->getLocation());
        o["el"] = (int64_t)SM.getSpellingLineNumber(SM.getExpansionLoc(F->getEndLoc()));
        o["ret"] = ty(F->getReturnType());
        json::Array ps;
        for (auto *P : F->parameters())
        {
            json::Object po;
            po["id"] = varId(P);
            po["n"] = P->getNameAsString();
            po["t"] = ty(P->getType());
            if (auto *R = P->getType().getNonReferenceType()->getAsCXXRecordDecl())
            {
                po["rec"] = recId(R);
                if (!P->getType()->isReferenceType() && R->hasDefinition() && !R->hasTrivialDestructor())
                    po["dtor"] = true;
            }
            else if (auto *PR = P->getType()->getPointeeCXXRecordDecl())
                po["prec"] = recId(PR);
            ps.push_back(std::move(po));
        }
        o["p"] = std::move(ps);
        if (F->isVariadic())
            o["variadic"] = true;
        if (F->isImplicit())
            o["implicit"] = true;
        if (F->isDefaulted())
            o["defaulted"] = true;
        if (F->hasAttr<NakedAttr>())
            o["naked"] = true;
        if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
            if (FPT->canThrow() == CT_Cannot)
                o["nx"] = true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
        {
            o["cls"] = recId(M->getParent());
            dumpRecord(M->getParent());
            o["const"] = M->isConst();
            o["static"] = M->isStatic();
            o["virt"] = M->isVirtual();
            o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private"
                                                                                                 : "protected";
            json::Array ov;
            for (auto *m : M->overridden_methods())
                ov.push_back(fnId(m));
            o["ov"] = std::move(ov);
        }
        if (auto *K = dyn_cast<CXXConstructorDecl>(F))
        {
            o["ctor"] = true;
            json::Array in;
            for (auto *I : K->inits())
            {
                json::Object io;
                if (I->isMemberInitializer())
                {
                    io["n"] = I->getMember()->getNameAsString();
                    io["t"] = ty(I->getMember()->getType());
                }
                else if (I->isBaseInitializer())
                    io["base"] = ty(QualType(I->getBaseClass(), 0));
                else
                    io["deleg"] = true;
                io["written"] = I->isWritten();
                io["e"] = opt(I->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F))
            o["isdtor"] = true;
        if (F->getTemplateInstantiationPattern())
            o["inst"] = true;
        o["body"] = stmt(F->getBody());
        functions.push_back(std::move(o));
    }
    bool isLambdaOp(const FunctionDecl *F)
    {
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            return M->getParent()->isLambda() && inRoot(M->getParent()->getLocation());
        return false;
    }
    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if (F->isThisDeclarationADefinition() && inRoot(F->getLocation()))
            dumpFunction(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R)
    {
        if (R->isThisDeclarationADefinition() && inRoot(R->getLocation()) && !R->isDependentType())
            dumpRecord(R);
        return true;
    }
    bool VisitVarDecl(VarDecl *V)
    {
        if (V->hasGlobalStorage() && !V->isStaticLocal() && inRoot(V->getLocation()) && !V->getType()->isDependentType() && !V->isTemplated())
        {
            json::Object o;
            o["id"] = varId(V);
            o["t"] = ty(V->getType());
            o["l"] = loc(V->getLocation());
            o["const"] = V->getType().isConstQualified();
            if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && V->hasInit() && !V->getInit()->isValueDependent())
                if (const APValue *val = V->evaluateValue())
                    if (val->isInt() && val->getInt().getSignificantBits() <= 64)
                        o["v"] = val->getInt().getExtValue();
            globals.push_back(std::move(o));
        }
        return true;
    }
};

struct Consumer : public ASTConsumer
{
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (C.getDiagnostics().hasErrorOccurred())
            return;
        Dumper D(C);
        D.TraverseDecl(C.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(D.functions);
        o["records"] = std::move(D.records);
        o["globals"] = std::move(D.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << json::Value(std::move(o));
    }
};
struct Action : public ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};
struct Factory : public tooling::FrontendActionFactory
{
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

int main(int argc, char **argv)
{
    if (argc < 5)
        return 2;
    gRoot = argv[1];
    gOut = argv[2];
    std::string src = argv[3];
    std::vector<std::string> flags;
    int i = 4;
    for (; i < argc && std::string(argv[i]) != "--"; ++i)
        gRoot2 = argv[i];
    for (++i; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, {src});
    Factory F;
    return T.run(&F);
}
