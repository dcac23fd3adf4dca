// Dumps the resolved, type-checked program (clang AST) of one translation unit as JSON.
// Nothing is executed: parsing + semantic analysis only.
// usage: extract OUT.json ROOT[:ROOT...] SOURCE -- CLANG_ARGS...
// Function bodies are emitted for definitions located below one of the ROOTs (this includes implicit instantiations
// of templates defined there and lambda call operators).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclFriend.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <functional>
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutPath;

struct Dumper
{
    ASTContext &C;
    SourceManager &SM;
    ASTNameGenerator Gen;
    std::map<const void *, int> TypeIx;
    Array Types;
    Object Funcs, Decls, Recs, Globals;
    std::set<std::string> SeenFn, SeenRec, SeenDecl, SeenGlobal;
    std::map<const Decl *, int> LocalIx;
    std::deque<const FunctionDecl *> Queue;
    std::map<const FunctionDecl *, std::string> IdCache;
    Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), Gen(C) {}

    std::string file(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        return F.str();
    }
    int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
    bool inRoots(SourceLocation L)
    {
        std::string f = file(L);
        for (auto &r : Roots)
            if (f.rfind(r, 0) == 0)
                return true;
        return false;
    }
    std::string qual(const Decl *D)
    {
        std::string n;
        if (auto *ND = dyn_cast<NamedDecl>(D))
        {
            if (auto *CT = dyn_cast<CXXConstructorDecl>(D))
                n = "#ctor";
            else if (isa<CXXDestructorDecl>(D))
                n = "#dtor";
            else if (isa<CXXConversionDecl>(D))
                n = "#conv";
            else if (ND->getDeclName().isIdentifier())
                n = ND->getName().str();
            else
                n = ND->getNameAsString();
        }
        if (n.empty())
        {
            if (auto *RD = dyn_cast<CXXRecordDecl>(D))
            {
                if (RD->isLambda())
                    n = "(lambda:" + std::to_string(line(RD->getBeginLoc())) + ")";
                else if (auto *TD = RD->getTypedefNameForAnonDecl())
                    n = TD->getName().str();
                else
                    n = "(anon:" + std::to_string(line(RD->getBeginLoc())) + ")";
            }
            else
                n = "(anon)";
        }
        const DeclContext *DC = D->getDeclContext();
        while (DC && !DC->isTranslationUnit())
        {
            if (auto *NS = dyn_cast<NamespaceDecl>(DC))
            {
                if (!NS->isInline())
                    n = (NS->isAnonymousNamespace() ? std::string("(anonns)") : NS->getName().str()) + "::" + n;
            }
            else if (isa<LinkageSpecDecl>(DC))
            {
            }
            else if (auto *ND = dyn_cast<NamedDecl>(DC))
            {
                return qual(cast<Decl>(DC)) + "::" + n;
            }
            DC = DC->getParent();
        }
        return n;
    }

    int type(QualType T)
    {
        T = T.getCanonicalType();
        auto it = TypeIx.find(T.getAsOpaquePtr());
        if (it != TypeIx.end())
            return it->second;
        int ix = (int)Types.size();
        TypeIx[T.getAsOpaquePtr()] = ix;
        Types.push_back(nullptr);
        Object o;
        if (T.isConstQualified())
            o["c"] = true;
        const clang::Type *P = T.getTypePtr();
        if (auto *R = dyn_cast<ReferenceType>(P))
        {
            o["k"] = "ref";
            o["t"] = type(R->getPointeeType());
            if (P->isRValueReferenceType())
                o["rv"] = true;
        }
        else if (auto *R = dyn_cast<PointerType>(P))
        {
            o["k"] = "ptr";
            o["t"] = type(R->getPointeeType());
        }
        else if (P->isNullPtrType())
            o["k"] = "nullptr";
        else if (P->isBooleanType())
        {
            o["k"] = "bool";
        }
        else if (P->isEnumeralType())
        {
            auto *ED = cast<EnumType>(P)->getDecl();
            o["k"] = "int";
            o["w"] = (int64_t)C.getTypeSize(T);
            o["s"] = P->isSignedIntegerOrEnumerationType();
            o["enum"] = qual(ED);
        }
        else if (P->isIntegerType())
        {
            o["k"] = "int";
            o["w"] = (int64_t)C.getTypeSize(T);
            o["s"] = P->isSignedIntegerType();
            if (P->isAnyCharacterType())
                o["ch"] = true;
        }
        else if (P->isRealFloatingType())
        {
            o["k"] = "float";
            o["w"] = (int64_t)C.getTypeSize(T);
        }
        else if (P->isVoidType())
            o["k"] = "void";
        else if (auto *R = dyn_cast<RecordType>(P))
        {
            auto *RD = R->getDecl();
            o["k"] = "rec";
            o["n"] = qual(RD);
            if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(RD))
            {
                Array a;
                for (auto &A : TS->getTemplateArgs().asArray())
                {
                    if (A.getKind() == TemplateArgument::Type)
                        a.push_back(type(A.getAsType()));
                    else if (A.getKind() == TemplateArgument::Integral)
                        a.push_back(Object{{"v", A.getAsIntegral().getExtValue()}});
                    else if (A.getKind() == TemplateArgument::Pack)
                    {
                        for (auto &B : A.pack_elements())
                            if (B.getKind() == TemplateArgument::Type)
                                a.push_back(type(B.getAsType()));
                    }
                }
                o["a"] = std::move(a);
            }
            if (RD->isCompleteDefinition() && !RD->isDependentContext())
                o["sz"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
            if (auto *CR = dyn_cast<CXXRecordDecl>(RD))
            {
                if (CR->isLambda())
                    o["lambda"] = true;
                record(CR);
            }
        }
        else if (auto *R = dyn_cast<ConstantArrayType>(P))
        {
            o["k"] = "arr";
            o["t"] = type(R->getElementType());
            o["n"] = (int64_t)R->getSize().getZExtValue();
        }
        else if (auto *R = dyn_cast<ArrayType>(P))
        {
            o["k"] = "arr";
            o["t"] = type(R->getElementType());
        }
        else if (auto *R = dyn_cast<FunctionProtoType>(P))
        {
            o["k"] = "fn";
            o["ret"] = type(R->getReturnType());
            Array a;
            for (auto q : R->getParamTypes())
                a.push_back(type(q));
            o["ps"] = std::move(a);
        }
        else if (isa<MemberPointerType>(P))
        {
            o["k"] = "mptr";
        }
        else
            o["k"] = "other";
        o["str"] = T.getAsString();
        Types[ix] = std::move(o);
        return ix;
    }

    std::string fid(const FunctionDecl *F)
    {
        F = F->getCanonicalDecl();
        auto it = IdCache.find(F);
        if (it != IdCache.end())
            return it->second;
        std::string s;
        bool local = false;
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
                local = true;
        if (F->isDependentContext())
            local = true;
        if (!local)
        {
            s = Gen.getName(F);
            // internal linkage: disambiguate by file
            if (!F->isExternallyVisible())
                s += "@" + file(F->getLocation()) + ":" + std::to_string(line(F->getLocation()));
        }
        if (s.empty() || local)
        {
            s = qual(F) + "@" + file(F->getLocation()) + ":" + std::to_string(line(F->getLocation())) + ":" +
                std::to_string(SM.getExpansionColumnNumber(F->getLocation()));
            for (auto *P : F->parameters())
                s += "," + P->getType().getCanonicalType().getAsString();
            // a lambda of a template: one per instantiation
            if (auto *M = dyn_cast<CXXMethodDecl>(F))
                if (M->getParent()->isLambda())
                    if (auto *O = dyn_cast<FunctionDecl>(M->getParent()->getDeclContext()))
                        if (O->isTemplateInstantiation() && !O->isDependentContext())
                            s += ",in " + fid(O);
            if (auto *TA = F->getTemplateSpecializationArgs())
                for (auto &A : TA->asArray())
                {
                    std::string t;
                    llvm::raw_string_ostream os(t);
                    A.print(PrintingPolicy(C.getLangOpts()), os, true);
                    s += "<" + os.str() + ">";
                }
        }
        IdCache[F] = s;
        return s;
    }

    int local(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto it = LocalIx.find(D);
        if (it != LocalIx.end())
            return it->second;
        int n = (int)LocalIx.size() + 1;
        LocalIx[D] = n;
        return n;
    }

    std::string fref(const FunctionDecl *F)
    {
        std::string id = fid(F);
        if (SeenDecl.insert(id).second)
        {
            Object o;
            o["name"] = qual(F);
            if (auto *P = F->getPrimaryTemplate())
                o["tmpl"] = true;
            if (auto *TA = F->getTemplateSpecializationArgs())
            {
                Array a;
                for (auto &A : TA->asArray())
                {
                    if (A.getKind() == TemplateArgument::Type)
                        a.push_back(type(A.getAsType()));
                    else if (A.getKind() == TemplateArgument::Integral)
                        a.push_back(Object{{"v", A.getAsIntegral().getExtValue()}});
                    else if (A.getKind() == TemplateArgument::Pack)
                    {
                        for (auto &B : A.pack_elements())
                            if (B.getKind() == TemplateArgument::Type)
                                a.push_back(type(B.getAsType()));
                    }
                }
                o["targs"] = std::move(a);
            }
            Array ps;
            for (auto *P : F->parameters())
                ps.push_back(type(P->getType()));
            o["ps"] = std::move(ps);
            o["ret"] = type(F->getReturnType());
            if (auto *M = dyn_cast<CXXMethodDecl>(F))
            {
                o["rec"] = qual(M->getParent());
                o["rect"] = type(QualType(M->getParent()->getTypeForDecl(), 0));
                if (M->isStatic())
                    o["static"] = true;
                if (M->isConst())
                    o["const"] = true;
                if (M->isVirtual())
                    o["virtual"] = true;
                if (M->isPureVirtual())
                    o["pure"] = true;
                if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator())
                    o["copyassign"] = true;
                Array ov;
                for (auto *O : M->overridden_methods())
                    ov.push_back(fid(O));
                if (!ov.empty())
                    o["ov"] = std::move(ov);
            }
            if (auto *K = dyn_cast<CXXConstructorDecl>(F))
            {
                o["ctor"] = true;
                if (K->isCopyConstructor())
                    o["copy"] = true;
                if (K->isMoveConstructor())
                    o["move"] = true;
                if (K->isDefaultConstructor())
                    o["default"] = true;
                if (K->isExplicit())
                    o["explicit"] = true;
            }
            if (F->isDefaulted())
                o["defaulted"] = true;
            if (F->isDeleted())
                o["deleted"] = true;
            if (F->isInlineSpecified() || F->isInlined())
                o["inline"] = true;
            if (auto A = F->getAccess(); A == AS_public)
                o["pub"] = true;
            o["file"] = file(F->getLocation());
            o["line"] = line(F->getLocation());
            int nd = 0;
            Object defs;
            if (inRoots(F->getLocation()))
            {
                unsigned ix = 0;
                for (auto *P : F->parameters())
                {
                    if (P->hasDefaultArg())
                    {
                        ++nd;
                        if (!P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg())
                            defs[std::to_string(ix)] = expr(const_cast<ParmVarDecl *>(P)->getDefaultArg());
                    }
                    ++ix;
                }
            }
            if (nd)
            {
                o["ndef"] = nd;
                o["defs"] = std::move(defs);
            }
            Decls[id] = std::move(o);
        }
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def) && Def && !Def->isDependentContext() && inRoots(Def->getLocation()))
            Queue.push_back(Def);
        return id;
    }

    Value var(const VarDecl *V)
    {
        Object o;
        o["id"] = local(V);
        o["name"] = V->getNameAsString();
        o["t"] = type(V->getType());
        return o;
    }

    void global(const VarDecl *V)
    {
        std::string n = qual(V);
        if (!SeenGlobal.insert(n).second)
            return;
        Object o;
        o["t"] = type(V->getType());
        o["const"] = V->getType().isConstQualified() || V->isConstexpr();
        o["file"] = file(V->getLocation());
        o["line"] = line(V->getLocation());
        const VarDecl *D = nullptr;
        const Expr *I = V->getAnyInitializer(D);
        if (I && !I->isValueDependent() && inRoots(V->getLocation()))
            o["init"] = expr(I);
        Globals[n] = std::move(o);
    }

    bool constant(const Expr *E, Object &o)
    {
        if (E->isValueDependent() || E->isTypeDependent() || E->isGLValue())
            return false;
        QualType T = E->getType().getCanonicalType();
        if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType()))
            return false;
        Expr::EvalResult R;
        if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects)
            return false;
        if (R.Val.isInt())
        {
            o["k"] = "int";
            llvm::SmallString<32> s;
            R.Val.getInt().toString(s, 10);
            o["v"] = std::string(s.str());
            return true;
        }
        if (R.Val.isFloat())
        {
            o["k"] = "flt";
            llvm::APFloat f = R.Val.getFloat();
            bool li;
            f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
            char buf[64];
            snprintf(buf, sizeof buf, "%.17g", f.convertToDouble());
            o["v"] = std::string(buf);
            return true;
        }
        return false;
    }

    Value args(llvm::iterator_range<CallExpr::const_arg_iterator> R)
    {
        Array a;
        for (auto *E : R)
            a.push_back(expr(E));
        return a;
    }

    const Expr *strip(const Expr *E)
    {
        for (;;)
        {
            if (auto *X = dyn_cast<FullExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<ParenExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
                E = X->getExpr();
            else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
                E = X->getExpr();
            else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                E = X->getReplacement();
            else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
                E = X->getSubExpr();
            else if (auto *X = dyn_cast<ImplicitCastExpr>(E))
            {
                auto k = X->getCastKind();
                if (k == CK_LValueToRValue || k == CK_NoOp || k == CK_FunctionToPointerDecay ||
                    k == CK_UserDefinedConversion || k == CK_ConstructorConversion || k == CK_BuiltinFnToFnPtr)
                    E = X->getSubExpr();
                else
                    return E;
            }
            else if (auto *X = dyn_cast<ExplicitCastExpr>(E))
            {
                auto k = X->getCastKind();
                if (k == CK_NoOp || k == CK_UserDefinedConversion || k == CK_ConstructorConversion ||
                    k == CK_LValueToRValue)
                    E = X->getSubExpr();
                else
                    return E;
            }
            else
                return E;
        }
    }

    Value expr(const Expr *E)
    {
        Object o;
        int T = type(E->getType());
        int L = line(E->getBeginLoc());
        if (constant(E, o))
        {
            o["t"] = T;
            o["l"] = L;
            return o;
        }
        E = strip(E);
        o["t"] = type(E->getType());
        o["l"] = line(E->getExprLoc());
        if (E->isGLValue())
            o["lv"] = E->isXValue() ? 2 : 1;
        if (E->isPRValue() && constant(E, o))
            return o;
        if (auto *X = dyn_cast<DeclRefExpr>(E))
        {
            auto *D = X->getDecl();
            if (auto *V = dyn_cast<VarDecl>(D))
            {
                if (V->isLocalVarDeclOrParm())
                {
                    o["k"] = "var";
                    o["id"] = local(V);
                    o["name"] = V->getNameAsString();
                    if (V->isStaticLocal())
                        o["static"] = true;
                }
                else
                {
                    o["k"] = "gvar";
                    o["name"] = qual(V);
                    global(V);
                }
            }
            else if (auto *F = dyn_cast<FunctionDecl>(D))
            {
                o["k"] = "fn";
                o["fn"] = fref(F);
            }
            else if (auto *B = dyn_cast<BindingDecl>(D))
            {
                o["k"] = "var";
                o["id"] = local(B);
                o["name"] = B->getNameAsString();
                o["binding"] = true;
            }
            else if (auto *M = dyn_cast<FieldDecl>(D))
            {
                o["k"] = "mptr";    // only ever under the & of a pointer to member
                o["f"] = fieldName(M);
            }
            else
            {
                o["k"] = "unk";
                o["cls"] = std::string("declref:") + D->getDeclKindName();
            }
        }
        else if (auto *X = dyn_cast<MemberExpr>(E))
        {
            if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl()))
            {
                o["k"] = "mem";
                o["f"] = fieldName(F);
                o["arrow"] = X->isArrow();
                if (F->getType()->isReferenceType())
                    o["rf"] = true;
                o["b"] = expr(X->getBase());
            }
            else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl()))
            {
                o["k"] = "gvar";
                o["name"] = qual(V);
                global(V);
            }
            else
            {
                o["k"] = "unk";
                o["cls"] = "member-fn";
            }
        }
        else if (isa<CXXThisExpr>(E))
            o["k"] = "this";
        else if (auto *X = dyn_cast<StringLiteral>(E))
        {
            o["k"] = "str";
            o["v"] = X->isUTF8() || X->isOrdinary() ? jsonSafe(X->getString().str()) : "";
        }
        else if (auto *X = dyn_cast<UnaryOperator>(E))
        {
            o["k"] = "un";
            o["op"] = (std::string(X->isPostfix() ? "post" : "") + UnaryOperator::getOpcodeStr(X->getOpcode()).str());
            o["e"] = expr(X->getSubExpr());
        }
        else if (auto *X = dyn_cast<CompoundAssignOperator>(E))
        {
            o["k"] = "asgop";
            std::string op = X->getOpcodeStr().str();
            op.pop_back();
            o["op"] = op;
            o["ct"] = type(X->getComputationResultType());
            o["clt"] = type(X->getComputationLHSType());
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
        }
        else if (auto *X = dyn_cast<BinaryOperator>(E))
        {
            o["k"] = X->isAssignmentOp() ? "asg" : X->isPtrMemOp() ? "pm" : "bin";
            o["op"] = X->getOpcodeStr().str();
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
        }
        else if (auto *X = dyn_cast<ConditionalOperator>(E))
        {
            o["k"] = "cond";
            o["c"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
        }
        else if (auto *X = dyn_cast<CastExpr>(E))
        {
            o["k"] = "cast";
            o["ck"] = std::string(X->getCastKindName());
            if (isa<CXXDynamicCastExpr>(X))
                o["dyn"] = true;
            o["e"] = expr(X->getSubExpr());
        }
        else if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
        {
            o["k"] = "idx";
            o["b"] = expr(X->getBase());
            o["i"] = expr(X->getIdx());
        }
        else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E))
        {
            auto *F = X->getDirectCallee();
            o["k"] = "call";
            if (!F)
            {
                o["k"] = "unk";
                o["cls"] = "opcall";
            }
            else
            {
                o["fn"] = fref(F);
                o["oper"] = true;
                Array a;
                bool meth = isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
                for (unsigned i = 0; i < X->getNumArgs(); ++i)
                {
                    if (i == 0 && meth)
                        o["obj"] = expr(X->getArg(0));
                    else
                        a.push_back(expr(X->getArg(i)));
                }
                o["args"] = std::move(a);
                lambdaBody(F);
            }
        }
        else if (auto *X = dyn_cast<CXXMemberCallExpr>(E))
        {
            auto *F = X->getMethodDecl();
            o["k"] = "call";
            if (!F)
            {
                o["k"] = "unk";
                o["cls"] = "memptrcall";
            }
            else
            {
                o["fn"] = fref(F);
                o["obj"] = expr(X->getImplicitObjectArgument());
                if (auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee())))
                {
                    o["arrow"] = ME->isArrow();
                    if (F->isVirtual() && !ME->hasQualifier())
                        o["virt"] = true;
                }
                o["args"] = args(X->arguments());
                lambdaBody(F);
            }
        }
        else if (auto *X = dyn_cast<CallExpr>(E))
        {
            o["k"] = "call";
            if (auto *F = X->getDirectCallee())
            {
                o["fn"] = fref(F);
                lambdaBody(F);
            }
            else
                o["callee"] = expr(X->getCallee());
            o["args"] = args(X->arguments());
        }
        else if (auto *X = dyn_cast<CXXConstructExpr>(E))
        {
            o["k"] = "ctor";
            o["fn"] = fref(X->getConstructor());
            if (isa<CXXTemporaryObjectExpr>(X))
                o["tmp"] = true;
            if (X->isListInitialization())
                o["list"] = true;
            if (X->requiresZeroInitialization())
                o["zero"] = true;
            o["args"] = args(X->arguments());
        }
        else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E))
        {
            o["k"] = "inhctor";
            o["fn"] = fref(X->getConstructor());
        }
        else if (auto *X = dyn_cast<InitListExpr>(E))
        {
            if (X->isSyntacticForm() && X->getSemanticForm())
                X = X->getSemanticForm();
            o["k"] = "ilist";
            Array a;
            for (unsigned i = 0; i < X->getNumInits(); ++i)
                a.push_back(expr(X->getInit(i)));
            o["e"] = std::move(a);
            if (X->hasArrayFiller())
                o["fill"] = expr(X->getArrayFiller());
        }
        else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
            o["k"] = "zero";
        else if (auto *X = dyn_cast<CXXNewExpr>(E))
        {
            o["k"] = "new";
            o["nt"] = type(X->getAllocatedType());
            if (X->isArray())
            {
                o["arr"] = true;
                if (X->getArraySize() && *X->getArraySize())
                    o["n"] = expr(*X->getArraySize());
            }
            if (X->getInitializer())
                o["e"] = expr(X->getInitializer());
        }
        else if (auto *X = dyn_cast<CXXDeleteExpr>(E))
        {
            o["k"] = "delete";
            o["e"] = expr(X->getArgument());
        }
        else if (auto *X = dyn_cast<CXXThrowExpr>(E))
        {
            o["k"] = "throw";
            if (X->getSubExpr())
            {
                o["et"] = type(X->getSubExpr()->getType());
                o["e"] = expr(X->getSubExpr());
            }
        }
        else if (auto *X = dyn_cast<LambdaExpr>(E))
        {
            o["k"] = "lambda";
            Array caps;
            for (auto &Cp : X->captures())
            {
                Object c;
                if (Cp.capturesThis())
                {
                    c["this"] = true;
                    if (Cp.getCaptureKind() == LCK_StarThis)
                        c["copy"] = true;
                }
                else if (Cp.capturesVariable())
                {
                    auto *V = Cp.getCapturedVar();
                    c["id"] = local(V);
                    c["name"] = V->getNameAsString();
                    c["byref"] = Cp.getCaptureKind() == LCK_ByRef;
                    if (auto *VV = dyn_cast<VarDecl>(V))
                        if (VV->isInitCapture() && VV->getInit())
                            c["init"] = expr(VV->getInit());
                }
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            auto *CO = X->getCallOperator();
            if (!CO->isDependentContext())
            {
                o["fn"] = fref(CO);
                emitFn(CO);
            }
            else if (auto *FT = X->getLambdaClass()->getDependentLambdaCallOperator())
            {
                // a generic lambda: the bodies it was instantiated with
                Array fns;
                for (auto *S : FT->specializations())
                {
                    if (S->isDependentContext() || !S->hasBody())
                        continue;
                    fns.push_back(fref(S));
                    lambdaBody(S);
                }
                if (fns.size() == 1)
                    o["fn"] = fns[0];
                o["fns"] = std::move(fns);
            }
        }
        else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E))
        {
            o["k"] = "arrcopy";
            o["e"] = expr(X->getCommonExpr()->getSourceExpr());
        }
        else if (auto *X = dyn_cast<OpaqueValueExpr>(E))
        {
            if (X->getSourceExpr())
                return expr(X->getSourceExpr());
            o["k"] = "unk";
            o["cls"] = "opaque";
        }
        else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
            o["k"] = "null";
        else if (auto *X = dyn_cast<PredefinedExpr>(E))
        {
            o["k"] = "str";
            o["v"] = "__func__";
        }
        else
        {
            o["k"] = "unk";
            o["cls"] = E->getStmtClassName();
        }
        return o;
    }
    std::string jsonSafe(std::string s)
    {
        if (llvm::json::isUTF8(s))
            return s;
        return llvm::json::fixUTF8(s);
    }
    void lambdaBody(const FunctionDecl *F)
    {
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda() && !M->isDependentContext())
                Queue.push_back(F);
    }
    std::string fieldName(const FieldDecl *F)
    {
        std::string n = F->getNameAsString();
        if (n.empty())
            n = "(anonfield:" + std::to_string(F->getFieldIndex()) + ")";
        std::string q = qual(F->getParent());
        return q.rfind("std::", 0) == 0 ? n : q + "::" + n;
    }

    Value block(const Stmt *S)
    {
        return stmt(S);
    }
    Value stmt(const Stmt *S)
    {
        Object o;
        if (!S)
        {
            o["k"] = "nop";
            return o;
        }
        o["l"] = line(S->getBeginLoc());
        if (auto *X = dyn_cast<CompoundStmt>(S))
        {
            o["k"] = "blk";
            Array a;
            for (auto *s : X->body())
                a.push_back(stmt(s));
            o["s"] = std::move(a);
        }
        else if (auto *X = dyn_cast<DeclStmt>(S))
        {
            Array a;
            for (auto *D : X->decls())
            {
                auto *V = dyn_cast<VarDecl>(D);
                if (!V)
                    continue;
                Object d;
                d["id"] = local(V);
                d["name"] = V->getNameAsString();
                d["t"] = type(V->getType());
                if (V->isStaticLocal())
                    d["static"] = true;
                if (V->getInit())
                    d["init"] = expr(V->getInit());
                if (auto *DD = dyn_cast<DecompositionDecl>(V))
                {
                    Array b;
                    int ix = 0;
                    for (auto *B : DD->bindings())
                    {
                        Object bo;
                        bo["id"] = local(B);
                        bo["ix"] = ix++;
                        bo["t"] = type(B->getType());
                        if (auto *ME = dyn_cast_or_null<MemberExpr>(B->getBinding()))
                            if (auto *F = dyn_cast<FieldDecl>(ME->getMemberDecl()))
                                bo["f"] = fieldName(F);
                        b.push_back(std::move(bo));
                    }
                    d["bind"] = std::move(b);
                }
                a.push_back(std::move(d));
            }
            o["k"] = "decl";
            o["d"] = std::move(a);
        }
        else if (auto *X = dyn_cast<ReturnStmt>(S))
        {
            o["k"] = "ret";
            if (X->getRetValue())
                o["e"] = expr(X->getRetValue());
        }
        else if (auto *X = dyn_cast<IfStmt>(S))
        {
            o["k"] = "if";
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt())
                o["cv"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getThen());
            if (X->getElse())
                o["b"] = stmt(X->getElse());
        }
        else if (auto *X = dyn_cast<WhileStmt>(S))
        {
            o["k"] = "for";
            if (X->getConditionVariableDeclStmt())
                o["cv"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<ForStmt>(S))
        {
            o["k"] = "for";
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt())
                o["cv"] = stmt(X->getConditionVariableDeclStmt());
            if (X->getCond())
                o["c"] = expr(X->getCond());
            if (X->getInc())
                o["inc"] = expr(X->getInc());
            o["b"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<CXXForRangeStmt>(S))
        {
            o["k"] = "for";
            o["range"] = true;
            Array a;
            if (X->getInit())
                a.push_back(stmt(X->getInit()));
            a.push_back(stmt(X->getRangeStmt()));
            a.push_back(stmt(X->getBeginStmt()));
            a.push_back(stmt(X->getEndStmt()));
            o["init"] = Object{{"k", "seq"}, {"s", std::move(a)}, {"l", line(S->getBeginLoc())}};
            o["c"] = expr(X->getCond());
            o["inc"] = expr(X->getInc());
            o["rv"] = stmt(X->getLoopVarStmt());
            o["b"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<DoStmt>(S))
        {
            o["k"] = "do";
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<SwitchStmt>(S))
        {
            o["k"] = "switch";
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt())
                o["cv"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = expr(X->getCond());
            // flatten to a list of items: {case:v} | {default} | stmt
            Array items;
            std::function<void(const Stmt *)> flat = [&](const Stmt *s) {
                if (auto *K = dyn_cast<CaseStmt>(s))
                {
                    Object c;
                    c["k"] = "case";
                    c["v"] = expr(K->getLHS());
                    if (K->getRHS())
                        c["hi"] = expr(K->getRHS());
                    items.push_back(std::move(c));
                    flat(K->getSubStmt());
                }
                else if (auto *K = dyn_cast<DefaultStmt>(s))
                {
                    items.push_back(Object{{"k", "default"}});
                    flat(K->getSubStmt());
                }
                else
                    items.push_back(stmt(s));
            };
            if (auto *B = dyn_cast<CompoundStmt>(X->getBody()))
                for (auto *s : B->body())
                    flat(s);
            else
                flat(X->getBody());
            o["items"] = std::move(items);
        }
        else if (isa<BreakStmt>(S))
            o["k"] = "break";
        else if (isa<ContinueStmt>(S))
            o["k"] = "continue";
        else if (isa<NullStmt>(S))
            o["k"] = "nop";
        else if (auto *X = dyn_cast<CXXTryStmt>(S))
        {
            o["k"] = "try";
            o["b"] = stmt(X->getTryBlock());
            Array a;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i)
            {
                auto *H = X->getHandler(i);
                Object h;
                if (H->getExceptionDecl())
                {
                    h["v"] = var(H->getExceptionDecl());
                }
                h["b"] = stmt(H->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
        }
        else if (auto *X = dyn_cast<AttributedStmt>(S))
            return stmt(X->getSubStmt());
        else if (auto *X = dyn_cast<LabelStmt>(S))
        {
            o["k"] = "unk";
            o["cls"] = "label";
        }
        else if (auto *X = dyn_cast<Expr>(S))
        {
            o["k"] = "ex";
            o["e"] = expr(X);
        }
        else
        {
            o["k"] = "unk";
            o["cls"] = S->getStmtClassName();
        }
        return o;
    }

    void emitFn(const FunctionDecl *F)
    {
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def) || !Def || Def->isDependentContext())
            return;
        std::string id = fid(F);
        if (!SeenFn.insert(id).second)
            return;
        fref(F);
        Object o;
        o["file"] = file(Def->getLocation());
        o["line"] = line(Def->getLocation());
        o["end"] = line(Def->getEndLoc());
        Array ps;
        for (auto *P : Def->parameters())
            ps.push_back(var(P));
        o["ps"] = std::move(ps);
        if (auto *K = dyn_cast<CXXConstructorDecl>(Def))
        {
            Array in;
            for (auto *I : K->inits())
            {
                Object i;
                if (I->isAnyMemberInitializer())
                    i["f"] = fieldName(I->getAnyMember());
                else if (I->isBaseInitializer())
                    i["base"] = type(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer())
                    i["deleg"] = true;
                if (I->isWritten())
                    i["w"] = true;
                i["e"] = expr(I->getInit());
                in.push_back(std::move(i));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = stmt(Def->getBody());
        Funcs[id] = std::move(o);
    }

    void record(const CXXRecordDecl *R)
    {
        if (!R->hasDefinition())
            return;
        R = R->getDefinition();
        std::string n = qual(R);
        std::string f = file(R->getLocation());
        bool repo = inRoots(R->getLocation());
        bool laz = n.rfind("lazperf::", 0) == 0;
        if (!(repo || laz) || R->isDependentContext())
            return;
        if (!SeenRec.insert(n).second)
            return;
        Object o;
        o["file"] = f;
        o["line"] = line(R->getLocation());
        o["repo"] = repo;
        Array bs, fs, ms;
        for (auto &B : R->bases())
        {
            bs.push_back(type(B.getType()));
            if (auto *BR = B.getType()->getAsCXXRecordDecl())
                record(BR);
        }
        for (auto *F : R->fields())
        {
            Object fo;
            fo["n"] = fieldName(F);
            fo["t"] = type(F->getType());
            if (F->isMutable())
                fo["mut"] = true;
            if (F->hasInClassInitializer() && F->getInClassInitializer())
                fo["init"] = expr(F->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        for (auto *M : R->methods())
        {
            if (M->isDependentContext() || M->getDescribedFunctionTemplate())
                continue;
            ms.push_back(fref(M));
        }
        o["bases"] = std::move(bs);
        o["fields"] = std::move(fs);
        o["methods"] = std::move(ms);
        if (R->hasUserDeclaredCopyConstructor())
            o["udcopy"] = true;
        if (R->hasTrivialCopyConstructor())
            o["trivcopy"] = true;
        if (R->isAggregate())
            o["agg"] = true;
        if (R->isUnion())
            o["union"] = true;
        if (auto *D = R->getDestructor())
            o["dtor"] = fref(D);
        Recs[n] = std::move(o);
    }

    void walk(const DeclContext *DC)
    {
        for (auto *D : DC->decls())
        {
            if (isa<NamespaceDecl>(D) || isa<LinkageSpecDecl>(D))
            {
                walk(cast<DeclContext>(D));
                continue;
            }
            if (!inRoots(D->getLocation()))
                continue;
            if (auto *F = dyn_cast<FunctionDecl>(D))
                fn(F);
            else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D))
            {
                for (auto *S : FT->specializations())
                    fn(S);
            }
            else if (auto *CT = dyn_cast<ClassTemplateDecl>(D))
            {
                for (auto *S : CT->specializations())
                    rec(S);
            }
            else if (auto *R = dyn_cast<CXXRecordDecl>(D))
                rec(R);
            else if (auto *V = dyn_cast<VarDecl>(D))
            {
                if (!V->isTemplated())
                    global(V);
            }
        }
    }
    void fn(const FunctionDecl *F)
    {
        if (F->isDependentContext() || F->isInvalidDecl())
            return;
        fref(F);
        emitFn(F);
    }
    void rec(const CXXRecordDecl *R)
    {
        if (R->isDependentContext() || !R->hasDefinition())
            return;
        if (R->getDefinition() != R)
        {
            record(R);
            return;
        }
        record(R);
        walk(R);
        for (auto *D : R->decls())
        {
            if (auto *Fr = dyn_cast<FriendDecl>(D))
                if (auto *ND = Fr->getFriendDecl())
                {
                    if (auto *F = dyn_cast<FunctionDecl>(ND))
                        fn(F);
                }
        }
    }
    void run()
    {
        walk(C.getTranslationUnitDecl());
        while (!Queue.empty())
        {
            auto *F = Queue.front();
            Queue.pop_front();
            emitFn(F);
        }
        std::error_code EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        Object top;
        top["types"] = std::move(Types);
        top["funcs"] = std::move(Funcs);
        top["decls"] = std::move(Decls);
        top["recs"] = std::move(Recs);
        top["globals"] = std::move(Globals);
        os << Value(std::move(top));
    }
};

struct Consumer : ASTConsumer
{
    CompilerInstance &CI;
    Consumer(CompilerInstance &CI) : CI(CI) {}
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (CI.getDiagnostics().hasErrorOccurred())
            return;
        Dumper D(C);
        D.run();
    }
};
struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};

int main(int argc, const char **argv)
{
    if (argc < 5)
    {
        llvm::errs() << "usage: extract OUT ROOTS SRC -- ARGS\n";
        return 2;
    }
    OutPath = argv[1];
    std::string r = argv[2];
    size_t p = 0;
    while (p != std::string::npos)
    {
        size_t q = r.find(':', p);
        Roots.push_back(r.substr(p, q == std::string::npos ? q : q - p));
        p = q == std::string::npos ? q : q + 1;
    }
    std::vector<std::string> cmd{"/usr/lib/llvm-18/bin/clang++"};
    for (int i = 5; i < argc; ++i)
        cmd.push_back(argv[i]);
    cmd.push_back("-fsyntax-only");
    cmd.push_back(argv[3]);
    IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation TI(cmd, std::make_unique<Action>(), FM.get());
    return TI.run() ? 0 : 1;
}
