// Fact extractor: parses one translation unit with clang's front end and writes, as JSON, the
// type-checked program restricted to declarations written under a given source prefix:
// records (fields, bases, methods), enums, globals and every function body as a resolved syntax tree.
// It decides nothing; the rules (python) read these facts.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Prefix;
static std::string OutPath;

namespace {
class Extractor : public RecursiveASTVisitor<Extractor> {
public:
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    json::Array Functions, Records, Enums, Globals;
    std::map<const Decl *, int> Ids;
    std::set<const FunctionDecl *> Done;
    std::set<const Decl *> DoneRec;
    std::map<std::string, int> Files;
    json::Array FileList;

    explicit Extractor(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
        PP.SuppressDefaultTemplateArgs = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    int idOf(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = Ids.find(D);
        if (it != Ids.end()) return it->second;
        int n = (int) Ids.size() + 1;
        Ids[D] = n;
        return n;
    }
    std::string ty(QualType T) {
        if (T.isNull()) return "?";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        return SM.getFilename(L).str();
    }
    bool inScope(SourceLocation L) {
        if (L.isInvalid()) return false;
        std::string f = fileOf(L);
        return f.compare(0, Prefix.size(), Prefix) == 0;
    }
    void loc(json::Object &O, SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return;
        O["ln"] = (int64_t) SM.getExpansionLineNumber(L);
    }
    int fileIdx(SourceLocation L) {
        std::string f = fileOf(L);
        auto it = Files.find(f);
        if (it != Files.end()) return it->second;
        int n = (int) Files.size();
        Files[f] = n;
        FileList.push_back(f);
        return n;
    }
    std::string qn(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string fid(const FunctionDecl *F) {
        if (auto *P = F->getTemplateInstantiationPattern()) (void) P;
        const FunctionDecl *Can = F->getCanonicalDecl();
        if (auto *M = dyn_cast<CXXMethodDecl>(Can))
            if (M->getParent()->isLambda())
                return "lambda#" + std::to_string(idOf(Can));
        std::string s = qn(Can);
        if (auto *M = dyn_cast<CXXMethodDecl>(Can)) {
            // class template specialisations: qualified name prints arguments already
            s = qn(M->getParent()) ;
            if (auto *Sp = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) {
                QualType T = C.getTypeDeclType(Sp);
                s = T.getCanonicalType().getAsString(PP);
            }
            s += "::" + Can->getNameAsString();
        }
        if (auto *TA = Can->getTemplateSpecializationArgs()) {
            s += "<";
            bool first = true;
            for (auto &A : TA->asArray()) {
                if (!first) s += ",";
                first = false;
                llvm::raw_string_ostream os(s);
                A.print(PP, os, true);
            }
            s += ">";
        }
        s += "(";
        bool first = true;
        for (auto *P : Can->parameters()) {
            if (!first) s += ",";
            first = false;
            s += ty(P->getType());
        }
        s += ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(Can)) if (M->isConst()) s += "const";
        return s;
    }

    // ---------------------------------------------------------------- expressions
    json::Value arr(json::Array A) { return json::Value(std::move(A)); }

    const Expr *strip(const Expr *E) {
        while (E) {
            if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            break;
        }
        return E;
    }

    json::Value expr(const Expr *E) {
        if (!E) return nullptr;
        E = strip(E);
        json::Object O;
        loc(O, E->getExprLoc());
        auto done = [&](const char *k) { O["k"] = k; return json::Value(std::move(O)); };

        if (auto *L = dyn_cast<IntegerLiteral>(E)) {
            llvm::SmallString<32> s;
            L->getValue().toString(s, 10, L->getType()->isSignedIntegerType());
            O["v"] = s.str().str();
            O["t"] = ty(L->getType());
            return done("int");
        }
        if (auto *L = dyn_cast<FloatingLiteral>(E)) {
            llvm::SmallString<32> s;
            L->getValue().toString(s, 17);
            O["v"] = s.str().str();
            bool lose = false;
            llvm::APFloat V = L->getValue();
            V.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
            O["d"] = V.convertToDouble();
            O["t"] = ty(L->getType());
            return done("flt");
        }
        if (auto *L = dyn_cast<clang::StringLiteral>(E)) {
            if (L->getCharByteWidth() == 1) O["v"] = llvm::json::fixUTF8(L->getString());
            else O["v"] = "";
            return done("str");
        }
        if (auto *L = dyn_cast<CharacterLiteral>(E)) { O["v"] = (int64_t) L->getValue(); return done("chr"); }
        if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { O["v"] = L->getValue(); return done("bool"); }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return done("null");
        if (isa<CXXThisExpr>(E)) return done("this");
        if (auto *D = dyn_cast<DeclRefExpr>(E)) {
            auto *VD = D->getDecl();
            O["n"] = VD->getNameAsString();
            if (auto *EC = dyn_cast<EnumConstantDecl>(VD)) {
                O["dk"] = "enum";
                O["q"] = qn(EC);
                O["v"] = (int64_t) EC->getInitVal().getExtValue();
                O["t"] = ty(EC->getType());
                return done("ref");
            }
            if (auto *F = dyn_cast<FunctionDecl>(VD)) { O["dk"] = "fn"; O["q"] = qn(F); O["fn"] = fid(F); return done("ref"); }
            if (auto *P = dyn_cast<ParmVarDecl>(VD)) { O["dk"] = "param"; O["id"] = idOf(P); O["t"] = ty(P->getType()); return done("ref"); }
            if (auto *B = dyn_cast<BindingDecl>(VD)) { O["dk"] = "binding"; O["id"] = idOf(B); O["t"] = ty(B->getType()); return done("ref"); }
            if (auto *V = dyn_cast<VarDecl>(VD)) {
                if (V->hasGlobalStorage()) { O["dk"] = V->isStaticLocal() ? "static" : "global"; O["q"] = qn(V); }
                else O["dk"] = "var";
                if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
                O["id"] = idOf(V);
                O["t"] = ty(V->getType());
                return done("ref");
            }
            O["dk"] = "other";
            return done("ref");
        }
        if (auto *M = dyn_cast<MemberExpr>(E)) {
            auto *MD = M->getMemberDecl();
            if (auto *F = dyn_cast<FieldDecl>(MD)) {
                O["n"] = F->getNameAsString();
                O["cls"] = qn(F->getParent());
                O["t"] = ty(F->getType());
                O["b"] = expr(M->getBase());
                if (M->isArrow()) O["ar"] = true;
                return done("mem");
            }
            if (auto *V = dyn_cast<VarDecl>(MD)) {
                O["dk"] = "global"; O["q"] = qn(V); O["n"] = V->getNameAsString(); O["id"] = idOf(V); O["t"] = ty(V->getType());
                return done("ref");
            }
            O["n"] = MD->getNameAsString();
            O["b"] = expr(M->getBase());
            return done("memfn");
        }
        if (auto *M = dyn_cast<CXXDependentScopeMemberExpr>(E)) {
            if (!M->isImplicitAccess()) {
                O["n"] = M->getMember().getAsString();
                O["b"] = expr(M->getBase());
                O["t"] = "dependent";
                if (M->isArrow()) O["ar"] = true;
                return done("mem");
            }
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            O["op"] = getOperatorSpelling(X->getOperator());
            if (auto *F = X->getDirectCallee()) { O["fn"] = fid(F); O["n"] = qn(F); }
            O["t"] = ty(X->getType());
            json::Array A;
            for (auto *a : X->arguments()) A.push_back(expr(a));
            O["a"] = arr(std::move(A));
            return done("opc");
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            auto *M = X->getMethodDecl();
            if (M && isa<CXXConversionDecl>(M)) {
                O["e"] = expr(X->getImplicitObjectArgument());
                O["to"] = ty(X->getType()); O["t"] = ty(X->getType());
                O["n"] = qn(M);
                return done("conv");
            }
            if (M) {
                O["fn"] = fid(M);
                O["n"] = qn(M);
                O["mn"] = M->getNameAsString();
                O["cls"] = qn(M->getParent());
                if (M->isVirtual()) {
                    bool qual = false;
                    if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) qual = ME->hasQualifier();
                    if (!qual) O["virt"] = true;
                }
                if (M->isConst()) O["const"] = true;
            }
            O["t"] = ty(X->getType());
            O["b"] = expr(X->getImplicitObjectArgument());
            if (auto *BO = X->getImplicitObjectArgument()) O["bt"] = ty(BO->getType());
            json::Array A;
            for (auto *a : X->arguments()) A.push_back(expr(a));
            O["a"] = arr(std::move(A));
            return done("mcall");
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            if (auto *F = X->getDirectCallee()) {
                O["fn"] = fid(F);
                O["n"] = qn(F);
                if (auto *TA = F->getTemplateSpecializationArgs()) {
                    json::Array T;
                    for (auto &A : TA->asArray()) {
                        std::string s;
                        llvm::raw_string_ostream os(s);
                        A.print(PP, os, true);
                        T.push_back(os.str());
                        break;
                    }
                    O["ta"] = arr(std::move(T));
                }
                // the constructor make_shared/make_unique<T>(...) would run cannot be named here; T is in "ta"
            } else O["ce"] = expr(X->getCallee());
            O["t"] = ty(X->getType());
            json::Array A;
            for (auto *a : X->arguments()) A.push_back(expr(a));
            O["a"] = arr(std::move(A));
            return done("call");
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            auto *CD = X->getConstructor();
            // copies and moves of a value are the value
            if ((CD->isCopyOrMoveConstructor()) && X->getNumArgs() >= 1) {
                json::Object K;
                return expr(X->getArg(0));
            }
            O["cls"] = qn(CD->getParent());
            O["fn"] = fid(CD);
            O["t"] = ty(X->getType());
            json::Array A;
            for (auto *a : X->arguments()) {
                if (isa<CXXDefaultArgExpr>(a) && SM.isInSystemHeader(CD->getLocation())) continue; // allocators and the like
                A.push_back(expr(a));
            }
            O["a"] = arr(std::move(A));
            return done("ctor");
        }
        if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { (void) X; return done("x"); }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            O["op"] = X->getOpcodeStr().str();
            O["l"] = expr(X->getLHS());
            O["r"] = expr(X->getRHS());
            O["t"] = ty(X->getType());
            if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) { O["ct"] = ty(CA->getComputationResultType()); }
            if (X->isAssignmentOp()) return done("asg");
            return done("bin");
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->isPostfix()) O["post"] = true;
            O["e"] = expr(X->getSubExpr());
            O["t"] = ty(X->getType());
            return done("un");
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr());
            return done("cond");
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            O["b"] = expr(X->getBase()); O["i"] = expr(X->getIdx()); O["t"] = ty(X->getType());
            return done("sub");
        }
        if (auto *X = dyn_cast<CastExpr>(E)) {
            auto ck = X->getCastKind();
            bool num = false;
            switch (ck) {
                case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast:
                case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_BooleanToSignedIntegral:
                    num = true; break;
                default: break;
            }
            bool expl = isa<ExplicitCastExpr>(X);
            if (num) {
                O["to"] = ty(X->getType()); O["t"] = ty(X->getType());
                O["from"] = ty(X->getSubExpr()->getType());
                if (expl) O["ex"] = true;
                O["e"] = expr(X->getSubExpr());
                return done("cast");
            }
            if (isa<CXXDynamicCastExpr>(X) || isa<CXXReinterpretCastExpr>(X) || isa<CXXConstCastExpr>(X)
                || (expl && (ck == CK_BitCast || ck == CK_BaseToDerived))) {
                O["to"] = ty(X->getType()); O["t"] = ty(X->getType());
                O["from"] = ty(X->getSubExpr()->getType());
                O["cc"] = X->getStmtClassName();
                O["e"] = expr(X->getSubExpr());
                return done("rcast");
            }
            if (expl && ck == CK_ToVoid) { O["e"] = expr(X->getSubExpr()); return done("voidcast"); }
            return expr(X->getSubExpr());
        }
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            auto *M = X->getCallOperator();
            O["fn"] = fid(M);
            json::Array P;
            for (auto *p : M->parameters()) P.push_back(param(p));
            O["params"] = arr(std::move(P));
            json::Array Cp;
            for (auto &c : X->captures()) {
                json::Object K;
                if (c.capturesThis()) K["this"] = true;
                else if (c.capturesVariable()) {
                    K["id"] = idOf(c.getCapturedVar());
                    K["n"] = c.getCapturedVar()->getNameAsString();
                    K["ref"] = c.getCaptureKind() == LCK_ByRef;
                }
                Cp.push_back(std::move(K));
            }
            O["caps"] = arr(std::move(Cp));
            O["rt"] = ty(M->getReturnType());
            O["body"] = stmt(X->getBody());
            return done("lambda");
        }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            if (X->isSemanticForm() || !X->getSemanticForm()) {} else X = X->getSemanticForm();
            json::Array A;
            for (auto *a : X->inits()) A.push_back(expr(a));
            O["a"] = arr(std::move(A));
            O["t"] = ty(X->getType());
            return done("init");
        }
        if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            O["t"] = ty(X->getType());
            if (X->getKind() == UETT_SizeOf) {
                O["st"] = ty(X->getTypeOfArgument());
                if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) {
                    llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); O["v"] = s.str().str();
                    return done("sizeof");
                }
            }
            return done("x");
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            O["e"] = expr(X->getSubExpr());
            O["t"] = X->getSubExpr() ? ty(X->getSubExpr()->getType()) : std::string("rethrow");
            return done("throw");
        }
        if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { O["t"] = ty(X->getType()); O["v"] = "0"; return done("int"); }
        if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { O["t"] = ty(X->getType()); O["v"] = "0"; return done("int"); }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            O["t"] = ty(X->getAllocatedType());
            if (X->getArraySize()) O["sz"] = expr(*X->getArraySize());
            if (X->getInitializer()) O["i"] = expr(X->getInitializer());
            return done("new");
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["e"] = expr(X->getArgument()); return done("delete"); }
        if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
        if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) return expr(X->getCommonExpr());
        O["cls"] = E->getStmtClassName();
        json::Array A;
        for (auto *c : E->children()) if (c) A.push_back(stmt(c));
        O["a"] = arr(std::move(A));
        return done("x");
    }

    json::Value param(const ParmVarDecl *P) {
        json::Object K;
        K["id"] = idOf(P);
        K["n"] = P->getNameAsString();
        K["t"] = ty(P->getType());
        return K;
    }
    json::Value var(const VarDecl *V) {
        json::Object K;
        K["id"] = idOf(V);
        K["n"] = V->getNameAsString();
        K["t"] = ty(V->getType());
        loc(K, V->getLocation());
        if (V->isStaticLocal()) K["static"] = true;
        if (V->getTLSKind() != VarDecl::TLS_None) K["tls"] = true;
        if (V->getInit()) K["i"] = expr(V->getInit());
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            json::Array B;
            for (auto *b : D->bindings()) { json::Object o; o["id"] = idOf(b); o["n"] = b->getNameAsString(); B.push_back(std::move(o)); }
            K["binds"] = arr(std::move(B));
        }
        return K;
    }

    // ---------------------------------------------------------------- statements
    json::Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) return expr(E);
        json::Object O;
        loc(O, S->getBeginLoc());
        auto done = [&](const char *k) { O["k"] = k; return json::Value(std::move(O)); };
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            json::Array A;
            for (auto *c : X->body()) A.push_back(stmt(c));
            O["a"] = arr(std::move(A));
            O["le"] = (int64_t) SM.getExpansionLineNumber(X->getRBracLoc());
            return done("blk");
        }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            json::Array A;
            for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) A.push_back(var(V));
            O["a"] = arr(std::move(A));
            return done("decl");
        }
        if (auto *X = dyn_cast<IfStmt>(S)) {
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
            if (X->isConstexpr()) O["constexpr"] = true;
            O["c"] = expr(X->getCond()); O["t"] = stmt(X->getThen()); O["e"] = stmt(X->getElse());
            return done("if");
        }
        if (auto *X = dyn_cast<ForStmt>(S)) {
            O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["b"] = stmt(X->getBody());
            return done("for");
        }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            O["v"] = var(X->getLoopVariable());
            O["r"] = expr(X->getRangeInit());
            if (X->getRangeInit()) O["rt"] = ty(X->getRangeInit()->getType());
            O["b"] = stmt(X->getBody());
            return done("rfor");
        }
        if (auto *X = dyn_cast<WhileStmt>(S)) {
            if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
            return done("while");
        }
        if (auto *X = dyn_cast<DoStmt>(S)) { O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return done("do"); }
        if (auto *X = dyn_cast<ReturnStmt>(S)) { O["e"] = expr(X->getRetValue()); return done("ret"); }
        if (isa<BreakStmt>(S)) return done("brk");
        if (isa<ContinueStmt>(S)) return done("cont");
        if (isa<NullStmt>(S)) return done("nop");
        if (auto *X = dyn_cast<SwitchStmt>(S)) {
            O["c"] = expr(X->getCond());
            O["ct"] = ty(X->getCond()->IgnoreImpCasts()->getType());
            O["b"] = stmt(X->getBody());
            return done("switch");
        }
        if (auto *X = dyn_cast<CaseStmt>(S)) {
            O["c"] = expr(X->getLHS()); O["s"] = stmt(X->getSubStmt());
            return done("case");
        }
        if (auto *X = dyn_cast<DefaultStmt>(S)) { O["s"] = stmt(X->getSubStmt()); return done("default"); }
        if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            O["b"] = stmt(X->getTryBlock());
            json::Array A;
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                auto *H = X->getHandler(i);
                json::Object h;
                h["t"] = H->getExceptionDecl() ? ty(H->getCaughtType()) : std::string("...");
                if (H->getExceptionDecl()) h["v"] = var(H->getExceptionDecl());
                h["b"] = stmt(H->getHandlerBlock());
                loc(h, H->getBeginLoc());
                A.push_back(std::move(h));
            }
            O["h"] = arr(std::move(A));
            return done("try");
        }
        O["cls"] = S->getStmtClassName();
        json::Array A;
        for (auto *c : S->children()) if (c) A.push_back(stmt(c));
        O["a"] = arr(std::move(A));
        return done("x");
    }

    // ---------------------------------------------------------------- declarations
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->doesThisDeclarationHaveABody() && !F->isPureVirtual()) return true;
        if (F->isDependentContext() || F->isImplicit() || F->isDefaulted()) return true;
        if (!inScope(F->getLocation())) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true; // nested in its function
        if (!Done.insert(F->getCanonicalDecl()).second) return true;
        json::Object O;
        O["id"] = fid(F);
        O["n"] = qn(F);
        O["mn"] = F->getNameAsString();
        O["file"] = fileIdx(F->getLocation());
        loc(O, F->getLocation());
        O["le"] = (int64_t) SM.getExpansionLineNumber(SM.getExpansionLoc(F->getEndLoc()));
        O["rt"] = ty(F->getReturnType());
        json::Array P;
        for (auto *p : F->parameters()) {
            json::Value V = param(p);
            if (auto *VO = V.getAsObject())
                if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
                    (*VO)["d"] = expr(p->getDefaultArg());
            P.push_back(std::move(V));
        }
        O["params"] = arr(std::move(P));
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = qn(M->getParent());
            if (M->isStatic()) O["static"] = true;
            if (M->isConst()) O["const"] = true;
            if (M->isVirtual()) O["virt"] = true;
            if (M->isPureVirtual()) O["pure"] = true;
            O["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
            json::Array Ov;
            for (auto *o : M->overridden_methods()) Ov.push_back(fid(o));
            O["over"] = arr(std::move(Ov));
        }
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            O["ctor"] = true;
            json::Array I;
            for (auto *i : K->inits()) {
                json::Object o;
                loc(o, i->getSourceLocation());
                if (i->isAnyMemberInitializer()) o["f"] = i->getAnyMember()->getNameAsString();
                else if (i->isBaseInitializer()) o["base"] = ty(QualType(i->getBaseClass(), 0));
                else if (i->isDelegatingInitializer()) o["deleg"] = true;
                o["w"] = i->isWritten();
                o["i"] = expr(i->getInit());
                I.push_back(std::move(o));
            }
            O["inits"] = arr(std::move(I));
        }
        if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
        O["body"] = F->getBody() ? stmt(F->getBody()) : json::Value(nullptr);
        Functions.push_back(std::move(O));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isLambda() || R->isDependentContext()) return true;
        if (!inScope(R->getLocation())) return true;
        if (!DoneRec.insert(R->getCanonicalDecl()).second) return true;
        json::Object O;
        O["n"] = qn(R);
        if (auto *Sp = dyn_cast<ClassTemplateSpecializationDecl>(R)) O["spec"] = ty(C.getTypeDeclType(Sp));
        O["file"] = fileIdx(R->getLocation());
        loc(O, R->getLocation());
        O["abs"] = R->isAbstract();
        json::Array B;
        for (auto &b : R->bases()) B.push_back(ty(b.getType()));
        O["bases"] = arr(std::move(B));
        json::Array Fs;
        for (auto *f : R->fields()) {
            json::Object o;
            o["n"] = f->getNameAsString();
            o["t"] = ty(f->getType());
            o["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
            if (f->isMutable()) o["mutable"] = true;
            loc(o, f->getLocation());
            if (f->hasInClassInitializer()) o["i"] = expr(f->getInClassInitializer());
            Fs.push_back(std::move(o));
        }
        O["fields"] = arr(std::move(Fs));
        json::Array Ms;
        for (auto *m : R->methods()) {
            if (m->isImplicit()) continue;
            json::Object o;
            o["id"] = fid(m); o["mn"] = m->getNameAsString();
            o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            if (m->isPureVirtual()) o["pure"] = true;
            if (m->isVirtual()) o["virt"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isStatic()) o["static"] = true;
            if (isa<CXXConstructorDecl>(m)) o["ctor"] = true;
            o["rt"] = ty(m->getReturnType());
            Ms.push_back(std::move(o));
        }
        O["methods"] = arr(std::move(Ms));
        json::Array Fr;
        for (auto *f : R->friends()) {
            if (auto *T = f->getFriendType()) Fr.push_back(ty(T->getType()));
            else if (auto *D = f->getFriendDecl()) Fr.push_back(qn(D));
        }
        O["friends"] = arr(std::move(Fr));
        Records.push_back(std::move(O));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!inScope(E->getLocation()) || !E->isCompleteDefinition()) return true;
        json::Object O;
        O["n"] = qn(E);
        O["file"] = fileIdx(E->getLocation());
        loc(O, E->getLocation());
        json::Array A;
        for (auto *c : E->enumerators()) { json::Object o; o["n"] = c->getNameAsString(); o["q"] = qn(c); o["v"] = (int64_t) c->getInitVal().getExtValue(); A.push_back(std::move(o)); }
        O["vals"] = arr(std::move(A));
        Enums.push_back(std::move(O));
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (!V->hasGlobalStorage() || V->isStaticLocal() || !inScope(V->getLocation())) return true;
        if (V->getDeclContext()->isDependentContext()) return true;
        json::Object O;
        O["q"] = qn(V);
        O["id"] = idOf(V);
        O["t"] = ty(V->getType());
        O["const"] = V->getType().isConstQualified();
        O["file"] = fileIdx(V->getLocation());
        loc(O, V->getLocation());
        if (V->getInit()) O["i"] = expr(V->getInit());
        Globals.push_back(std::move(O));
        return true;
    }
};

class Consumer : public ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Extractor X(C);
        X.TraverseDecl(C.getTranslationUnitDecl());
        json::Object O;
        O["functions"] = std::move(X.Functions);
        O["records"] = std::move(X.Records);
        O["enums"] = std::move(X.Enums);
        O["globals"] = std::move(X.Globals);
        O["files"] = std::move(X.FileList);
        std::error_code EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        os << json::Value(std::move(O));
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
}

// extract PREFIX OUT FILE -- clang-args...
int main(int argc, const char **argv) {
    if (argc < 5) { llvm::errs() << "usage: extract PREFIX OUT FILE -- ARGS\n"; return 2; }
    Prefix = argv[1];
    OutPath = argv[2];
    std::vector<std::string> Args;
    for (int i = 5; i < argc; i++) Args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Args);
    tooling::ClangTool Tool(DB, {argv[3]});
    return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
