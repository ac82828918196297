// jfacts: dump the type-checked program as flow graphs.
//
//   jfacts ROOT OUT.json FILE.cc -- <compile flags>
//
// For every function whose body is written below ROOT/src or ROOT/include the
// tool emits clang's CFG (with implicit destructors and constructor
// initialisers) whose elements are resolved expressions: callees, fields,
// variables and constants come from semantic analysis, never from text.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Root;
static std::string OutPath;

namespace {

struct Ctx {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    explicit Ctx(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.AnonymousTagLocations = true;
    }
    std::string file(SourceLocation L) {
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid()) return "";
        std::string f = P.getFilename();
        if (f.compare(0, Root.size(), Root) == 0) f = f.substr(Root.size() + 1);
        return f;
    }
    unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    unsigned col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }
    bool inProject(SourceLocation L) {
        std::string f = file(L);
        return f.compare(0, 4, "src/") == 0 || f.compare(0, 8, "include/") == 0 ||
               f.compare(0, 8, "selftest") == 0;
    }
    std::string macro(SourceLocation L) {
        if (!L.isMacroID()) return "";
        // Outermost macro being expanded here.
        SourceLocation cur = L;
        std::string name;
        while (cur.isMacroID()) {
            if (SM.isMacroArgExpansion(cur)) {
                cur = SM.getImmediateExpansionRange(cur).getBegin();
                continue;
            }
            name = Lexer::getImmediateMacroName(cur, SM, C.getLangOpts()).str();
            cur = SM.getImmediateExpansionRange(cur).getBegin();
        }
        return name;
    }
    // Is this token written as a macro argument (i.e. by the caller)?
    std::string type(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string sugar(QualType T) {
        if (T.isNull()) return "";
        return T.getAsString(PP);
    }
    std::string declId(const ValueDecl* D) {
        if (!D) return "";
        SourceLocation L = D->getLocation();
        return D->getNameAsString() + "@" + std::to_string(line(L)) + ":" +
               std::to_string(SM.getExpansionColumnNumber(L)) +
               (L.isMacroID() ? "#" + std::to_string(SM.getFileOffset(SM.getSpellingLoc(L))) : "");
    }
    std::string fnId(const FunctionDecl* F) {
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda()) {
                SourceLocation L = M->getParent()->getLocation();
                return "lambda@" + file(L) + ":" + std::to_string(line(L)) + ":" +
                       std::to_string(col(L)) +
                       (L.isMacroID() ? "#" + std::to_string(SM.getFileOffset(SM.getSpellingLoc(L))) : "");
            }
        }
        llvm::SmallString<128> buf;
        const FunctionDecl* D = F->getCanonicalDecl();
        if (index::generateUSRForDecl(D, buf)) return F->getQualifiedNameAsString();
        std::string s = buf.str().str();
        return s;
    }
};

class FnDumper {
public:
    FnDumper(Ctx& x, const FunctionDecl* F) : X(x), Fn(F) {}

    std::map<const Stmt*, int> idx;
    json::Array nodes;
    std::map<const Stmt*, int> tryOf;   // statement -> innermost try id
    std::vector<const CXXTryStmt*> tries;
    std::vector<int> tryParent;
    std::set<const FunctionDecl*> lambdas;

    const Expr* strip(const Expr* E) {
        while (E) {
            if (auto* P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto* P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto* P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto* P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto* P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
            if (auto* P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
            if (auto* P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto* P = dyn_cast<CastExpr>(E)) {
                // A user-defined conversion is kept through the call below it.
                E = P->getSubExpr();
                continue;
            }
            break;
        }
        return E;
    }

    void scanTry(const Stmt* S, int cur) {
        if (!S) return;
        tryOf[S] = cur;
        if (auto* T = dyn_cast<CXXTryStmt>(S)) {
            int id = (int)tries.size();
            tries.push_back(T);
            tryParent.push_back(cur);
            scanTry(T->getTryBlock(), id);
            for (unsigned i = 0; i < T->getNumHandlers(); ++i) scanTry(T->getHandler(i), cur);
            return;
        }
        if (isa<LambdaExpr>(S)) {
            // Body belongs to another function; captures do not.
            for (const Stmt* c : S->children()) if (c && !isa<CompoundStmt>(c)) scanTry(c, cur);
            return;
        }
        for (const Stmt* c : S->children()) scanTry(c, cur);
    }

    int node(const Stmt* S0) {
        if (!S0) return -1;
        const Stmt* S = S0;
        if (auto* E = dyn_cast<Expr>(S)) S = strip(E);
        auto it = idx.find(S);
        if (it != idx.end()) return it->second;
        int n = (int)nodes.size();
        idx[S] = n;
        nodes.push_back(nullptr);
        json::Object o = build(S);
        nodes[n] = std::move(o);
        return n;
    }

    json::Array nodeList(llvm::ArrayRef<const Expr*> es) {
        json::Array a;
        for (auto* e : es) a.push_back(node(e));
        return a;
    }

    void addConst(json::Object& o, const Expr* E) {
        if (E->isValueDependent() || E->isTypeDependent()) return;
        QualType T = E->getType();
        if (T.isNull()) return;
        if (!(T->isIntegralOrEnumerationType())) return;
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, X.C, Expr::SE_NoSideEffects)) {
            llvm::APSInt v = R.Val.getInt();
            if (v.isRepresentableByInt64()) o["cv"] = (int64_t)v.getExtValue();
            else if (v.getActiveBits() <= 64) o["cv"] = (int64_t)v.getZExtValue();
        }
    }

    void calleeInfo(json::Object& o, const FunctionDecl* F) {
        if (!F) return;
        o["fn"] = X.fnId(F);
        o["n"] = F->getQualifiedNameAsString();
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isVirtual()) o["virt"] = 1;
            if (M->isConst()) o["kc"] = 1;
            if (M->isStatic()) o["static"] = 1;
            if (M->getParent()->isLambda()) o["lamcall"] = 1;
        }
        if (F->getStorageClass() == SC_Static) o["static"] = 1;
        // by-reference parameter positions (non-const)
        json::Array refs;
        for (unsigned i = 0; i < F->getNumParams(); ++i) {
            QualType P = F->getParamDecl(i)->getType();
            if (P->isReferenceType() && !P->getPointeeType().isConstQualified()) refs.push_back(i);
            else if (P->isPointerType() && !P->getPointeeType().isConstQualified()) refs.push_back(i);
        }
        if (!refs.empty()) o["refs"] = std::move(refs);
    }

    json::Object build(const Stmt* S) {
        json::Object o;
        SourceLocation L = S->getBeginLoc();
        if (auto* ME = dyn_cast<MemberExpr>(S)) L = ME->getMemberLoc();
        else if (auto* CE = dyn_cast<CallExpr>(S)) { if (CE->getExprLoc().isValid()) L = CE->getExprLoc(); }
        else if (auto* BO = dyn_cast<BinaryOperator>(S)) L = BO->getOperatorLoc();
        o["l"] = X.line(L.isValid() ? L : S->getBeginLoc());
        std::string m = X.macro(S->getBeginLoc());
        if (!m.empty()) o["m"] = m;
        auto ti = tryOf.find(S);
        if (ti != tryOf.end() && ti->second >= 0) o["tr"] = ti->second;
        if (auto* E = dyn_cast<Expr>(S)) {
            o["t"] = X.type(E->getType());
        }

        if (auto* CE = dyn_cast<CXXMemberCallExpr>(S)) {
            o["k"] = "call";
            const CXXMethodDecl* M = CE->getMethodDecl();
            calleeInfo(o, M);
            if (auto* ME = dyn_cast<MemberExpr>(strip(CE->getCallee()))) {
                o["obj"] = node(ME->getBase());
                if (ME->hasQualifier()) o["qual"] = 1;
            } else {
                o["callee"] = node(CE->getCallee());
            }
            if (M && isa<CXXConversionDecl>(M)) o["conv"] = 1;
            if (M && isa<CXXDestructorDecl>(M)) o["dtorcall"] = 1;
            json::Array a;
            for (const Expr* e : CE->arguments()) a.push_back(node(e));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* CE = dyn_cast<CXXOperatorCallExpr>(S)) {
            o["k"] = "call";
            const FunctionDecl* F = CE->getDirectCallee();
            calleeInfo(o, F);
            o["oper"] = getOperatorSpelling(CE->getOperator());
            json::Array a;
            unsigned i = 0;
            if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                o["obj"] = node(CE->getArg(0));
                i = 1;
            }
            for (; i < CE->getNumArgs(); ++i) a.push_back(node(CE->getArg(i)));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* CE = dyn_cast<CallExpr>(S)) {
            o["k"] = "call";
            const FunctionDecl* F = CE->getDirectCallee();
            if (F) calleeInfo(o, F);
            else o["callee"] = node(CE->getCallee());
            json::Array a;
            for (const Expr* e : CE->arguments()) a.push_back(node(e));
            o["args"] = std::move(a);
            addConst(o, CE);
            return o;
        }
        if (auto* CE = dyn_cast<CXXConstructExpr>(S)) {
            o["k"] = "ctor";
            const CXXConstructorDecl* D = CE->getConstructor();
            calleeInfo(o, D);
            o["cls"] = D->getParent()->getQualifiedNameAsString();
            if (D->isCopyOrMoveConstructor()) o["cp"] = 1;
            json::Array a;
            for (const Expr* e : CE->arguments()) a.push_back(node(e));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* DR = dyn_cast<DeclRefExpr>(S)) {
            const ValueDecl* D = DR->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                o["k"] = "fnref";
                calleeInfo(o, F);
                return o;
            }
            o["k"] = "ref";
            o["n"] = D->getNameAsString();
            if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
                    o["v"] = X.declId(V);
                    if (isa<ParmVarDecl>(V)) o["parm"] = 1;
                } else {
                    o["g"] = V->getQualifiedNameAsString();
                }
            } else if (isa<EnumConstantDecl>(D)) {
                o["enum"] = D->getQualifiedNameAsString();
            } else if (isa<BindingDecl>(D)) {
                o["v"] = X.declId(D);
            }
            addConst(o, DR);
            return o;
        }
        if (auto* ME = dyn_cast<MemberExpr>(S)) {
            o["k"] = "mem";
            const ValueDecl* D = ME->getMemberDecl();
            o["f"] = D->getQualifiedNameAsString();
            if (isa<CXXMethodDecl>(D)) o["meth"] = 1;
            o["b"] = node(ME->getBase());
            if (ME->isArrow()) o["ar"] = 1;
            addConst(o, ME);
            return o;
        }
        if (isa<CXXThisExpr>(S)) { o["k"] = "this"; return o; }
        if (auto* B = dyn_cast<BinaryOperator>(S)) {
            if (B->isAssignmentOp()) {
                o["k"] = "asn";
                o["op"] = B->getOpcodeStr().str();
            } else {
                o["k"] = "bin";
                o["op"] = B->getOpcodeStr().str();
            }
            o["a"] = node(B->getLHS());
            o["b"] = node(B->getRHS());
            if (!B->isAssignmentOp()) addConst(o, B);
            return o;
        }
        if (auto* U = dyn_cast<UnaryOperator>(S)) {
            o["k"] = U->isIncrementDecrementOp() ? "incdec" : "un";
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            o["a"] = node(U->getSubExpr());
            if (!U->isIncrementDecrementOp()) addConst(o, U);
            else if (U->isPostfix()) o["post"] = 1;
            return o;
        }
        if (auto* I = dyn_cast<IntegerLiteral>(S)) { o["k"] = "lit"; addConst(o, I); return o; }
        if (auto* I = dyn_cast<CXXBoolLiteralExpr>(S)) { o["k"] = "lit"; o["cv"] = I->getValue() ? 1 : 0; return o; }
        if (auto* I = dyn_cast<CharacterLiteral>(S)) { o["k"] = "lit"; addConst(o, I); return o; }
        if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { o["k"] = "lit"; o["null"] = 1; o["cv"] = 0; return o; }
        if (auto* I = dyn_cast<clang::StringLiteral>(S)) {
            o["k"] = "str";
            if (I->isOrdinary() || I->isUTF8()) {
                std::string v = I->getString().str();
                if (json::isUTF8(v)) o["s"] = v;
            }
            return o;
        }
        if (auto* I = dyn_cast<FloatingLiteral>(S)) { (void)I; o["k"] = "flt"; return o; }
        if (auto* C = dyn_cast<AbstractConditionalOperator>(S)) {
            o["k"] = "cond";
            o["c"] = node(C->getCond());
            o["a"] = node(C->getTrueExpr());
            o["b"] = node(C->getFalseExpr());
            addConst(o, C);
            return o;
        }
        if (auto* A = dyn_cast<ArraySubscriptExpr>(S)) {
            o["k"] = "idx";
            o["a"] = node(A->getBase());
            o["b"] = node(A->getIdx());
            return o;
        }
        if (auto* D = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl";
            if (D->isSingleDecl()) {
                if (auto* V = dyn_cast<VarDecl>(D->getSingleDecl())) {
                    o["v"] = X.declId(V);
                    o["n"] = V->getNameAsString();
                    o["t"] = X.type(V->getType());
                    if (V->isStaticLocal()) o["static"] = 1;
                    if (V->getType()->isReferenceType()) o["isref"] = 1;
                    if (V->hasInit()) o["i"] = node(V->getInit());
                    if (V->hasInit() && isa<CXXConstructExpr>(V->getInit()->IgnoreImplicit())) o["ictor"] = 1;
                }
            }
            return o;
        }
        if (auto* R = dyn_cast<ReturnStmt>(S)) {
            o["k"] = "ret";
            if (R->getRetValue()) o["v"] = node(R->getRetValue());
            return o;
        }
        if (auto* T = dyn_cast<CXXThrowExpr>(S)) {
            o["k"] = "throw";
            if (T->getSubExpr()) {
                o["v"] = node(T->getSubExpr());
                o["tt"] = X.type(T->getSubExpr()->getType());
            }
            return o;
        }
        if (auto* N = dyn_cast<CXXNewExpr>(S)) {
            o["k"] = "new";
            o["nt"] = X.type(N->getAllocatedType());
            if (N->isArray()) o["arr"] = 1;
            if (N->getInitializer()) o["i"] = node(N->getInitializer());
            if (N->getNumPlacementArgs()) o["placement"] = 1;
            if (N->isArray() && N->getArraySize()) {
                if (const Expr* sz = *N->getArraySize()) o["sz"] = node(sz);
            }
            return o;
        }
        if (auto* D = dyn_cast<CXXDeleteExpr>(S)) {
            o["k"] = "del";
            o["a"] = node(D->getArgument());
            if (D->isArrayForm()) o["arr"] = 1;
            QualType T = D->getDestroyedType();
            if (!T.isNull()) {
                o["dt"] = X.type(T);
                if (auto* RD = T->getAsCXXRecordDecl()) {
                    if (RD->hasDefinition()) {
                        if (auto* DD = RD->getDestructor()) {
                            if (DD->isUserProvided()) { o["fn"] = X.fnId(DD); o["n"] = DD->getQualifiedNameAsString(); }
                            if (DD->isVirtual()) o["virt"] = 1;
                        }
                    }
                }
            }
            return o;
        }
        if (auto* Lm = dyn_cast<LambdaExpr>(S)) {
            o["k"] = "lambda";
            o["fn"] = X.fnId(Lm->getCallOperator());
            lambdas.insert(Lm->getCallOperator());
            json::Array caps;
            for (auto& c : Lm->captures()) {
                if (c.capturesVariable()) caps.push_back(X.declId(cast<ValueDecl>(c.getCapturedVar())) + (c.getCaptureKind() == LCK_ByCopy ? "=" : "&"));
                else if (c.capturesThis()) caps.push_back("this");
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if (auto* UE = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            o["k"] = "sizeof";
            addConst(o, UE);
            if (UE->isArgumentType()) o["st"] = X.type(UE->getArgumentType());
            else o["st"] = X.type(UE->getArgumentExpr()->getType());
            return o;
        }
        if (auto* IL = dyn_cast<InitListExpr>(S)) {
            o["k"] = "init";
            json::Array a;
            for (const Expr* e : IL->inits()) a.push_back(node(e));
            o["args"] = std::move(a);
            return o;
        }
        // generic
        o["k"] = "x";
        o["cls"] = S->getStmtClassName();
        if (auto* A = dyn_cast<AtomicExpr>(S)) {
            const char* op = "?";
            bool v1 = true, v2 = false;
            switch (A->getOp()) {
            case AtomicExpr::AO__atomic_load: op = "load"; break;
            case AtomicExpr::AO__atomic_load_n: op = "load_n"; v1 = false; break;
            case AtomicExpr::AO__atomic_store: op = "store"; break;
            case AtomicExpr::AO__atomic_store_n: op = "store_n"; break;
            case AtomicExpr::AO__atomic_fetch_add:
            case AtomicExpr::AO__atomic_add_fetch: op = "add"; break;
            case AtomicExpr::AO__atomic_fetch_sub:
            case AtomicExpr::AO__atomic_sub_fetch: op = "sub"; break;
            case AtomicExpr::AO__atomic_compare_exchange: op = "cas"; v2 = true; break;
            case AtomicExpr::AO__atomic_compare_exchange_n: op = "cas_n"; v2 = true; break;
            default: v1 = false;
            }
            o["aop"] = op;
            o["ap"] = node(A->getPtr());
            if (v1) o["av"] = node(A->getVal1());
            if (v2) o["av2"] = node(A->getVal2());
        }
        if (auto* E = dyn_cast<Expr>(S)) {
            addConst(o, E);
            json::Array a;
            for (const Stmt* c : S->children()) if (c && isa<Expr>(c)) a.push_back(node(c));
            o["args"] = std::move(a);
        }
        return o;
    }

    const Expr* branchCond(const Expr* E) {
        // The part of the condition whose value decides the branch in *this*
        // block: the left operands of && and || branch in their own blocks.
        while (true) {
            const Expr* P = E->IgnoreParens();
            if (auto* F = dyn_cast<FullExpr>(P)) { E = F->getSubExpr(); continue; }
            if (auto* C = dyn_cast<ImplicitCastExpr>(P)) {
                const Expr* sub = C->getSubExpr()->IgnoreParens();
                if (auto* B = dyn_cast<BinaryOperator>(sub)) {
                    if (B->isLogicalOp()) { E = B->getRHS(); continue; }
                }
                return P;
            }
            if (auto* B = dyn_cast<BinaryOperator>(P)) {
                if (B->isLogicalOp()) { E = B->getRHS(); continue; }
            }
            return P;
        }
    }

    bool dump(json::Object& out) {
        const Stmt* Body = Fn->getBody();
        if (!Body) return false;
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.AddImplicitDtors = true;
        BO.AddInitializers = true;
        BO.PruneTriviallyFalseEdges = true;
        std::unique_ptr<CFG> G = CFG::buildCFG(Fn, const_cast<Stmt*>(Body), &X.C, BO);
        if (!G) return false;
        scanTry(Body, -1);
        if (auto* CD = dyn_cast<CXXConstructorDecl>(Fn)) (void)CD;

        out["id"] = X.fnId(Fn);
        out["name"] = Fn->getQualifiedNameAsString();
        out["file"] = X.file(Fn->getLocation());
        out["line"] = X.line(Fn->getLocation());
        out["end"] = X.line(Body->getEndLoc());
        out["ret"] = X.type(Fn->getReturnType());
        json::Array ps;
        for (auto* P : Fn->parameters()) {
            json::Object p;
            p["v"] = X.declId(P);
            p["n"] = P->getNameAsString();
            p["t"] = X.type(P->getType());
            ps.push_back(std::move(p));
        }
        out["params"] = std::move(ps);
        if (auto* M = dyn_cast<CXXMethodDecl>(Fn)) {
            out["cls"] = M->getParent()->getQualifiedNameAsString();
            if (M->isVirtual()) out["virt"] = 1;
            if (M->isConst()) out["const"] = 1;
            if (M->isStatic()) out["static"] = 1;
            if (M->getParent()->isLambda()) out["lambda"] = 1;
            json::Array ov;
            for (auto* B : M->overridden_methods()) ov.push_back(X.fnId(B));
            if (!ov.empty()) out["over"] = std::move(ov);
            switch (M->getAccess()) {
            case AS_public: out["acc"] = "public"; break;
            case AS_protected: out["acc"] = "protected"; break;
            default: out["acc"] = "private"; break;
            }
        }
        if (isa<CXXConstructorDecl>(Fn)) out["ctor"] = 1;
        if (isa<CXXDestructorDecl>(Fn)) out["dtor"] = 1;
        if (Fn->isImplicit() || Fn->isDefaulted()) out["impl"] = 1;

        std::map<const Stmt*, int> tryBlock;
        json::Array blocks;
        for (const CFGBlock* B : *G) {
            json::Object b;
            b["id"] = B->getBlockID();
            json::Array elems;
            for (const CFGElement& E : *B) {
                if (auto SE = E.getAs<CFGStmt>()) {
                    const Stmt* S = SE->getStmt();
                    if (auto* Ex = dyn_cast<Expr>(S)) {
                        if (strip(Ex) != Ex) continue;
                    }
                    int n = node(S);
                    elems.push_back(n);
                } else if (auto DE = E.getAs<CFGAutomaticObjDtor>()) {
                    json::Object o;
                    const VarDecl* V = DE->getVarDecl();
                    o["k"] = "dtor";
                    o["v"] = X.declId(V);
                    QualType T = V->getType();
                    if (T->isReferenceType()) T = T->getPointeeType();
                    o["t"] = X.type(T);
                    o["l"] = X.line(DE->getTriggerStmt() ? DE->getTriggerStmt()->getEndLoc() : V->getLocation());
                    const CXXDestructorDecl* D = DE->getDestructorDecl(X.C);
                    if (D && D->isUserProvided()) { o["fn"] = X.fnId(D); o["n"] = D->getQualifiedNameAsString(); }
                    int n = (int)nodes.size();
                    nodes.push_back(std::move(o));
                    elems.push_back(n);
                } else if (auto IE = E.getAs<CFGInitializer>()) {
                    json::Object o;
                    const CXXCtorInitializer* I = IE->getInitializer();
                    o["k"] = "finit";
                    o["l"] = X.line(I->getSourceLocation().isValid() ? I->getSourceLocation() : Fn->getLocation());
                    if (I->isAnyMemberInitializer()) o["f"] = I->getAnyMember()->getQualifiedNameAsString();
                    else if (I->isBaseInitializer()) o["base"] = X.type(QualType(I->getBaseClass(), 0));
                    if (I->getInit()) o["i"] = node(I->getInit());
                    int n = (int)nodes.size();
                    nodes.push_back(std::move(o));
                    elems.push_back(n);
                } else if (auto ME = E.getAs<CFGMemberDtor>()) {
                    json::Object o;
                    o["k"] = "mdtor";
                    o["f"] = ME->getFieldDecl()->getQualifiedNameAsString();
                    o["t"] = X.type(ME->getFieldDecl()->getType());
                    o["l"] = X.line(Body->getEndLoc());
                    int n = (int)nodes.size();
                    nodes.push_back(std::move(o));
                    elems.push_back(n);
                }
            }
            b["e"] = std::move(elems);
            json::Array succ;
            for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
                const CFGBlock* T = I->getReachableBlock();
                succ.push_back(T ? (int)T->getBlockID() : -1);
            }
            b["s"] = std::move(succ);
            if (const Stmt* T = B->getTerminatorStmt()) {
                b["tk"] = T->getStmtClassName();
                if (auto* TT = dyn_cast<CXXTryStmt>(T)) tryBlock[TT] = B->getBlockID();
                if (auto* BOp = dyn_cast<BinaryOperator>(T)) {
                    b["top"] = BOp->getOpcodeStr().str();
                    b["tn"] = node(BOp);
                }
                if (isa<AbstractConditionalOperator>(T)) b["tn"] = node(T);
                b["tl"] = X.line(T->getBeginLoc());
                const Stmt* C = B->getTerminatorCondition(false);
                if (C && isa<Expr>(C)) {
                    const Expr* BC = branchCond(cast<Expr>(C));
                    b["tc"] = node(BC);
                }
                if (isa<SwitchStmt>(T)) b["sw"] = 1;
            }
            if (const Stmt* Lb = B->getLabel()) {
                if (auto* CS = dyn_cast<CaseStmt>(Lb)) {
                    json::Object o;
                    Expr::EvalResult R;
                    if (CS->getLHS()->EvaluateAsInt(R, X.C)) o["case"] = R.Val.getInt().getExtValue();
                    b["lb"] = std::move(o);
                } else if (isa<DefaultStmt>(Lb)) {
                    b["lb"] = json::Object{{"default", 1}};
                } else if (auto* CC = dyn_cast<CXXCatchStmt>(Lb)) {
                    json::Object o;
                    o["catch"] = CC->getExceptionDecl() ? X.type(CC->getCaughtType()) : std::string("...");
                    if (CC->getExceptionDecl()) o["v"] = X.declId(CC->getExceptionDecl());
                    b["lb"] = std::move(o);
                }
            }
            if (B->hasNoReturnElement()) b["noret"] = 1;
            blocks.push_back(std::move(b));
        }
        out["entry"] = G->getEntry().getBlockID();
        out["exit"] = G->getExit().getBlockID();
        out["blocks"] = std::move(blocks);
        json::Array tr;
        for (size_t i = 0; i < tries.size(); ++i) {
            json::Object t;
            t["p"] = tryParent[i];
            auto it = tryBlock.find(tries[i]);
            t["b"] = it == tryBlock.end() ? -1 : it->second;
            tr.push_back(std::move(t));
        }
        out["tries"] = std::move(tr);
        out["nodes"] = std::move(nodes);
        return true;
    }

private:
    Ctx& X;
    const FunctionDecl* Fn;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Visitor(Ctx& x, json::OStream& j) : X(x), J(j) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    void emit(const FunctionDecl* F) {
        if (!F->doesThisDeclarationHaveABody()) return;
        if (F->isDependentContext()) return;
        if (!X.inProject(F->getLocation())) return;
        std::string id = X.fnId(F);
        if (!seen.insert(id).second) return;
        FnDumper D(X, F);
        json::Object o;
        if (!D.dump(o)) { failed.push_back(id); return; }
        J.value(json::Value(std::move(o)));
    }
    bool VisitFunctionDecl(FunctionDecl* F) { emit(F); return true; }
    bool VisitLambdaExpr(LambdaExpr* L) { emit(L->getCallOperator()); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
        if (!X.inProject(R->getLocation())) return true;
        json::Object o;
        o["name"] = R->getQualifiedNameAsString();
        o["file"] = X.file(R->getLocation());
        o["line"] = X.line(R->getLocation());
        json::Array fs;
        for (auto* f : R->fields()) {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = X.type(f->getType());
            fo["l"] = X.line(f->getLocation());
            if (f->hasInClassInitializer()) fo["init"] = 1;
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array bs;
        for (auto& b : R->bases()) bs.push_back(X.type(b.getType()));
        o["bases"] = std::move(bs);
        json::Array ms;
        for (auto* m : R->methods()) {
            if (m->isImplicit()) continue;
            json::Object mo;
            mo["n"] = m->getNameAsString();
            mo["id"] = X.fnId(m);
            mo["ret"] = X.type(m->getReturnType());
            mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            if (m->isVirtual()) mo["virt"] = 1;
            if (m->isPureVirtual()) mo["pure"] = 1;
            if (m->isDeleted()) mo["deleted"] = 1;
            if (m->isStatic()) mo["static"] = 1;
            if (m->isConst()) mo["const"] = 1;
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        classes.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E) {
        if (!E->isThisDeclarationADefinition()) return true;
        if (!X.inProject(E->getLocation())) return true;
        json::Object o;
        o["name"] = E->getQualifiedNameAsString();
        json::Object cs;
        for (auto* c : E->enumerators()) cs[c->getNameAsString()] = (int64_t)c->getInitVal().getLimitedValue();
        o["vals"] = std::move(cs);
        enums.push_back(std::move(o));
        return true;
    }

    Ctx& X;
    json::OStream& J;
    std::set<std::string> seen;
    std::vector<std::string> failed;
    json::Array classes, enums;
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        std::error_code EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        if (EC) { llvm::errs() << "cannot write " << OutPath << "\n"; exit(3); }
        Ctx X(C);
        json::OStream J(os);
        J.objectBegin();
        J.attributeBegin("functions");
        J.arrayBegin();
        Visitor V(X, J);
        V.TraverseDecl(C.getTranslationUnitDecl());
        J.arrayEnd();
        J.attributeEnd();
        J.attribute("classes", std::move(V.classes));
        J.attribute("enums", std::move(V.enums));
        json::Array f;
        for (auto& s : V.failed) f.push_back(s);
        J.attribute("failed", std::move(f));
        J.objectEnd();
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

} // namespace

int main(int argc, const char** argv) {
    if (argc < 5) { llvm::errs() << "usage: jfacts ROOT OUT FILE -- flags\n"; return 2; }
    Root = argv[1];
    OutPath = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, {file});
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
