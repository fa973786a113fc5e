// pdafront: dumps the type-checked program (function bodies, instantiated templates, records)
// located under a given source root as JSON, for the Python analyses. Nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
using namespace clang;
namespace J = llvm::json;

static std::string Root, OutFile;

struct Dumper {
    ASTContext& C; SourceManager& SM; PrintingPolicy PP;
    std::unordered_map<const Decl*, int> Ids; int NextId = 0;
    std::map<int, J::Object> Fns; std::set<const FunctionDecl*> Bodies; std::deque<const FunctionDecl*> Work;
    std::map<std::string, J::Object> Recs; std::map<std::string, J::Value> Enums;
    Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true; PP.SuppressUnwrittenScope = true; PP.PrintCanonicalTypes = true; PP.FullyQualifiedName = true;
        PP.SuppressInlineNamespace = true;
    }
    int id(const Decl* D) { auto it = Ids.find(D); if (it != Ids.end()) return it->second; return Ids[D] = ++NextId; }
    std::string ty(QualType T) { if (T.isNull()) return "?"; return T.getCanonicalType().getAsString(PP); }
    std::string tyNoRef(QualType T) { return ty(T.getNonReferenceType().getUnqualifiedType()); }
    bool inRoot(SourceLocation L) {
        if (L.isInvalid()) return false;
        auto F = SM.getFilename(SM.getExpansionLoc(L)); return F.startswith(Root) || F.contains("/units/");
    }
    std::string file(SourceLocation L) { auto F = SM.getFilename(SM.getExpansionLoc(L)); if (F.contains("/units/")) return "unit"; if (F.startswith(Root)) F = F.drop_front(Root.size()); if (F.startswith("/")) F = F.drop_front(1); return F.str(); }
    int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
    std::string qn(const NamedDecl* D) { std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP); return os.str(); }
    std::string baseName(const NamedDecl* D) { // qualified name without template args
        std::string r = D->getNameAsString();
        if (auto* CD = dyn_cast<CXXConstructorDecl>(D)) r = CD->getParent()->getNameAsString();
        if (isa<CXXDestructorDecl>(D)) r = "~";
        if (isa<CXXConversionDecl>(D)) r = "operator_conv";
        const DeclContext* X = D->getDeclContext();
        while (X) {
            if (auto* N = dyn_cast<NamespaceDecl>(X)) { if (!N->isInline() && !N->isAnonymousNamespace()) r = N->getNameAsString() + "::" + r; }
            else if (auto* R = dyn_cast<CXXRecordDecl>(X)) { if (R->isLambda()) r = "<lambda>::" + r; else r = R->getNameAsString() + "::" + r; }
            else if (auto* E = dyn_cast<EnumDecl>(X)) { if (E->isScoped()) r = E->getNameAsString() + "::" + r; }
            X = X->getParent();
        }
        return r;
    }
    void rec(const CXXRecordDecl* R) {
        if (!R || !R->getDefinition()) return; R = R->getDefinition();
        if (R->isDependentContext()) return;
        std::string n = ty(C.getRecordType(R));
        if (Recs.count(n)) return;
        Recs[n] = J::Object{};
        bool in = inRoot(R->getLocation());
        J::Array fs, bs;
        if (in) {
            for (auto* F : R->fields()) {
                J::Object o{{"n", F->getNameAsString()}, {"t", ty(F->getType())}};
                if (F->hasInClassInitializer() && F->getInClassInitializer()) o["init"] = expr(F->getInClassInitializer());
                if (auto* FR = F->getType().getNonReferenceType()->getAsCXXRecordDecl()) rec(FR);
                fs.push_back(std::move(o));
            }
            for (auto& B : R->bases()) { bs.push_back(ty(B.getType())); rec(B.getType()->getAsCXXRecordDecl()); }
        }
        J::Object o{{"name", baseName(R)}, {"root", in}, {"fields", std::move(fs)}, {"bases", std::move(bs)}, {"lambda", R->isLambda()}};
        if (in) { o["file"] = file(R->getLocation()); o["line"] = line(R->getLocation()); }
        Recs[n] = std::move(o);
    }
    int fn(const FunctionDecl* FD) {
        const FunctionDecl* Def = nullptr; if (FD->hasBody(Def)) FD = Def; else FD = FD->getCanonicalDecl();
        int i = id(FD);
        if (Fns.count(i)) return i;
        J::Object o;
        o["qn"] = baseName(FD); o["name"] = FD->getNameAsString();
        o["ret"] = ty(FD->getReturnType());
        J::Array ps; for (auto* P : FD->parameters()) { ps.push_back(J::Object{{"id", id(P)}, {"n", P->getNameAsString()}, {"t", ty(P->getType())}}); if (auto* PR = P->getType().getNonReferenceType()->getAsCXXRecordDecl()) rec(PR); }
        o["params"] = std::move(ps);
        if (auto* RR = FD->getReturnType().getNonReferenceType()->getAsCXXRecordDecl()) rec(RR);
        if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
            o["cls"] = ty(C.getRecordType(M->getParent())); o["clsn"] = baseName(M->getParent()); rec(M->getParent());
            o["static"] = M->isStatic(); o["const"] = M->isConst(); o["virtual"] = M->isVirtual();
            if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) { o["ctor"] = true; if (CD->isCopyOrMoveConstructor()) o["copymove"] = true; if (CD->isMoveConstructor()) o["move"]=true; }
            if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) o["copymove_assign"] = true;
            if (M->getParent()->isLambda()) o["lambdaop"] = true;
        }
        if (FD->isDefaulted()) o["defaulted"] = true; if (FD->isDeleted()) o["deleted"] = true; if (FD->isImplicit()) o["implicit"] = true;
        if (FD->getAccess() == AS_private) o["acc"] = "private"; else if (FD->getAccess() == AS_protected) o["acc"] = "protected";
        if (auto* TA = FD->getTemplateSpecializationArgs()) {
            J::Array a; for (auto& A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); a.push_back(os.str()); } o["targs"] = std::move(a);
        }
        bool r = inRoot(FD->getLocation()); o["root"] = r;
        if (r) { o["file"] = file(FD->getLocation()); o["line"] = line(FD->getLocation()); }
        Fns[i] = std::move(o);
        if (r && Def && !FD->isDependentContext() && Bodies.insert(FD).second) Work.push_back(FD);
        return i;
    }
    void drain() {
        while (!Work.empty()) {
            auto* FD = Work.front(); Work.pop_front();
            J::Array inits;
            if (auto* CD = dyn_cast<CXXConstructorDecl>(FD)) for (auto* I : CD->inits()) {
                J::Object io;
                if (I->isMemberInitializer()) io["field"] = I->getMember()->getNameAsString();
                else if (I->isIndirectMemberInitializer()) io["field"] = I->getIndirectMember()->getNameAsString();
                else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer()) io["deleg"] = true;
                io["written"] = I->isWritten();
                io["init"] = expr(I->getInit());
                inits.push_back(std::move(io));
            }
            J::Value b = stmt(FD->getBody());
            auto& o = Fns[id(FD)]; o["body"] = std::move(b); o["end"] = line(FD->getBody()->getEndLoc());
            if (!inits.empty()) o["inits"] = std::move(inits);
        }
    }
    // ---- expressions
    J::Array A(std::initializer_list<J::Value> l) { J::Array a; for (auto& x : l) a.push_back(x); return a; }
    J::Value args(llvm::iterator_range<CallExpr::const_arg_iterator> r) { J::Array a; for (auto* e : r) a.push_back(expr(e)); return a; }
    bool constInt(const Expr* E, J::Value& out) {
        if (E->isValueDependent() || E->isTypeDependent()) return false;
        QualType T = E->getType().getCanonicalType();
        if (!T->isIntegralOrEnumerationType()) return false;
        Expr::EvalResult R;
        if (!E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) return false;
        llvm::APSInt V = R.Val.getInt();
        if (auto* ET = T->getAs<EnumType>()) {
            for (auto* EC : ET->getDecl()->enumerators()) if (llvm::APSInt::isSameValue(EC->getInitVal(), V)) { out = A({"enum", baseName(EC), ty(T)}); regEnum(ET->getDecl()); return true; }
        }
        if (T->isBooleanType()) { out = A({"bool", V.getBoolValue()}); return true; }
        out = A({"int", llvm::toString(V, 10), ty(T)}); return true;
    }
    void regEnum(const EnumDecl* E) { std::string n = ty(C.getEnumType(const_cast<EnumDecl*>(E))); if (Enums.count(n)) return; J::Array a; for (auto* c : E->enumerators()) a.push_back(baseName(c)); Enums.emplace(n, J::Value(std::move(a))); }
    J::Value expr(const Expr* E) {
        if (!E) return nullptr;
        const Expr* S = E->IgnoreParens();
        if (isa<CallExpr>(S) && S->isPRValue() && S->getType()->isBooleanType()) return A({"isbool", expr1(S)});
        return expr1(E);
    }
    J::Value expr1(const Expr* E) {
        while (true) {
            if (auto* x = dyn_cast<ExprWithCleanups>(E)) { E = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ParenExpr>(E)) { E = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<MaterializeTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXBindTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = x->getReplacement(); continue; }
            if (auto* x = dyn_cast<CXXStdInitializerListExpr>(E)) { E = x->getSubExpr(); continue; }
            break;
        }
        J::Value k(nullptr);
        { // integral promotion of an enumeration (switch conditions, case labels, comparisons): keep the enumeration
            const Expr* S = E; if (auto* ce = dyn_cast<ConstantExpr>(S)) S = ce->getSubExpr();
            if (auto* ic = dyn_cast<ImplicitCastExpr>(S)) if (ic->getCastKind() == CK_IntegralCast && ic->getSubExpr()->getType().getCanonicalType()->isEnumeralType()) return expr(ic->getSubExpr());
        }
        if (!isa<InitListExpr>(E) && constInt(E, k)) return k;
        if (auto* x = dyn_cast<ConstantExpr>(E)) return expr(x->getSubExpr());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(E)) return expr(x->getExpr());
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(E)) return expr(x->getExpr());
        if (auto* x = dyn_cast<CastExpr>(E)) {
            switch (x->getCastKind()) {
                case CK_IntegralCast: {
                    QualType F = x->getSubExpr()->getType(), T = x->getType();
                    unsigned fb = C.getIntWidth(F.getCanonicalType()), tb = C.getIntWidth(T.getCanonicalType());
                    bool fs = F->isSignedIntegerOrEnumerationType(), ts = T->isSignedIntegerOrEnumerationType();
                    return A({"icast", (int)fb, fs, (int)tb, ts, expr(x->getSubExpr())});
                }
                case CK_FloatingToIntegral: case CK_IntegralToFloating: case CK_FloatingCast:
                    return A({"fcast", ty(x->getType()), expr(x->getSubExpr())});
                case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_MemberPointerToBoolean:
                    return A({"tobool", expr(x->getSubExpr())});
                case CK_UserDefinedConversion: return expr(x->getSubExpr());
                case CK_LValueToRValue: if (x->getType()->isBooleanType()) return A({"isbool", expr(x->getSubExpr())}); return expr(x->getSubExpr());
                case CK_NullToPointer: return A({"null"});
                case CK_BaseToDerived: case CK_Dynamic: return A({"downcast", ty(x->getType()), expr(x->getSubExpr())});
                case CK_BitCast: case CK_LValueBitCast: case CK_PointerToIntegral: case CK_IntegralToPointer: return A({"bitcast", ty(x->getType()), expr(x->getSubExpr())});
                default: return expr(x->getSubExpr());
            }
        }
        if (auto* x = dyn_cast<IntegerLiteral>(E)) return A({"int", llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType()), ty(x->getType())});
        if (auto* x = dyn_cast<FloatingLiteral>(E)) { llvm::SmallString<16> s; x->getValue().toString(s); return A({"float", std::string(s)}); }
        if (auto* x = dyn_cast<StringLiteral>(E)) { if (x->getCharByteWidth() == 1) return A({"str", J::fixUTF8(x->getString())}); return A({"str", "?wide"}); }
        if (auto* x = dyn_cast<CharacterLiteral>(E)) return A({"int", std::to_string(x->getValue()), "char"});
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return A({"null"});
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(E)) return A({"bool", x->getValue()});
        if (isa<CXXThisExpr>(E)) return A({"this"});
        if (auto* x = dyn_cast<DeclRefExpr>(E)) {
            auto* D = x->getDecl();
            if (auto* B = dyn_cast<BindingDecl>(D)) {
                auto* DD = cast<DecompositionDecl>(B->getDecomposedDecl()); int idx = 0, i = 0; for (auto* bb : DD->bindings()) { if (bb == B) idx = i; ++i; }
                std::string f; if (!B->getHoldingVar() && B->getBinding()) { if (auto* ME = dyn_cast<MemberExpr>(B->getBinding()->IgnoreParenImpCasts())) f = ME->getMemberDecl()->getNameAsString(); }
                return A({"bind", id(DD), idx, f});
            }
            if (auto* F = dyn_cast<FunctionDecl>(D)) return A({"fn", fn(F)});
            if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) return A({"var", id(V), V->getNameAsString()});
                J::Value init(nullptr);
                if ((V->getType().isConstQualified() || V->isConstexpr())) { const VarDecl* VD = nullptr; if (auto* I = V->getAnyInitializer(VD)) if (!isa<StringLiteral>(I)) init = expr(I); else init = expr(I); }
                return A({V->isStaticLocal() ? "svar" : "gvar", id(V), baseName(V), tyNoRef(V->getType()), std::move(init)});
            }
            if (auto* T = dyn_cast<TemplateParamObjectDecl>(D)) { (void)T; return A({"unk", "TemplateParamObject"}); }
            return A({"unk", "DeclRef"});
        }
        if (auto* x = dyn_cast<MemberExpr>(E)) {
            auto* D = x->getMemberDecl();
            if (auto* F = dyn_cast<FieldDecl>(D)) return A({"mem", expr(x->getBase()), F->getNameAsString(), baseName(F->getParent()), x->isArrow()});
            if (auto* V = dyn_cast<VarDecl>(D)) { J::Value init(nullptr); if (V->getType().isConstQualified() || V->isConstexpr()) if (auto* I = V->getAnyInitializer()) init = expr(I); return A({"gvar", id(V), baseName(V), tyNoRef(V->getType()), std::move(init)}); }
            if (auto* F = dyn_cast<FunctionDecl>(D)) return A({"fn", fn(F)});
            return A({"unk", "Member"});
        }
        if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(x->getSemanticForm());
        if (auto* x = dyn_cast<CXXMemberCallExpr>(E)) {
            auto* M = x->getMethodDecl();
            if (!M) return A({"unk", "MemberPtrCall"});
            auto* ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
            bool arrow = ME && ME->isArrow(); bool qual = ME && ME->hasQualifier();
            return A({"mcall", fn(M), expr(x->getImplicitObjectArgument()), args(x->arguments()), arrow, line(x->getExprLoc()), tyNoRef(x->getImplicitObjectArgument()->getType()->isPointerType() ? x->getImplicitObjectArgument()->getType()->getPointeeType() : x->getImplicitObjectArgument()->getType()), qual});
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(E)) {
            auto* F = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl());
            if (!F) return A({"unk", "OpCall"});
            auto* M = dyn_cast<CXXMethodDecl>(F);
            if (M && !M->isStatic()) {
                J::Array a; for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
                return A({"mcall", fn(F), expr(x->getArg(0)), std::move(a), false, line(x->getExprLoc()), tyNoRef(x->getArg(0)->getType()), false});
            }
            J::Array ts; for (auto* e : x->arguments()) ts.push_back(tyNoRef(e->getType()));
            return A({"call", fn(F), args(x->arguments()), line(x->getExprLoc()), std::move(ts)});
        }
        if (auto* x = dyn_cast<CallExpr>(E)) {
            if (auto* F = x->getDirectCallee()) { J::Array ts; for (auto* e : x->arguments()) ts.push_back(tyNoRef(e->getType())); return A({"call", fn(F), args(x->arguments()), line(x->getExprLoc()), std::move(ts)}); }
            return A({"icall", expr(x->getCallee()), args(x->arguments()), line(x->getExprLoc())});
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(E)) {
            J::Array a; for (auto* e : x->arguments()) a.push_back(expr(e));
            rec(x->getConstructor()->getParent());
            return A({"ctor", fn(x->getConstructor()), tyNoRef(x->getType()), std::move(a), line(x->getExprLoc()), x->isListInitialization()});
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(E)) return A({"ctor", fn(x->getConstructor()), tyNoRef(x->getType()), J::Array{}, line(x->getExprLoc()), false});
        if (auto* x = dyn_cast<InitListExpr>(E)) {
            if (auto* s = x->getSemanticForm()) x = s;
            J::Array a; for (auto* e : x->inits()) a.push_back(expr(e));
            J::Array fns; if (auto* R = x->getType()->getAsCXXRecordDecl()) { rec(R); for (auto& B : R->bases()) { (void)B; fns.push_back("<base>"); } for (auto* f : R->fields()) fns.push_back(f->getNameAsString()); }
            return A({"init", tyNoRef(x->getType()), std::move(a), std::move(fns)});
        }
        if (auto* x = dyn_cast<CXXParenListInitExpr>(E)) {
            J::Array a; for (auto* e : x->getInitExprs()) a.push_back(expr(e));
            J::Array fns; if (auto* R = x->getType()->getAsCXXRecordDecl()) { rec(R); for (auto& B : R->bases()) { (void)B; fns.push_back("<base>"); } for (auto* f : R->fields()) fns.push_back(f->getNameAsString()); }
            return A({"init", tyNoRef(x->getType()), std::move(a), std::move(fns)});
        }
        if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return A({"zero", tyNoRef(E->getType())});
        if (auto* x = dyn_cast<UnaryOperator>(E)) {
            return A({"un", UnaryOperator::getOpcodeStr(x->getOpcode()).str() + (x->isPostfix() ? "post" : ""), expr(x->getSubExpr()), line(x->getExprLoc()), ty(x->getType())});
        }
        if (auto* x = dyn_cast<BinaryOperator>(E)) {
            std::string op = x->getOpcodeStr().str();
            if (x->isAssignmentOp()) return A({"asg", op, expr(x->getLHS()), expr(x->getRHS()), line(x->getExprLoc()), ty(x->getType())});
            return A({"bin", op, expr(x->getLHS()), expr(x->getRHS()), ty(x->getLHS()->getType()), ty(x->getType()), line(x->getExprLoc())});
        }
        if (auto* x = dyn_cast<ConditionalOperator>(E)) return A({"cond", expr(x->getCond()), expr(x->getTrueExpr()), expr(x->getFalseExpr())});
        if (auto* x = dyn_cast<BinaryConditionalOperator>(E)) return A({"cond", expr(x->getCommon()), expr(x->getCommon()), expr(x->getFalseExpr())});
        if (auto* x = dyn_cast<OpaqueValueExpr>(E)) return expr(x->getSourceExpr());
        if (auto* x = dyn_cast<ArraySubscriptExpr>(E)) return A({"idx", expr(x->getBase()), expr(x->getIdx())});
        if (auto* x = dyn_cast<LambdaExpr>(E)) {
            J::Array caps; bool capThis = false;
            auto ci = x->capture_init_begin();
            for (auto& c : x->captures()) {
                if (c.capturesThis()) { capThis = true; ++ci; continue; }
                if (c.capturesVariable()) {
                    auto* V = c.getCapturedVar(); bool initcap = false; if (auto* VD = dyn_cast<VarDecl>(V)) initcap = VD->isInitCapture();
                    int vid; J::Value in(nullptr);
                    if (auto* B = dyn_cast<BindingDecl>(V)) { auto* DD = cast<DecompositionDecl>(B->getDecomposedDecl()); vid = id(DD); }
                    else vid = id(V);
                    if (initcap) in = expr(cast<VarDecl>(V)->getInit());
                    caps.push_back(A({vid, c.getCaptureKind() == LCK_ByRef, std::move(in), V->getNameAsString()}));
                }
                ++ci;
            }
            auto* Cls = x->getLambdaClass(); J::Array ops;
            if (auto* FT = x->getDependentCallOperator(); FT && x->isGenericLambda()) { for (auto* S : FT->specializations()) ops.push_back(fn(S)); }
            else if (x->getCallOperator()) ops.push_back(fn(x->getCallOperator()));
            return A({"lambda", ty(C.getRecordType(Cls)), std::move(ops), std::move(caps), capThis, line(x->getBeginLoc())});
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(E)) return A({"throw", expr(x->getSubExpr()), x->getSubExpr() ? tyNoRef(x->getSubExpr()->getType()) : std::string("rethrow"), line(x->getThrowLoc())});
        if (auto* x = dyn_cast<CXXNewExpr>(E)) return A({"new", ty(x->getAllocatedType()), expr(x->getInitializer())});
        if (auto* x = dyn_cast<CXXDeleteExpr>(E)) return A({"delete", expr(x->getArgument())});
        if (auto* x = dyn_cast<CXXFoldExpr>(E)) { (void)x; return A({"unk", "Fold"}); }
        if (auto* x = dyn_cast<CXXTypeidExpr>(E)) { (void)x; return A({"unk", "Typeid"}); }
        if (auto* x = dyn_cast<PredefinedExpr>(E)) { (void)x; return A({"str", "?func"}); }
        J::Array ch; for (auto* c : E->children()) if (auto* ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
        return A({"unk", E->getStmtClassName(), std::move(ch)});
    }
    // ---- statements
    J::Value var(const VarDecl* V) {
        J::Object o{{"id", id(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())}, {"ref", V->getType()->isReferenceType()}, {"static", V->isStaticLocal()}};
        if (auto* R = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) rec(R);
        if (V->getInit()) o["init"] = expr(V->getInit());
        if (auto* D = dyn_cast<DecompositionDecl>(V)) {
            J::Array b; for (auto* x : D->bindings()) b.push_back(x->getNameAsString()); o["decomp"] = std::move(b);
            J::Array f; for (auto* x : D->bindings()) { std::string s; if (!x->getHoldingVar() && x->getBinding()) if (auto* ME = dyn_cast<MemberExpr>(x->getBinding()->IgnoreParenImpCasts())) s = ME->getMemberDecl()->getNameAsString(); f.push_back(s); } o["dfields"] = std::move(f);
        }
        return o;
    }
    J::Value stmt(const Stmt* S) {
        if (!S) return nullptr;
        int L = line(S->getBeginLoc());
        if (auto* E = dyn_cast<Expr>(S)) return A({"expr", L, expr(E)});
        if (auto* x = dyn_cast<CompoundStmt>(S)) { J::Array a; for (auto* c : x->body()) a.push_back(stmt(c)); return A({"block", L, std::move(a)}); }
        if (auto* x = dyn_cast<DeclStmt>(S)) { J::Array a; for (auto* d : x->decls()) if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(var(V)); return A({"decl", L, std::move(a)}); }
        if (auto* x = dyn_cast<IfStmt>(S)) {
            if (x->isConstexpr()) {
                Expr::EvalResult R; bool v = false; bool ok = !x->getCond()->isValueDependent() && x->getCond()->EvaluateAsInt(R, C); if (ok) v = R.Val.getInt().getBoolValue();
                if (ok) { J::Array a; if (x->getInit()) a.push_back(stmt(x->getInit())); a.push_back(stmt(v ? x->getThen() : x->getElse())); return A({"block", L, std::move(a)}); }
            }
            return A({"if", L, stmt(x->getInit()), x->getConditionVariableDeclStmt() ? stmt(x->getConditionVariableDeclStmt()) : J::Value(nullptr), expr(x->getCond()), stmt(x->getThen()), stmt(x->getElse())});
        }
        if (auto* x = dyn_cast<WhileStmt>(S)) return A({"while", L, x->getConditionVariableDeclStmt() ? stmt(x->getConditionVariableDeclStmt()) : J::Value(nullptr), expr(x->getCond()), stmt(x->getBody())});
        if (auto* x = dyn_cast<DoStmt>(S)) return A({"do", L, stmt(x->getBody()), expr(x->getCond())});
        if (auto* x = dyn_cast<ForStmt>(S)) return A({"for", L, stmt(x->getInit()), expr(x->getCond()), expr(x->getInc()), stmt(x->getBody())});
        if (auto* x = dyn_cast<CXXForRangeStmt>(S)) return A({"rfor", L, var(x->getLoopVariable()), expr(x->getRangeInit()), stmt(x->getBody()), stmt(x->getInit()), tyNoRef(x->getRangeInit()->getType())});
        if (auto* x = dyn_cast<ReturnStmt>(S)) return A({"ret", L, expr(x->getRetValue())});
        if (isa<BreakStmt>(S)) return A({"break", L});
        if (isa<ContinueStmt>(S)) return A({"cont", L});
        if (isa<NullStmt>(S)) return A({"null", L});
        if (auto* x = dyn_cast<SwitchStmt>(S)) return A({"switch", L, stmt(x->getInit()), x->getConditionVariableDeclStmt() ? stmt(x->getConditionVariableDeclStmt()) : J::Value(nullptr), expr(x->getCond()), stmt(x->getBody())});
        if (auto* x = dyn_cast<CaseStmt>(S)) return A({"case", L, expr(x->getLHS()), x->getRHS() ? expr(x->getRHS()) : J::Value(nullptr), stmt(x->getSubStmt())});
        if (auto* x = dyn_cast<DefaultStmt>(S)) return A({"default", L, stmt(x->getSubStmt())});
        if (auto* x = dyn_cast<CXXTryStmt>(S)) {
            J::Array h; for (unsigned i = 0; i < x->getNumHandlers(); ++i) { auto* hh = x->getHandler(i); h.push_back(A({hh->getExceptionDecl() ? tyNoRef(hh->getCaughtType()) : std::string("..."), stmt(hh->getHandlerBlock()), hh->getExceptionDecl() ? id(hh->getExceptionDecl()) : 0})); }
            return A({"try", L, stmt(x->getTryBlock()), std::move(h)});
        }
        if (auto* x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
        if (auto* x = dyn_cast<LabelStmt>(S)) return A({"label", L, std::string(x->getName()), stmt(x->getSubStmt())});
        if (auto* x = dyn_cast<GotoStmt>(S)) return A({"goto", L, x->getLabel()->getNameAsString()});
        return A({"unkstmt", L, S->getStmtClassName()});
    }
};

struct V : RecursiveASTVisitor<V> {
    Dumper& D; V(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (!F->isDependentContext() && D.inRoot(F->getLocation()) && !F->isTemplated()) {
            if (F->doesThisDeclarationHaveABody() || F->isDefaulted()) D.fn(F);
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) { if (R->isThisDeclarationADefinition() && !R->isDependentContext() && D.inRoot(R->getLocation())) D.rec(R); return true; }
    bool VisitEnumDecl(EnumDecl* E) { if (D.inRoot(E->getLocation()) && !E->isDependentContext()) D.regEnum(E); return true; }
};
struct Cons : ASTConsumer {
    bool& Err; Cons(bool& e) : Err(e) {}
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) Err = true; // still dump what was understood
        Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl()); D.drain();
        J::Object fns; for (auto& [i, o] : D.Fns) fns[std::to_string(i)] = std::move(o);
        J::Object recs; for (auto& [n, o] : D.Recs) recs[n] = std::move(o);
        J::Object en; for (auto& [n, o] : D.Enums) en[n] = std::move(o);
        std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec);
        os << J::Value(J::Object{{"fns", std::move(fns)}, {"recs", std::move(recs)}, {"enums", std::move(en)}});
    }
};
static bool Err = false;
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(Err); } };
int main(int argc, const char** argv) { // pdafront ROOT OUT FILE -- flags
    if (argc < 5) return 2;
    Root = argv[1]; OutFile = argv[2]; std::string F = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, {F});
    T.clearArgumentsAdjusters();
    T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    int rc = T.run(tooling::newFrontendActionFactory<Act>().get());
    return (rc || Err) ? 1 : 0;
}
