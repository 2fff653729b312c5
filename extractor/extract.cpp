// Extractor: parses one translation unit with the real compiler front end and
// writes the resolved program (functions, classes, enums, globals) as JSON.
// Usage: extract ROOT OUT.json -- <compiler args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;
static std::string Root, Out;

struct Dumper {
    ASTContext &C;
    PrintingPolicy PP;
    std::map<const Decl *, std::string> ids;
    json::Object funcs, classes, enums, globals;
    std::set<std::string> doneF;
    std::vector<const FunctionDecl *> queue;

    Dumper(ASTContext &c) : C(c), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
    }

    std::string usr(const Decl *D) {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(D, b)) {
            return "";
        }
        return std::string(b);
    }
    // Lambdas and locals have location based names; fine, they never cross TUs.
    std::string qname(const Decl *D) {
        std::string r;
        const NamedDecl *ND = dyn_cast<NamedDecl>(D);
        if (!ND) return r;
        r = ND->getNameAsString();
        if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) r = CD->getParent()->getNameAsString();
        if (auto *DD = dyn_cast<CXXDestructorDecl>(D)) r = "~" + DD->getParent()->getNameAsString();
        if (auto *CV = dyn_cast<CXXConversionDecl>(D)) r = "operator " + ty(CV->getConversionType());
        for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent()) {
            if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
                if (NS->isInline() || NS->isAnonymousNamespace()) continue;
                r = NS->getNameAsString() + "::" + r;
            } else if (auto *RD = dyn_cast<RecordDecl>(DC)) {
                std::string n = RD->getNameAsString();
                if (n.empty()) n = "<lambda>";
                r = n + "::" + r;
            } else if (isa<FunctionDecl>(DC)) {
                r = cast<FunctionDecl>(DC)->getNameAsString() + "()::" + r;
            } else if (auto *ED = dyn_cast<EnumDecl>(DC)) {
                if (!ED->getNameAsString().empty()) r = ED->getNameAsString() + "::" + r;
            }
        }
        return r;
    }
    std::string ty(QualType T) {
        if (T.isNull()) return "?";
        T = T.getCanonicalType();
        bool ref = T->isReferenceType();
        if (ref) T = T.getNonReferenceType();
        bool cst = T.isConstQualified();
        T = T.getUnqualifiedType();
        std::string s = T.getAsString(PP);
        if (cst) s = "const " + s;
        if (ref) s += "&";
        return s;
    }
    std::string cls(QualType T) {  // class name without template args
        if (T.isNull()) return "";
        T = T.getCanonicalType().getNonReferenceType();
        if (T->isPointerType()) T = T->getPointeeType();
        if (auto *RD = T->getAsCXXRecordDecl()) return qname(RD);
        return "";
    }
    bool inRepo(SourceLocation L) {
        auto &SM = C.getSourceManager();
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return false;
        auto f = SM.getFilename(L);
        return f.starts_with(Root);
    }
    std::string file(SourceLocation L) {
        auto &SM = C.getSourceManager();
        auto f = SM.getFilename(SM.getExpansionLoc(L)).str();
        if (f.rfind(Root, 0) == 0) f = f.substr(Root.size());
        while (!f.empty() && f[0] == '/') f = f.substr(1);
        // normalise a/../b
        std::vector<std::string> parts; std::string cur;
        for (char ch : f + "/") {
            if (ch == '/') { if (cur == ".." && !parts.empty()) parts.pop_back(); else if (cur != "." && !cur.empty()) parts.push_back(cur); cur.clear(); }
            else cur += ch;
        }
        std::string r; for (auto &p : parts) r += (r.empty() ? "" : "/") + p;
        return r;
    }
    int line(SourceLocation L) { return C.getSourceManager().getExpansionLineNumber(L); }
    std::string vid(const Decl *D) {
        auto it = ids.find(D);
        if (it != ids.end()) return it->second;
        std::string n;
        if (auto *ND = dyn_cast<NamedDecl>(D)) n = ND->getNameAsString();
        std::string r = n + "#" + std::to_string(ids.size());
        ids[D] = r;
        return r;
    }

    json::Object fref(const FunctionDecl *F) {
        json::Object o;
        o["fn"] = usr(F->getCanonicalDecl());
        o["q"] = qname(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(M->getParent());
            if (M->isVirtual()) o["virt"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["const"] = true;
        }
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            json::Array a;
            for (auto &t : TA->asArray()) {
                std::string s; llvm::raw_string_ostream os(s);
                if (t.getKind() == TemplateArgument::Type) a.push_back(ty(t.getAsType()));
                else if (t.getKind() == TemplateArgument::Pack) {
                    for (auto &p : t.pack_elements()) if (p.getKind() == TemplateArgument::Type) a.push_back(ty(p.getAsType()));
                } else { t.print(PP, os, true); a.push_back(s); }
            }
            o["targs"] = std::move(a);
        }
        json::Array pt;
        for (auto *p : F->parameters()) pt.push_back(ty(p->getType()));
        o["pt"] = std::move(pt);
        if (F->isVariadic()) o["variadic"] = true;
        enqueue(F);
        return o;
    }
    void enqueue(const FunctionDecl *F) {
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def) && Def && inRepo(Def->getLocation())) queue.push_back(Def);
    }

    json::Value E(const Expr *e) {
        if (!e) return nullptr;
        if (auto *x = dyn_cast<FullExpr>(e)) return E(x->getSubExpr());
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return E(x->getSubExpr());
        if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
        if (auto *x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
        if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
        if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
            auto d = x->getDecomposedForm();
            json::Object o; o["k"] = "rewop"; o["op"] = BinaryOperator::getOpcodeStr(d.Opcode);
            o["args"] = json::Array{E(d.LHS), E(d.RHS)};
            o["t"] = ty(e->getType()); o["line"] = line(e->getExprLoc());
            o["sem"] = E(x->getSemanticForm());
            return o;
        }
        json::Object o;
        o["t"] = ty(e->getType());
        o["line"] = line(e->getExprLoc());
        if (auto *x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
        if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
            switch (x->getCastKind()) {
            case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
            case CK_ArrayToPointerDecay: case CK_BuiltinFnToFnPtr:
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion:
                return E(x->getSubExpr());
            case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
                return E(x->getSubExpr());
            default: break;
            }
        }
        if (auto *x = dyn_cast<CastExpr>(e)) {
            if (isa<CXXFunctionalCastExpr>(x) || isa<CStyleCastExpr>(x) || isa<CXXStaticCastExpr>(x)) {
                if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_NoOp || x->getCastKind() == CK_UserDefinedConversion)
                    return E(x->getSubExpr());
            }
            o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["from"] = ty(x->getSubExpr()->getType());
            if (!isa<ImplicitCastExpr>(x)) o["explicit"] = true;
            if (isa<CXXDynamicCastExpr>(x)) o["ck"] = "Dynamic";
            o["e"] = E(x->getSubExpr());
            return o;
        }
        if (auto *x = dyn_cast<IntegerLiteral>(e)) {
            o["k"] = "int";
            llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            o["v"] = std::string(s); return o;
        }
        if (auto *x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "char"; o["v"] = (int64_t)x->getValue(); return o; }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
        if (auto *x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "float"; o["v"] = x->getValueAsApproximateDouble(); return o; }
        if (auto *x = dyn_cast<StringLiteral>(e)) { o["k"] = "str"; o["v"] = x->isOrdinary() ? json::fixUTF8(x->getString()) : std::string("?"); return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
        if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
        if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl *D = x->getDecl();
            if (auto *ec = dyn_cast<EnumConstantDecl>(D)) {
                o["k"] = "enum"; o["q"] = qname(ec);
                llvm::SmallString<32> s; ec->getInitVal().toString(s, 10);
                o["v"] = std::string(s); return o;
            }
            if (auto *f = dyn_cast<FunctionDecl>(D)) { o["k"] = "fnref"; for (auto &kv : fref(f)) o[kv.first] = std::move(kv.second); return o; }
            if (auto *b = dyn_cast<BindingDecl>(D)) {
                o["k"] = "binding"; o["id"] = vid(b); o["name"] = b->getNameAsString();
                if (auto *hv = b->getHoldingVar()) { o["id"] = vid(hv); o["k"] = "var"; o["vk"] = "local"; (void)hv; return o; }
                // aggregate / array binding: expression over the decomposed decl
                if (b->getBinding()) return E(b->getBinding());
                return o;
            }
            if (auto *v = dyn_cast<VarDecl>(D)) {
                // constants of the library (std::is_floating_point_v<...>); npos stays a symbol: their value
                if (v->getNameAsString() != "npos" && v->isConstexpr() && v->hasGlobalStorage() && !e->isValueDependent() && !v->getType()->isDependentType()
                        && v->getType()->isIntegralOrEnumerationType() && C.getSourceManager().isInSystemHeader(v->getLocation()) && v->getAnyInitializer()
                        && !v->getAnyInitializer()->isValueDependent()) {
                    if (const APValue *val = v->evaluateValue(); val && val->isInt()) {
                        if (v->getType()->isBooleanType()) { o["k"] = "bool"; o["v"] = val->getInt().getBoolValue(); }
                        else { o["k"] = "int"; llvm::SmallString<32> s; val->getInt().toString(s, 10); o["v"] = std::string(s); }
                        return o;
                    }
                }
                o["k"] = "var"; o["name"] = v->getNameAsString();
                if (v->hasGlobalStorage() && !v->isStaticLocal()) {
                    o["vk"] = "global"; o["q"] = qname(v); o["id"] = qname(v);
                    addGlobal(v);
                } else { o["vk"] = isa<ParmVarDecl>(v) ? "param" : (v->isStaticLocal() ? "static" : "local"); o["id"] = vid(v);
                    if (v->isStaticLocal() ) {
                        o["id"] = qname(v) ;
                        addGlobal(v); o["q"] = qname(v);
                    } }
                return o;
            }
            o["k"] = "unk"; o["what"] = "declref"; return o;
        }
        if (auto *x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl *D = x->getMemberDecl();
            if (auto *f = dyn_cast<FieldDecl>(D)) {
                if (f->isAnonymousStructOrUnion()) return E(x->getBase());
                o["k"] = "fld"; o["b"] = E(x->getBase()); o["n"] = f->getNameAsString(); o["cls"] = qname(f->getParent());
                if (x->isArrow()) o["arrow"] = true;
                return o;
            }
            if (auto *f = dyn_cast<FunctionDecl>(D)) { o["k"] = "methref"; o["b"] = E(x->getBase()); for (auto &kv : fref(f)) o[kv.first] = std::move(kv.second); return o; }
            if (auto *v = dyn_cast<VarDecl>(D)) { o["k"] = "var"; o["name"] = v->getNameAsString(); o["vk"] = "global"; o["q"] = qname(v); o["id"] = qname(v); addGlobal(v); return o; }
            if (auto *ec = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "enum"; o["q"] = qname(ec); llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = std::string(s); return o; }
            o["k"] = "unk"; return o;
        }
        if (auto *x = dyn_cast<CallExpr>(e)) {
            json::Array args;
            o["k"] = "call";
            const FunctionDecl *F = x->getDirectCallee();
            if (F) for (auto &kv : fref(F)) o[kv.first] = std::move(kv.second);
            if (auto *m = dyn_cast<CXXMemberCallExpr>(x)) {
                o["obj"] = E(m->getImplicitObjectArgument());
                if (auto *me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParens())) {
                    if (me->hasQualifier()) o["qualified"] = true; // non virtual call
                    if (me->isArrow()) o["arrow"] = true;
                    o["ocls"] = cls(m->getImplicitObjectArgument()->getType());
                }
                if (!F) o["calleeexpr"] = E(x->getCallee());
            } else if (auto *oc = dyn_cast<CXXOperatorCallExpr>(x)) {
                o["op"] = getOperatorSpelling(oc->getOperator());
                unsigned i = 0;
                if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["obj"] = E(oc->getArg(0)); o["ocls"] = cls(oc->getArg(0)->getType()); i = 1; }
                else if (F && isa<CXXMethodDecl>(F)) i = 1;
                for (; i < oc->getNumArgs(); ++i) args.push_back(E(oc->getArg(i)));
                o["args"] = std::move(args);
                return o;
            } else if (!F) o["calleeexpr"] = E(x->getCallee());
            for (auto *a : x->arguments()) args.push_back(E(a));
            o["args"] = std::move(args);
            return o;
        }
        if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            auto *CD = x->getConstructor();
            if ((x->isElidable() || (CD->isCopyOrMoveConstructor() && isa<CXXTemporaryObjectExpr>(e) == false && x->getNumArgs() == 1 && CD->isImplicit() && CD->isTrivial())) && x->getNumArgs() >= 1)
                return E(x->getArg(0));
            o["k"] = "ctor";
            for (auto &kv : fref(CD)) o[kv.first] = std::move(kv.second);
            if (CD->isCopyConstructor()) o["cm"] = "copy";
            if (CD->isMoveConstructor()) o["cm"] = "move";
            if (CD->isDefaulted()) o["defaulted"] = true;
            if (x->isListInitialization()) o["list"] = true;
            if (x->isStdInitListInitialization()) o["stdinit"] = true;
            json::Array args; for (auto *a : x->arguments()) args.push_back(E(a));
            o["args"] = std::move(args);
            return o;
        }
        if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            o["k"] = "ctor"; for (auto &kv : fref(x->getConstructor())) o[kv.first] = std::move(kv.second);
            o["inherited"] = true; o["args"] = json::Array{}; return o;
        }
        if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { o["k"] = "initlist"; o["e"] = E(x->getSubExpr()); return o; }
        if (auto *x = dyn_cast<InitListExpr>(e)) {
            auto *s = x->isSemanticForm() ? x : x->getSemanticForm(); if (!s) s = x;
            o["k"] = "init"; json::Array a; json::Array fl;
            if (s->getType()->isRecordType()) {
                if (auto *RD = s->getType()->getAsCXXRecordDecl()) {
                    for (auto &b : RD->bases()) { (void)b; fl.push_back("<base>"); }
                    o["cls"] = qname(RD);
                }
                for (auto *f : s->getType()->getAsRecordDecl()->fields()) fl.push_back(f->getNameAsString());
            }
            for (auto *i : s->inits()) a.push_back(E(i));
            o["args"] = std::move(a); o["fields"] = std::move(fl);
            return o;
        }
        if (auto *x = dyn_cast<CXXParenListInitExpr>(e)) {
            o["k"] = "init"; json::Array a; json::Array fl;
            if (auto *RD = x->getType()->getAsCXXRecordDecl()) {
                for (auto &b : RD->bases()) { (void)b; fl.push_back("<base>"); }
                o["cls"] = qname(RD);
                for (auto *f : RD->fields()) fl.push_back(f->getNameAsString());
            }
            for (auto *i : x->getInitExprs()) a.push_back(E(i));
            o["args"] = std::move(a); o["fields"] = std::move(fl); return o;
        }
        if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
            o["k"] = "assign"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode()));
            o["l"] = E(x->getLHS()); o["r"] = E(x->getRHS()); o["ct"] = ty(x->getComputationResultType()); return o;
        }
        if (auto *x = dyn_cast<BinaryOperator>(e)) {
            if (x->isAssignmentOp()) { o["k"] = "assign"; o["op"] = ""; o["l"] = E(x->getLHS()); o["r"] = E(x->getRHS()); return o; }
            o["k"] = "bin"; o["op"] = x->getOpcodeStr(); o["l"] = E(x->getLHS()); o["r"] = E(x->getRHS());
            return o;
        }
        if (auto *x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
            if (x->isPostfix()) o["post"] = true;
            o["e"] = E(x->getSubExpr()); return o;
        }
        if (auto *x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "cond"; o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr()); return o; }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "index"; o["b"] = E(x->getBase()); o["i"] = E(x->getIdx()); return o; }
        if (auto *x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda";
            json::Array caps;
            auto ii = x->capture_init_begin();
            for (auto &c : x->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) { co["id"] = vid(c.getCapturedVar()); co["name"] = c.getCapturedVar()->getNameAsString();
                    if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture()) co["initcap"] = true; }
                co["byref"] = c.getCaptureKind() == LCK_ByRef;
                if (*ii) co["init"] = E(*ii);
                ++ii;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            json::Array bodies;
            auto *RD = x->getLambdaClass();
            o["cls"] = usr(RD);
            if (auto *FT = RD->getDependentLambdaCallOperator()) {
                for (auto *sp : FT->specializations()) bodies.push_back(fnObj(sp));
            } else bodies.push_back(fnObj(x->getCallOperator()));
            o["bodies"] = std::move(bodies);
            return o;
        }
        if (auto *x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "new"; o["of"] = ty(x->getAllocatedType()); o["cls"] = cls(x->getAllocatedType()); o["init"] = E(x->getInitializer()); o["cexpr"] = E(x->getConstructExpr()); return o; }
        if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["e"] = E(x->getArgument()); return o; }
        if (auto *x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; o["e"] = E(x->getSubExpr()); if (x->getSubExpr()) o["tt"] = cls(x->getSubExpr()->getType()); return o; }
        if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult R;
            if (!x->isValueDependent() && x->EvaluateAsInt(R, C)) { o["k"] = "int"; llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = std::string(s); return o; }
            o["k"] = "unk"; return o;
        }
        if (auto *x = dyn_cast<TypeTraitExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
        if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; (void)x; return o; }
        if (isa<ImplicitValueInitExpr>(e)) { o["k"] = "zero"; return o; }
        if (auto *x = dyn_cast<OpaqueValueExpr>(e)) return E(x->getSourceExpr());
        if (auto *x = dyn_cast<PseudoObjectExpr>(e)) return E(x->getResultExpr());
        if (auto *x = dyn_cast<CXXNoexceptExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
        if (auto *x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "str"; o["v"] = "__func__"; (void)x; return o; }
        if (auto *x = dyn_cast<SourceLocExpr>(e)) { o["k"] = "unk"; (void)x; return o; }
        if (auto *x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "typeid"; if (x->isTypeOperand()) o["of"] = ty(x->getTypeOperand(C)); else o["e"] = E(x->getExprOperand()); return o; }
        if (auto *x = dyn_cast<StmtExpr>(e)) { o["k"] = "stmtexpr"; o["body"] = S(x->getSubStmt()); return o; }
        if (auto *x = dyn_cast<CXXFoldExpr>(e)) { o["k"] = "unk"; o["what"] = "fold"; (void)x; return o; }
        o["k"] = "unk"; o["what"] = e->getStmtClassName();
        return o;
    }

    json::Object V(const VarDecl *v) {
        json::Object o;
        o["id"] = v->isStaticLocal() ? qname(v) : vid(v); o["name"] = v->getNameAsString(); o["t"] = ty(v->getType());
        o["cls"] = cls(v->getType());
        if (v->getType()->isReferenceType()) o["ref"] = true;
        if (v->isStaticLocal()) { o["static"] = true; addGlobal(v); }
        o["line"] = line(v->getLocation());
        if (v->getInit()) o["init"] = E(v->getInit());
        if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            json::Array bs;
            int i = 0;
            for (auto *b : dd->bindings()) {
                json::Object bo; bo["name"] = b->getNameAsString(); bo["i"] = i++;
                if (auto *hv = b->getHoldingVar()) { bo["id"] = vid(hv); if (hv->getInit()) bo["init"] = E(hv->getInit()); }
                else { bo["id"] = vid(b); }
                bs.push_back(std::move(bo));
            }
            o["bindings"] = std::move(bs);
        }
        return o;
    }

    json::Value S(const Stmt *s) {
        if (!s) return nullptr;
        if (auto *e = dyn_cast<Expr>(s)) { json::Object o; o["k"] = "expr"; o["line"] = line(e->getBeginLoc()); o["e"] = E(e); return o; }
        json::Object o;
        o["line"] = line(s->getBeginLoc());
        if (auto *x = dyn_cast<CompoundStmt>(s)) { o["k"] = "block"; json::Array a; for (auto *c : x->body()) a.push_back(S(c)); o["b"] = std::move(a); o["end"] = line(x->getRBracLoc()); return o; }
        if (auto *x = dyn_cast<DeclStmt>(s)) { o["k"] = "decl"; json::Array a; for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(V(v)); o["vars"] = std::move(a); return o; }
        if (auto *x = dyn_cast<IfStmt>(s)) {
            o["k"] = "if"; if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getConditionVariable()) o["var"] = V(x->getConditionVariable());
            o["c"] = E(x->getCond()); o["then"] = S(x->getThen()); o["else"] = S(x->getElse());
            if (x->isConstexpr()) { o["constexpr"] = true; Expr::EvalResult R; if (!x->getCond()->isValueDependent() && x->getCond()->EvaluateAsRValue(R, C) && R.Val.isInt()) o["cv"] = R.Val.getInt().getBoolValue(); }
            return o;
        }
        if (auto *x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; if (x->getInit()) o["init"] = S(x->getInit()); if (x->getConditionVariable()) o["var"] = V(x->getConditionVariable()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto *x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["v"] = E(x->getLHS()); if (x->getRHS()) o["hi"] = E(x->getRHS()); o["s"] = S(x->getSubStmt()); return o; }
        if (auto *x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["s"] = S(x->getSubStmt()); return o; }
        if (auto *x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; if (x->getConditionVariable()) o["var"] = V(x->getConditionVariable()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto *x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto *x = dyn_cast<ForStmt>(s)) { o["k"] = "for"; o["init"] = S(x->getInit()); o["c"] = E(x->getCond()); o["inc"] = E(x->getInc()); o["b"] = S(x->getBody()); return o; }
        if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "rangefor"; if (x->getInit()) o["init"] = S(x->getInit()); o["var"] = V(x->getLoopVariable()); o["range"] = E(x->getRangeInit()); o["b"] = S(x->getBody()); return o; }
        if (auto *x = dyn_cast<ReturnStmt>(s)) { o["k"] = "return"; o["e"] = E(x->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
        if (isa<NullStmt>(s)) { o["k"] = "nop"; return o; }
        if (auto *x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try"; o["b"] = S(x->getTryBlock()); json::Array a;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto *h = x->getHandler(i); json::Object ho;
                if (h->getExceptionDecl()) { ho["var"] = V(h->getExceptionDecl()); ho["t"] = cls(h->getCaughtType()); }
                ho["b"] = S(h->getHandlerBlock()); ho["line"] = line(h->getBeginLoc());
                a.push_back(std::move(ho));
            }
            o["catches"] = std::move(a); return o;
        }
        if (auto *x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
        if (auto *x = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["name"] = x->getName(); o["s"] = S(x->getSubStmt()); return o; }
        if (auto *x = dyn_cast<GotoStmt>(s)) { o["k"] = "goto"; o["name"] = x->getLabel()->getNameAsString(); return o; }
        o["k"] = "unks"; o["what"] = s->getStmtClassName();
        return o;
    }

    json::Object fnObj(const FunctionDecl *F) {
        json::Object o = fref0(F);
        json::Array ps;
        for (auto *p : F->parameters()) { json::Object po; po["id"] = vid(p); po["name"] = p->getNameAsString(); po["t"] = ty(p->getType()); po["cls"] = cls(p->getType()); if (p->getType()->isReferenceType()) po["ref"] = true; ps.push_back(std::move(po)); }
        o["params"] = std::move(ps);
        o["ret"] = ty(F->getReturnType());
        o["retcls"] = cls(F->getReturnType());
        if (F->getReturnType()->isReferenceType()) o["retref"] = true;
        if (F->isNoReturn()) o["noreturn"] = true;
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array is;
            for (auto *i : CD->inits()) {
                json::Object io;
                if (i->isAnyMemberInitializer()) { io["field"] = i->getAnyMember()->getNameAsString(); io["cls"] = qname(i->getAnyMember()->getParent()); }
                else if (i->isBaseInitializer()) io["base"] = cls(QualType(i->getBaseClass(), 0));
                else if (i->isDelegatingInitializer()) io["deleg"] = true;
                io["e"] = E(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (F->getBody()) o["body"] = S(F->getBody());
        return o;
    }
    json::Object fref0(const FunctionDecl *F) {
        json::Object o = fref(F);
        o["file"] = file(F->getLocation()); o["line"] = line(F->getLocation());
        o["end"] = line(F->getEndLoc());
        if (F->isDefaulted()) o["defaulted"] = true;
        if (isa<CXXConstructorDecl>(F)) o["kind"] = "ctor";
        else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
        else if (isa<CXXConversionDecl>(F)) o["kind"] = "conv";
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(usr(b->getCanonicalDecl()));
            o["overrides"] = std::move(ov);
            if (M->isPureVirtual()) o["pure"] = true;
        }
        return o;
    }
    void addFunc(const FunctionDecl *F) {
        if (F->isDependentContext() || F->isTemplated()) return;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def) || !Def) return;
        if (!inRepo(Def->getLocation())) return;
        if (auto *M = dyn_cast<CXXMethodDecl>(Def)) if (M->getParent()->isLambda()) return;
        if (Def->isDeleted()) return;
        std::string u = usr(Def->getCanonicalDecl());
        if (u.empty() || !doneF.insert(u).second) return;
        funcs[u] = fnObj(Def);
    }
    void addGlobal(const VarDecl *v) {
        if (!inRepo(v->getLocation())) return;
        if (v->getDeclContext()->isDependentContext()) return;
        std::string q = qname(v);
        if (globals.find(q) != globals.end()) {
            auto *ob = globals[q].getAsObject();
            if (ob && ob->find("init") != ob->end()) return;
        }
        json::Object o; o["q"] = q; o["t"] = ty(v->getType()); o["file"] = file(v->getLocation()); o["line"] = line(v->getLocation());
        o["const"] = v->getType().isConstQualified();
        if (v->isStaticLocal()) o["staticlocal"] = true;
        globals[q] = json::Object(o);
        const VarDecl *D = nullptr; const Expr *I = v->getAnyInitializer(D);
        if (I && !I->isValueDependent()) { o["init"] = E(I); globals[q] = std::move(o); }
    }
    void addClass(const CXXRecordDecl *R) {
        if (!R->isCompleteDefinition() || R->isDependentContext() || R->isLambda()) return;
        if (!inRepo(R->getLocation())) return;
        std::string q = ty(C.getRecordType(R));
        if (classes.find(q) != classes.end()) return;
        json::Object o; o["q"] = qname(R); o["t"] = q; o["file"] = file(R->getLocation()); o["line"] = line(R->getLocation());
        json::Array bases; for (auto &b : R->bases()) bases.push_back(cls(b.getType()));
        o["bases"] = std::move(bases);
        json::Array fl; for (auto *f : R->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType()); fo["cls"] = cls(f->getType()); fo["line"] = line(f->getLocation()); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer()); if (f->isMutable()) fo["mutable"] = true; fl.push_back(std::move(fo)); }
        o["fields"] = std::move(fl);
        json::Array ms;
        for (auto *m : R->methods()) { if (m->isImplicit() && !m->isUserProvided()) { } json::Object mo = fref0(m); mo["name"] = m->getNameAsString(); mo["deleted"] = m->isDeleted(); mo["implicit"] = m->isImplicit(); mo["acc"] = (int)m->getAccess(); ms.push_back(std::move(mo)); }
        o["methods"] = std::move(ms);
        o["abstract"] = R->isAbstract();
        if (R->hasDefinition()) {
            o["trivial_copy"] = R->hasTrivialCopyConstructor();
        }
        classes[q] = std::move(o);
    }
    void addEnum(const EnumDecl *D) {
        if (!inRepo(D->getLocation()) || !D->isComplete()) return;
        json::Object o; o["q"] = qname(D); o["file"] = file(D->getLocation()); o["line"] = line(D->getLocation());
        json::Array a; for (auto *c : D->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); a.push_back(json::Array{c->getNameAsString(), std::string(s)}); }
        o["vals"] = std::move(a); enums[qname(D)] = std::move(o);
    }
    void drain() { while (!queue.empty()) { auto *f = queue.back(); queue.pop_back(); addFunc(f); } }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper &D;
    Visitor(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F) { if (D.inRepo(F->getLocation())) D.addFunc(F); D.drain(); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.addClass(R); return true; }
    bool VisitEnumDecl(EnumDecl *E) { D.addEnum(E); return true; }
    bool VisitVarDecl(VarDecl *v) { if (v->hasGlobalStorage()) D.addGlobal(v); return true; }
    bool TraverseDecl(Decl *d) {
        // Do not walk into system headers at namespace level: only what the repo declares or instantiates matters.
        if (d && (isa<NamespaceDecl>(d) || isa<LinkageSpecDecl>(d))) {
            if (!D.inRepo(d->getLocation())) return true;
        } else if (d && d->getDeclContext() && d->getDeclContext()->isFileContext() && !D.inRepo(d->getLocation())) {
            if (!isa<TranslationUnitDecl>(d)) return true;
        }
        return RecursiveASTVisitor::TraverseDecl(d);
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance &CI;
    Consumer(CompilerInstance &ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext &Ctx) override {
        if (Ctx.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "compile errors\n"; return; }
        Dumper D(Ctx); Visitor V(D);
        V.TraverseDecl(Ctx.getTranslationUnitDecl()); D.drain();
        json::Object top; top["funcs"] = std::move(D.funcs); top["classes"] = std::move(D.classes);
        top["enums"] = std::move(D.enums); top["globals"] = std::move(D.globals);
        std::error_code EC; llvm::raw_fd_ostream os(Out, EC);
        os << json::Value(std::move(top));
    }
};
// The repository is built with g++: inside its own files __clang__ is not
// defined, so that the branches g++ compiles are the ones that are analysed.
// (The standard library's headers keep it: they need clang's branches here.)
struct HideClang : PPCallbacks {
    Preprocessor &P; MacroInfo *MI = nullptr; bool hidden = false;
    HideClang(Preprocessor &P) : P(P) {}
    void FileChanged(SourceLocation Loc, FileChangeReason, SrcMgr::CharacteristicKind, FileID) override {
        auto &SM = P.getSourceManager();
        llvm::StringRef f = SM.getFilename(SM.getExpansionLoc(Loc));
        bool want = !f.empty() && f.starts_with(Root);
        if (want == hidden) return;
        auto *II = P.getIdentifierInfo("__clang__");
        if (want) {
            MI = P.getMacroInfo(II);
            if (!MI) return;
            P.appendMacroDirective(II, new (P.getPreprocessorAllocator()) UndefMacroDirective(Loc));
            hidden = true;
        } else {
            P.appendDefMacroDirective(II, MI, Loc);
            hidden = false;
        }
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
        CI.getPreprocessor().addPPCallbacks(std::make_unique<HideClang>(CI.getPreprocessor()));
        return std::make_unique<Consumer>(CI);
    }
};
int main(int argc, const char **argv) {
    if (argc < 4) return 2;
    Root = argv[1]; Out = argv[2];
    std::vector<std::string> args; std::string src = argv[3];
    for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", args);
    tooling::ClangTool T(DB, {src});
    struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } f;
    return T.run(&f);
}
