// ionfacts: dumps, for every function whose body lies in the analysed source roots, a resolved syntax
// tree (callees, types, constants, lambda captures, implicit conversions) as JSON.
// usage: ionfacts OUT.json ROOT1,ROOT2 file.cpp -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/APValue.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> g_roots;
static std::string g_out;

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    Object functions, records, globals, enums, types;
    std::set<const FunctionDecl*> doneF;
    std::set<const CXXRecordDecl*> doneR;
    std::vector<const FunctionDecl*> queue;
    std::map<std::string, int> typeIdx;
    Array typeTab;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = true;
    }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (auto fe = SM.getFileEntryRefForID(SM.getFileID(L))) {
            auto rp = fe->getFileEntry().tryGetRealPathName();
            return rp.empty() ? fe->getName().str() : rp.str();
        }
        return "";
    }
    bool inRoots(SourceLocation L) {
        if (L.isInvalid()) return false;
        auto f = fileOf(L);
        for (auto& r : g_roots)
            if (llvm::StringRef(f).starts_with(r)) return true;
        return false;
    }
    std::string locStr(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        return fileOf(L) + ":" + std::to_string(SM.getExpansionLineNumber(L)) + ":" +
               std::to_string(SM.getExpansionColumnNumber(L));
    }
    Value shortLoc(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        return Array{SM.getExpansionLineNumber(L), SM.getExpansionColumnNumber(L)};
    }
    std::string usr(const Decl* D) {
        llvm::SmallString<128> buf;
        if (auto* FD = dyn_cast<FunctionDecl>(D)) {
            // clang's USRs do not distinguish lambda call operators reliably: add position and signature
            if (auto* M = dyn_cast<CXXMethodDecl>(FD))
                if (M->getParent()->isLambda())
                    return "L@" + locStr(FD->getLocation()) + "#" +
                           FD->getType().getCanonicalType().getAsString(PP) +
                           (isa<CXXConversionDecl>(FD) ? "conv" : "");
            if (FD->isTemplateInstantiation()) {
                index::generateUSRForDecl(D, buf);
                return buf.str().str() + "#" + FD->getType().getCanonicalType().getAsString(PP);
            }
        }
        if (index::generateUSRForDecl(D, buf)) return "noUSR@" + locStr(D->getLocation());
        return buf.str().str();
    }
    std::string varId(const ValueDecl* D) {
        return D->getNameAsString() + "@" + locStr(D->getLocation());
    }

    int type(QualType T) {
        if (T.isNull()) return -1;
        QualType CT = T.getCanonicalType();
        std::string s = CT.getAsString(PP);
        auto it = typeIdx.find(s);
        if (it != typeIdx.end()) return it->second;
        int id = (int)typeTab.size();
        typeIdx[s] = id;
        typeTab.push_back(nullptr);
        Object o;
        o["s"] = s;
        o["const"] = CT.isConstQualified();
        QualType U = CT.getUnqualifiedType();
        if (auto* R = U->getAs<ReferenceType>()) {
            o["k"] = isa<RValueReferenceType>(R) ? "rref" : "lref";
            o["to"] = type(R->getPointeeType());
        } else if (U->isPointerType()) {
            o["k"] = "ptr";
            o["to"] = type(U->getPointeeType());
        } else if (U->isBooleanType()) {
            o["k"] = "bool";
        } else if (U->isEnumeralType()) {
            o["k"] = "enum";
            auto* ED = U->castAs<EnumType>()->getDecl();
            o["name"] = ED->getQualifiedNameAsString();
            o["w"] = (int)(ED->isComplete() ? C.getTypeSize(U) : 32);
            o["sg"] = U->isSignedIntegerOrEnumerationType();
            dumpEnum(ED);
        } else if (U->isIntegerType()) {
            o["k"] = "int";
            o["w"] = (int)C.getTypeSize(U);
            o["sg"] = U->isSignedIntegerType();
        } else if (U->isFloatingType()) {
            o["k"] = "float";
        } else if (U->isVoidType()) {
            o["k"] = "void";
        } else if (U->isNullPtrType()) {
            o["k"] = "nullptr";
        } else if (auto* AT = C.getAsConstantArrayType(U)) {
            o["k"] = "carray";
            o["to"] = type(AT->getElementType());
            o["n"] = (int64_t)AT->getSize().getZExtValue();
        } else if (U->isFunctionType()) {
            o["k"] = "func";
        } else if (auto* RD = U->getAsCXXRecordDecl()) {
            o["k"] = RD->isLambda() ? "lambda" : "rec";
            o["name"] = RD->getQualifiedNameAsString();
            if (RD->isLambda()) {
                o["lam"] = locStr(RD->getLocation());
            }
            if (auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
                o["targs"] = targs(TS->getTemplateArgs().asArray());
            }
            if (inRoots(RD->getLocation()) && RD->hasDefinition() && !RD->isLambda()) {
                o["repo"] = true;
                dumpRecord(RD->getDefinition());
            }
        } else {
            o["k"] = "other";
        }
        typeTab[id] = std::move(o);
        return id;
    }

    Array targs(llvm::ArrayRef<TemplateArgument> args) {
        Array a;
        for (auto& A : args) {
            switch (A.getKind()) {
                case TemplateArgument::Type:
                    a.push_back(Object{{"t", type(A.getAsType())}});
                    break;
                case TemplateArgument::Integral:
                    a.push_back(Object{{"i", toI64(A.getAsIntegral())}});
                    break;
                case TemplateArgument::Pack: {
                    Array in = targs(A.getPackAsArray());
                    for (auto& v : in) a.push_back(std::move(v));
                    break;
                }
                default:
                    a.push_back(Object{{"o", true}});
            }
        }
        return a;
    }
    static Value toI64(const llvm::APSInt& v) {
        llvm::SmallString<32> s;
        v.toString(s, 10);
        if (v.isSigned() ? v.getSignificantBits() <= 53 : v.getActiveBits() <= 53)
            return (int64_t)v.getExtValue();
        return Object{{"big", s.str().str()}};
    }

    void dumpEnum(const EnumDecl* ED) {
        std::string n = ED->getQualifiedNameAsString();
        if (!inRoots(ED->getLocation())) return;
        if (enums.get(n)) return;
        Object o;
        if (auto* D = ED->getDefinition())
            for (auto* e : D->enumerators()) o[e->getNameAsString()] = toI64(e->getInitVal());
        enums[n] = std::move(o);
    }

    Value apv(const APValue& V, QualType T, int depth = 0) {
        switch (V.getKind()) {
            case APValue::Int:
                return toI64(V.getInt());
            case APValue::Float:
                return V.getFloat().convertToDouble();
            case APValue::Array: {
                Array a;
                unsigned n = V.getArraySize();
                QualType ET = T->getAsArrayTypeUnsafe() ? T->getAsArrayTypeUnsafe()->getElementType()
                                                        : QualType();
                for (unsigned i = 0; i < n && i < 4096; i++) {
                    const APValue& e = i < V.getArrayInitializedElts() ? V.getArrayInitializedElt(i)
                                                                        : V.getArrayFiller();
                    a.push_back(apv(e, ET, depth + 1));
                }
                return a;
            }
            case APValue::Struct: {
                Object o;
                auto* RD = T.isNull() ? nullptr : T->getAsCXXRecordDecl();
                if (RD) {
                    // string_view: pointer + length
                    if (RD->getQualifiedNameAsString() == "std::basic_string_view") {
                        std::string s;
                        bool ok = false;
                        uint64_t len = 0;
                        const APValue* ptr = nullptr;
                        for (auto* F : RD->fields()) {
                            const APValue& fv = V.getStructField(F->getFieldIndex());
                            if (fv.isInt()) len = fv.getInt().getZExtValue();
                            if (fv.isLValue()) ptr = &fv;
                        }
                        if (ptr) {
                            if (len == 0) ok = true;
                            auto base = ptr->getLValueBase();
                            if (auto* E = base.dyn_cast<const Expr*>())
                                if (auto* SL = dyn_cast<StringLiteral>(E->IgnoreParenCasts())) {
                                    uint64_t off = ptr->getLValueOffset().getQuantity();
                                    s = SL->getBytes().substr(off, len).str();
                                    ok = s.size() == len;
                                }
                        }
                        if (ok) return Object{{"str", llvm::json::fixUTF8(s)}, {"len", (int64_t)len}};
                    }
                    // string held in its own buffer: length + characters
                    if (RD->getQualifiedNameAsString() == "std::basic_string") {
                        std::string s;
                        int64_t len = -1;
                        const APValue* buf = nullptr;
                        for (auto* F : RD->fields()) {
                            const APValue& fv = V.getStructField(F->getFieldIndex());
                            if (fv.isInt()) len = (int64_t)fv.getInt().getZExtValue();
                            if (fv.isUnion() && fv.getUnionValue().isArray()) buf = &fv.getUnionValue();
                        }
                        if (buf && len >= 0 && len <= (int64_t)buf->getArraySize()) {
                            for (int64_t i = 0; i < len; i++) {
                                const APValue& e = i < (int64_t)buf->getArrayInitializedElts()
                                                       ? buf->getArrayInitializedElt(i) : buf->getArrayFiller();
                                if (e.isInt()) s.push_back((char)e.getInt().getZExtValue());
                            }
                            if ((int64_t)s.size() == len && llvm::json::isUTF8(s))
                                return Object{{"str", s}, {"len", len}};
                        }
                    }
                    for (auto* F : RD->fields())
                        o[F->getNameAsString()] = apv(V.getStructField(F->getFieldIndex()), F->getType(), depth + 1);
                    unsigned bi = 0;
                    for (auto& B : RD->bases()) {
                        o["base" + std::to_string(bi)] = apv(V.getStructBase(bi), B.getType(), depth + 1);
                        bi++;
                    }
                }
                return Object{{"rec", std::move(o)}};
            }
            case APValue::LValue: {
                auto base = V.getLValueBase();
                if (auto* E = base.dyn_cast<const Expr*>())
                    if (auto* SL = dyn_cast<StringLiteral>(E->IgnoreParenCasts()))
                        if (SL->getCharByteWidth() == 1)
                            return Object{{"cstr", llvm::json::fixUTF8(SL->getBytes())}};
                return nullptr;
            }
            default:
                return nullptr;
        }
    }

    void dumpGlobal(const VarDecl* VD) {
        std::string id = varId(VD->getCanonicalDecl());
        if (const VarDecl* Def = VD->getDefinition()) VD = Def;
        if (globals.get(id)) return;
        globals[id] = nullptr;
        Object o;
        o["name"] = VD->getQualifiedNameAsString();
        o["t"] = type(VD->getType());
        o["repo"] = inRoots(VD->getLocation());
        o["loc"] = locStr(VD->getLocation());
        if (inRoots(VD->getLocation()) || VD->isConstexpr()) {
            const Expr* init = VD->getAnyInitializer();
            if (init && !init->isValueDependent()) {
                if (VD->getType().isConstQualified() || VD->isConstexpr())
                    if (const APValue* V = VD->evaluateValue()) {
                        Value jv = apv(*V, VD->getType());
                        if (jv.kind() != Value::Null) o["apv"] = std::move(jv);
                    }
                if (inRoots(VD->getLocation()) && !VD->isConstexpr()) o["init"] = stmt(init);
            }
        }
        globals[id] = std::move(o);
    }

    void dumpRecord(const CXXRecordDecl* RD) {
        if (!doneR.insert(RD).second) return;
        std::string n = RD->getQualifiedNameAsString();
        if (RD->isDependentType()) return;
        Object o;
        o["loc"] = locStr(RD->getLocation());
        if (RD->isLocalClass() && !RD->isLambda())
            for (auto* M : RD->methods())
                if (M->hasBody()) queue.push_back(M);
        Array fs;
        for (auto* F : RD->fields()) {
            Object fo{{"name", F->getNameAsString()}, {"t", type(F->getType())}};
            if (F->hasInClassInitializer() && F->getInClassInitializer())
                fo["init"] = stmt(F->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array bs;
        for (auto& B : RD->bases())
            if (auto* BR = B.getType()->getAsCXXRecordDecl()) {
                bs.push_back(BR->getQualifiedNameAsString());
                type(B.getType());
            }
        o["bases"] = std::move(bs);
        Array ms;
        for (auto* M : RD->methods()) {
            Object mo{{"name", M->getNameAsString()}, {"usr", usr(M)}, {"virt", M->isVirtual()},
                      {"del", M->isDeleted()}, {"static", M->isStatic()}, {"const", M->isConst()},
                      {"def", M->isDefaulted()}, {"implicit", M->isImplicit()},
                      {"pure", M->isPureVirtual()},{"access", (int)M->getAccess()}};
            if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) {
                mo["kind"] = CD->isCopyConstructor() ? "copyctor"
                             : CD->isMoveConstructor() ? "movector" : "ctor";
            } else if (isa<CXXDestructorDecl>(M))
                mo["kind"] = "dtor";
            else if (M->isCopyAssignmentOperator())
                mo["kind"] = "copyassign";
            else if (M->isMoveAssignmentOperator())
                mo["kind"] = "moveassign";
            else
                mo["kind"] = "method";
            Array ov;
            for (auto* O : M->overridden_methods()) ov.push_back(usr(O));
            mo["overrides"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        o["copyctor_implicit"] = RD->needsImplicitCopyConstructor() &&
                                 !RD->defaultedCopyConstructorIsDeleted();
        o["copyable"] = RD->hasSimpleCopyConstructor() || RD->hasUserDeclaredCopyConstructor();
        o["aggregate"] = RD->isAggregate();
        o["hasdtor"] = RD->hasUserDeclaredDestructor();
        records[n] = std::move(o);
    }

    // ---- expressions and statements
    Object calleeInfo(const FunctionDecl* FD) {
        Object o;
        o["q"] = FD->getQualifiedNameAsString();
        o["u"] = usr(FD);
        Array ps;
        for (auto* P : FD->parameters()) ps.push_back(type(P->getType()));
        o["p"] = std::move(ps);
        o["r"] = type(FD->getReturnType());
        if (auto* FPT = FD->getType()->getAs<FunctionProtoType>()) {
            if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()))
                o["ne"] = FPT->isNothrow();
            if (FPT->isVariadic()) o["va"] = true;
        }
        if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
            o["m"] = true;
            if (M->isStatic()) o["st"] = true;
            if (M->isConst()) o["cm"] = true;
            if (M->isVirtual()) o["vt"] = true;
            o["cls"] = M->getParent()->getQualifiedNameAsString();
            o["clst"] = type(C.getRecordType(M->getParent()));
            if (M->getParent()->isLambda()) o["lam"] = locStr(M->getParent()->getLocation());
        }
        if (auto* CD = dyn_cast<CXXConstructorDecl>(FD)) {
            o["ct"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move"
                      : CD->isDefaultConstructor() ? "default" : "other";
        }
        if (FD->isNoReturn()) o["nr"] = true;
        if (FD->isDefaulted()) o["df"] = true;
        if (auto* TA = FD->getTemplateSpecializationArgs()) o["ta"] = targs(TA->asArray());
        const FunctionDecl* def = nullptr;
        if (FD->hasBody(def) && def && inRoots(def->getLocation())) {
            o["body"] = true;
            queue.push_back(def);
        } else if (inRoots(FD->getLocation()))
            o["repo"] = true;
        return o;
    }

    Value stmtOrNull(const Stmt* S) {
        if (!S) return nullptr;
        return stmt(S);
    }

    Value varDecl(const VarDecl* VD) {
        Object o{{"id", varId(VD)}, {"name", VD->getNameAsString()}, {"t", type(VD->getType())}};
        if (VD->isStaticLocal()) o["static"] = true;
        if (VD->isConstexpr()) o["constexpr"] = true;
        o["l"] = shortLoc(VD->getLocation());
        if (auto* DD = dyn_cast<DecompositionDecl>(VD)) {
            Array bs;
            for (auto* B : DD->bindings()) {
                Object bo{{"id", varId(B)}, {"name", B->getNameAsString()}, {"t", type(B->getType())}};
                if (B->getHoldingVar() && B->getHoldingVar()->getInit())
                    bo["hold"] = stmt(B->getHoldingVar()->getInit());
                else if (B->getBinding())
                    bo["e"] = stmt(B->getBinding());
                bs.push_back(std::move(bo));
            }
            o["bind"] = std::move(bs);
        }
        if (VD->getInit()) o["init"] = stmt(VD->getInit());
        if (VD->isConstexpr() && VD->getInit() && !VD->getInit()->isValueDependent())
            if (const APValue* V = VD->evaluateValue()) {
                Value jv = apv(*V, VD->getType());
                if (jv.kind() != Value::Null) o["apv"] = std::move(jv);
            }
        return o;
    }

    Value stmt(const Stmt* S) {
        // strip wrappers
        while (true) {
            if (auto* P = dyn_cast<ParenExpr>(S)) { S = P->getSubExpr(); continue; }
            if (auto* P = dyn_cast<ExprWithCleanups>(S)) { S = P->getSubExpr(); continue; }
            if (auto* P = dyn_cast<CXXBindTemporaryExpr>(S)) { S = P->getSubExpr(); continue; }
            if (auto* P = dyn_cast<ConstantExpr>(S)) { S = P->getSubExpr(); continue; }
            if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) { S = P->getReplacement(); continue; }
            if (auto* P = dyn_cast<CXXDefaultArgExpr>(S)) { S = P->getExpr(); continue; }
            if (auto* P = dyn_cast<CXXDefaultInitExpr>(S)) { S = P->getExpr(); continue; }
            if (auto* P = dyn_cast<AttributedStmt>(S)) { S = P->getSubStmt(); continue; }
            if (auto* P = dyn_cast<CXXStdInitializerListExpr>(S)) { S = P->getSubExpr(); continue; }
            if (auto* P = dyn_cast<ChooseExpr>(S)) { S = P->getChosenSubExpr(); continue; }
            if (auto* P = dyn_cast<GenericSelectionExpr>(S)) { S = P->getResultExpr(); continue; }
            if (auto* P = dyn_cast<CXXRewrittenBinaryOperator>(S)) { S = P->getSemanticForm(); continue; }
            if (auto* P = dyn_cast<UnaryOperator>(S); P && P->getOpcode() == UO_Extension) { S = P->getSubExpr(); continue; }
            break;
        }
        Object o;
        o["l"] = shortLoc(S->getBeginLoc());
        auto kind = [&](const char* k) { o["k"] = k; };
        auto* E = dyn_cast<Expr>(S);
        if (E) {
            o["t"] = type(E->getType());
            if (E->isGLValue()) o["lv"] = E->isXValue() ? 2 : 1;
            // constant folding of integral expressions
            if (!E->isValueDependent() && !isa<IntegerLiteral>(E) && E->isPRValue() &&
                E->getType()->isIntegralOrEnumerationType() && !isa<CXXBoolLiteralExpr>(E) &&
                !isa<CharacterLiteral>(E)) {
                Expr::EvalResult R;
                if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) o["cv"] = toI64(R.Val.getInt());
            }
        }
        if (auto* MT = dyn_cast<MaterializeTemporaryExpr>(S)) {
            kind("Temp");
            o["e"] = stmt(MT->getSubExpr());
            o["sd"] = (int)MT->getStorageDuration();
            return o;
        }
        if (auto* X = dyn_cast<IntegerLiteral>(S)) {
            kind("Int");
            o["v"] = toI64(llvm::APSInt(X->getValue(), !X->getType()->isSignedIntegerType()));
            return o;
        }
        if (auto* X = dyn_cast<CharacterLiteral>(S)) {
            kind("Int");
            o["v"] = (int64_t)X->getValue();
            return o;
        }
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(S)) {
            kind("Bool");
            o["v"] = X->getValue();
            return o;
        }
        if (auto* X = dyn_cast<FloatingLiteral>(S)) {
            kind("Float");
            o["v"] = X->getValueAsApproximateDouble();
            return o;
        }
        if (auto* X = dyn_cast<StringLiteral>(S)) {
            kind("Str");
            if (X->getCharByteWidth() == 1) {
                o["v"] = llvm::json::fixUTF8(X->getBytes());
                Array raw;
                if (!llvm::json::isUTF8(X->getBytes()))
                    for (unsigned char c : X->getBytes()) raw.push_back((int)c);
                if (!raw.empty()) o["raw"] = std::move(raw);
                o["n"] = (int64_t)X->getByteLength();
            }
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
            kind("Null");
            return o;
        }
        if (isa<CXXThisExpr>(S)) {
            kind("This");
            return o;
        }
        if (auto* X = dyn_cast<DeclRefExpr>(S)) {
            kind("Ref");
            const ValueDecl* D = X->getDecl();
            o["n"] = D->getNameAsString();
            if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                o["rk"] = "enumc";
                o["q"] = EC->getQualifiedNameAsString();
                o["cv"] = toI64(EC->getInitVal());
            } else if (auto* FD = dyn_cast<FunctionDecl>(D)) {
                o["rk"] = "func";
                o["f"] = calleeInfo(FD);
            } else if (auto* BD = dyn_cast<BindingDecl>(D)) {
                o["rk"] = "local";
                o["id"] = varId(BD);
            } else if (auto* VD = dyn_cast<VarDecl>(D)) {
                if (VD->isLocalVarDeclOrParm() && !VD->isStaticLocal()) {
                    o["rk"] = isa<ParmVarDecl>(VD) ? "param" : "local";
                    o["id"] = varId(VD);
                    if (X->refersToEnclosingVariableOrCapture()) o["cap"] = true;
                    if (VD->isConstexpr() && VD->getInit() && !VD->getInit()->isValueDependent())
                        if (const APValue* V = VD->evaluateValue()) {
                            Value jv = apv(*V, VD->getType());
                            if (jv.kind() != Value::Null) o["apv"] = std::move(jv);
                        }
                } else {
                    o["rk"] = "global";
                    o["q"] = VD->getQualifiedNameAsString();
                    o["id"] = varId(VD->getCanonicalDecl());
                    dumpGlobal(VD);
                }
            } else {
                o["rk"] = "other";
                o["q"] = D->getQualifiedNameAsString();
            }
            return o;
        }
        if (auto* X = dyn_cast<MemberExpr>(S)) {
            kind("Member");
            o["n"] = X->getMemberDecl()->getNameAsString();
            o["arrow"] = X->isArrow();
            o["b"] = stmt(X->getBase());
            if (auto* FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
                o["rk"] = "field";
                o["own"] = FD->getParent()->getQualifiedNameAsString();
            } else if (auto* MD = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
                o["rk"] = "method";
                o["f"] = calleeInfo(MD);
            } else if (auto* VD = dyn_cast<VarDecl>(X->getMemberDecl())) {
                o["rk"] = "global";
                o["q"] = VD->getQualifiedNameAsString();
                o["id"] = varId(VD->getCanonicalDecl());
                dumpGlobal(VD);
            }
            return o;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(S)) {
            kind("Construct");
            o["f"] = calleeInfo(X->getConstructor());
            Array a;
            for (auto* A : X->arguments()) a.push_back(stmt(A));
            o["a"] = std::move(a);
            if (X->isListInitialization()) o["list"] = true;
            if (X->isStdInitListInitialization()) o["stdlist"] = true;
            if (isa<CXXTemporaryObjectExpr>(X)) o["tmp"] = true;
            if (X->requiresZeroInitialization()) o["zi"] = true;
            if (X->isElidable()) o["el"] = true;
            return o;
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
            kind("Unknown");
            o["sk"] = "CXXInheritedCtorInitExpr";
            return o;
        }
        if (auto* X = dyn_cast<CallExpr>(S)) {
            if (auto* OC = dyn_cast<CXXOperatorCallExpr>(X)) {
                kind("OpCall");
                o["op"] = getOperatorSpelling(OC->getOperator());
                if (auto* FD = OC->getDirectCallee()) o["f"] = calleeInfo(FD);
                Array a;
                for (auto* A : OC->arguments()) a.push_back(stmt(A));
                o["a"] = std::move(a);
                return o;
            }
            if (auto* MC = dyn_cast<CXXMemberCallExpr>(X)) {
                kind("MCall");
                if (auto* MD = MC->getMethodDecl()) {
                    o["f"] = calleeInfo(MD);
                    auto* cal = MC->getCallee()->IgnoreParens();
                    if (auto* ME = dyn_cast<MemberExpr>(cal)) {
                        o["arrow"] = ME->isArrow();
                        if (ME->hasQualifier()) o["qual"] = true;
                    }
                }
                if (MC->getImplicitObjectArgument()) o["b"] = stmt(MC->getImplicitObjectArgument());
                Array a;
                for (auto* A : MC->arguments()) a.push_back(stmt(A));
                o["a"] = std::move(a);
                return o;
            }
            kind("Call");
            if (auto* FD = X->getDirectCallee()) {
                o["f"] = calleeInfo(FD);
            } else if (auto* PD = dyn_cast<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens())) {
                kind("NullStmt");
                (void)PD;
                return o;
            } else
                o["fe"] = stmt(X->getCallee());
            Array a;
            for (auto* A : X->arguments()) a.push_back(stmt(A));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CastExpr>(S)) {
            kind("Cast");
            o["ck"] = X->getCastKindName();
            if (isa<ImplicitCastExpr>(X)) o["imp"] = true;
            if (auto* NC = dyn_cast<CXXNamedCastExpr>(X)) o["nc"] = NC->getCastName();
            o["e"] = stmt(X->getSubExpr());
            if (auto* FC = dyn_cast<CXXFunctionalCastExpr>(X)) { (void)FC; o["fc"] = true; }
            if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_UserDefinedConversion)
                if (auto* FD = dyn_cast_or_null<FunctionDecl>(X->getConversionFunction()))
                    o["cf"] = FD->getQualifiedNameAsString();
            return o;
        }
        if (auto* X = dyn_cast<UnaryOperator>(S)) {
            kind("Un");
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            o["post"] = X->isPostfix();
            o["e"] = stmt(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<CompoundAssignOperator>(S)) {
            kind("CAssign");
            o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
            o["ct"] = type(X->getComputationResultType());
            o["clt"] = type(X->getComputationLHSType());
            o["x"] = stmt(X->getLHS());
            o["y"] = stmt(X->getRHS());
            return o;
        }
        if (auto* X = dyn_cast<BinaryOperator>(S)) {
            kind("Bin");
            o["op"] = X->getOpcodeStr().str();
            o["x"] = stmt(X->getLHS());
            o["y"] = stmt(X->getRHS());
            return o;
        }
        if (auto* X = dyn_cast<ConditionalOperator>(S)) {
            kind("Cond");
            o["c"] = stmt(X->getCond());
            o["x"] = stmt(X->getTrueExpr());
            o["y"] = stmt(X->getFalseExpr());
            return o;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(S)) {
            kind("Subscript");
            o["b"] = stmt(X->getBase());
            o["i"] = stmt(X->getIdx());
            return o;
        }
        if (auto* X = dyn_cast<InitListExpr>(S)) {
            if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
            kind("InitList");
            Array a;
            for (auto* I : X->inits()) a.push_back(I ? stmt(I) : Value(nullptr));
            o["a"] = std::move(a);
            if (auto* RD = X->getType()->getAsCXXRecordDecl()) {
                Array fn;
                for (auto& B : RD->bases()) { (void)B; fn.push_back("<base>"); }
                for (auto* F : RD->fields())
                    if (!F->isUnnamedBitfield()) fn.push_back(F->getNameAsString());
                o["fn"] = std::move(fn);
            }
            if (X->hasArrayFiller() && X->getArrayFiller()) o["fill"] = stmt(X->getArrayFiller());
            return o;
        }
        if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) {
            kind("ZeroInit");
            return o;
        }
        if (auto* X = dyn_cast<CXXParenListInitExpr>(S)) {
            kind("InitList");
            Array a;
            for (auto* I : X->getInitExprs()) a.push_back(stmt(I));
            o["a"] = std::move(a);
            if (auto* RD = X->getType()->getAsCXXRecordDecl()) {
                Array fn;
                for (auto& B : RD->bases()) { (void)B; fn.push_back("<base>"); }
                for (auto* F : RD->fields()) fn.push_back(F->getNameAsString());
                o["fn"] = std::move(fn);
            }
            return o;
        }
        if (auto* X = dyn_cast<LambdaExpr>(S)) {
            kind("Lambda");
            o["id"] = locStr(X->getLambdaClass()->getLocation());
            Array caps;
            auto ci = X->capture_init_begin();
            for (auto& cap : X->captures()) {
                Object co;
                if (cap.capturesThis()) {
                    co["this"] = true;
                    co["copy"] = cap.getCaptureKind() == LCK_StarThis;
                } else if (cap.capturesVariable()) {
                    auto* V = cap.getCapturedVar();
                    co["id"] = varId(V);
                    co["name"] = V->getNameAsString();
                    co["ref"] = cap.getCaptureKind() == LCK_ByRef;
                    if (auto* VD = dyn_cast<VarDecl>(V); VD && VD->isInitCapture()) co["initcap"] = true;
                    co["t"] = type(V->getType());
                }
                co["l"] = shortLoc(cap.getLocation());
                if (*ci) co["init"] = stmt(*ci);
                caps.push_back(std::move(co));
                ++ci;
            }
            o["caps"] = std::move(caps);
            Array ops;
            if (auto* CO = X->getCallOperator()) {
                if (auto* FT = X->getLambdaClass()->getDependentLambdaCallOperator()) {
                    o["generic"] = true;
                    for (auto* Sp : FT->specializations()) {
                        if (Sp->hasBody()) {
                            ops.push_back(usr(Sp));
                            queue.push_back(Sp);
                        }
                    }
                } else {
                    ops.push_back(usr(CO));
                    queue.push_back(CO);
                }
            }
            o["ops"] = std::move(ops);
            return o;
        }
        if (auto* X = dyn_cast<CXXNewExpr>(S)) {
            kind("New");
            if (X->getInitializer()) o["e"] = stmt(X->getInitializer());
            o["at"] = type(X->getAllocatedType());
            return o;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(S)) {
            kind("Delete");
            o["e"] = stmt(X->getArgument());
            return o;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(S)) {
            kind("Throw");
            if (X->getSubExpr()) o["e"] = stmt(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            kind("SizeOf");
            return o;
        }
        if (auto* X = dyn_cast<ArrayInitLoopExpr>(S)) {
            kind("ArrayCopy");
            o["e"] = stmt(X->getCommonExpr()->getSourceExpr());
            return o;
        }
        if (auto* X = dyn_cast<OpaqueValueExpr>(S)) {
            if (X->getSourceExpr()) return stmt(X->getSourceExpr());
        }
        if (auto* X = dyn_cast<BinaryConditionalOperator>(S)) {
            kind("Cond");
            o["c"] = stmt(X->getCond());
            o["x"] = stmt(X->getTrueExpr());
            o["y"] = stmt(X->getFalseExpr());
            return o;
        }
        if (auto* X = dyn_cast<PredefinedExpr>(S)) {
            kind("Str");
            o["v"] = X->getFunctionName() ? X->getFunctionName()->getString().str() : "";
            return o;
        }
        if (auto* X = dyn_cast<StmtExpr>(S)) {
            kind("StmtExpr");
            o["b"] = stmt(X->getSubStmt());
            return o;
        }
        // ---- statements
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            kind("Block");
            Array a;
            for (auto* I : X->body()) a.push_back(stmt(I));
            o["c"] = std::move(a);
            o["le"] = shortLoc(X->getEndLoc());
            return o;
        }
        if (auto* X = dyn_cast<DeclStmt>(S)) {
            kind("Decl");
            Array a;
            for (auto* D : X->decls())
                if (auto* VD = dyn_cast<VarDecl>(D)) {
                    if (VD->isStaticLocal()) dumpGlobal(VD);
                    a.push_back(varDecl(VD));
                }
            o["d"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<IfStmt>(S)) {
            kind("If");
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt()) o["cvar"] = stmt(X->getConditionVariableDeclStmt());
            if (X->getCond()) o["c"] = stmt(X->getCond());
            if (X->isConsteval()) o["consteval"] = true;
            if (X->getThen()) o["x"] = stmt(X->getThen());
            if (X->getElse()) o["y"] = stmt(X->getElse());
            return o;
        }
        if (auto* X = dyn_cast<WhileStmt>(S)) {
            kind("While");
            if (X->getConditionVariableDeclStmt()) o["cvar"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = stmt(X->getCond());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<DoStmt>(S)) {
            kind("Do");
            o["c"] = stmt(X->getCond());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<ForStmt>(S)) {
            kind("For");
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt()) o["cvar"] = stmt(X->getConditionVariableDeclStmt());
            if (X->getCond()) o["c"] = stmt(X->getCond());
            if (X->getInc()) o["inc"] = stmt(X->getInc());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            kind("RangeFor");
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getLoopVariable()) o["var"] = varDecl(X->getLoopVariable());
            if (X->getRangeInit()) o["r"] = stmt(X->getRangeInit());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<SwitchStmt>(S)) {
            kind("Switch");
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt()) o["cvar"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = stmt(X->getCond());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CaseStmt>(S)) {
            kind("Case");
            Expr::EvalResult R;
            if (X->getLHS() && !X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C))
                o["v"] = toI64(R.Val.getInt());
            if (X->getRHS() && X->getRHS()->EvaluateAsInt(R, C)) o["v2"] = toI64(R.Val.getInt());
            o["b"] = stmtOrNull(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<DefaultStmt>(S)) {
            kind("Default");
            o["b"] = stmtOrNull(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<ReturnStmt>(S)) {
            kind("Return");
            if (X->getRetValue()) o["e"] = stmt(X->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(S)) { kind("Break"); return o; }
        if (isa<ContinueStmt>(S)) { kind("Continue"); return o; }
        if (isa<NullStmt>(S)) { kind("NullStmt"); return o; }
        if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            kind("Try");
            o["b"] = stmt(X->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                auto* H = X->getHandler(i);
                Object ho;
                if (H->getExceptionDecl()) {
                    ho["id"] = varId(H->getExceptionDecl());
                    ho["t"] = type(H->getCaughtType());
                } else
                    ho["all"] = true;
                ho["b"] = stmt(H->getHandlerBlock());
                ho["l"] = shortLoc(H->getBeginLoc());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            return o;
        }
        if (auto* X = dyn_cast<LabelStmt>(S)) {
            kind("Unknown");
            o["sk"] = "LabelStmt";
            Array a;
            a.push_back(stmt(X->getSubStmt()));
            o["c"] = std::move(a);
            return o;
        }
        kind("Unknown");
        o["sk"] = S->getStmtClassName();
        Array a;
        for (auto* Ch : S->children())
            if (Ch) a.push_back(stmt(Ch));
        o["c"] = std::move(a);
        return o;
    }

    void dumpFunction(const FunctionDecl* FD) {
        const FunctionDecl* def = nullptr;
        if (!FD->hasBody(def) || !def) return;
        FD = def;
        if (FD->isDependentContext()) return;
        if (!inRoots(FD->getLocation())) return;
        if (!doneF.insert(FD->getCanonicalDecl()).second) return;
        if (!FD->getBody()) return;
        Object o;
        o["q"] = FD->getQualifiedNameAsString();
        o["name"] = FD->getNameAsString();
        o["file"] = fileOf(FD->getLocation());
        o["line"] = SM.getExpansionLineNumber(FD->getLocation());
        o["ret"] = type(FD->getReturnType());
        if (FD->isDefaulted()) o["df"] = true;
        Array ps;
        for (auto* P : FD->parameters())
            ps.push_back(Object{{"id", varId(P)}, {"name", P->getNameAsString()}, {"t", type(P->getType())}});
        o["params"] = std::move(ps);
        if (auto* FPT = FD->getType()->getAs<FunctionProtoType>())
            if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType())) o["ne"] = FPT->isNothrow();
        if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
            o["cls"] = M->getParent()->getQualifiedNameAsString();
            o["st"] = M->isStatic();
            o["cm"] = M->isConst();
            o["vt"] = M->isVirtual();
            Array ov;
            for (auto* O : M->overridden_methods()) ov.push_back(usr(O));
            o["overrides"] = std::move(ov);
            if (M->getParent()->isLambda()) {
                o["lam"] = locStr(M->getParent()->getLocation());
                if (isa<CXXConversionDecl>(M) || M->getNameAsString() == "__invoke") return;
            } else
                type(C.getRecordType(M->getParent()));
        }
        if (auto* CD = dyn_cast<CXXConstructorDecl>(FD)) {
            o["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move"
                        : CD->isDefaultConstructor() ? "default" : "other";
            Array is;
            for (auto* I : CD->inits()) {
                Object io;
                if (I->isAnyMemberInitializer()) io["field"] = I->getAnyMember()->getNameAsString();
                else if (I->isBaseInitializer())
                    io["base"] = I->getBaseClass() && QualType(I->getBaseClass(), 0)->getAsCXXRecordDecl()
                                     ? QualType(I->getBaseClass(), 0)->getAsCXXRecordDecl()->getQualifiedNameAsString()
                                     : "";
                else if (I->isDelegatingInitializer())
                    io["deleg"] = true;
                io["w"] = I->isWritten();
                if (I->getInit()) io["e"] = stmt(I->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(FD)) o["dtor"] = true;
        o["body"] = stmt(FD->getBody());
        functions[usr(FD)] = std::move(o);
    }

    void drain() {
        while (!queue.empty()) {
            auto* F = queue.back();
            queue.pop_back();
            dumpFunction(F);
        }
    }
};

class V : public RecursiveASTVisitor<V> {
   public:
    Dumper& D;
    explicit V(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* FD) {
        if (FD->isThisDeclarationADefinition() && D.inRoots(FD->getLocation())) {
            D.dumpFunction(FD);
            D.drain();
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* RD) {
        if (RD->isThisDeclarationADefinition() && D.inRoots(RD->getLocation()) && !RD->isLambda() &&
            !RD->isDependentType())
            D.dumpRecord(RD);
        return true;
    }
    bool VisitVarDecl(VarDecl* VD) {
        if (VD->hasGlobalStorage() && D.inRoots(VD->getLocation()) && !VD->getType()->isDependentType() &&
            !VD->getDeclContext()->isDependentContext())
            D.dumpGlobal(VD);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* ED) {
        if (D.inRoots(ED->getLocation())) D.dumpEnum(ED);
        return true;
    }
};

class Consumer : public ASTConsumer {
   public:
    void HandleTranslationUnit(ASTContext& C) override {
        Dumper D(C);
        V v(D);
        // skip system headers quickly: visit only top level decls; namespaces are shared, so traverse all
        for (auto* Dl : C.getTranslationUnitDecl()->decls()) {
            if (D.inRoots(Dl->getLocation())) v.TraverseDecl(Dl);
        }
        D.drain();
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        Object root;
        bool err = C.getDiagnostics().hasErrorOccurred();
        root["errors"] = err;
        root["functions"] = std::move(D.functions);
        root["records"] = std::move(D.records);
        root["globals"] = std::move(D.globals);
        root["enums"] = std::move(D.enums);
        root["types"] = std::move(D.typeTab);
        os << Value(std::move(root));
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, const char** argv) {
    if (argc < 5) return 3;
    g_out = argv[1];
    std::string roots = argv[2];
    size_t p = 0;
    while (p <= roots.size()) {
        size_t q = roots.find(',', p);
        if (q == std::string::npos) q = roots.size();
        g_roots.push_back(roots.substr(p, q - p));
        p = q + 1;
    }
    std::string file = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; i++) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
