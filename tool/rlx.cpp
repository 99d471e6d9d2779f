// rlx -- exports the type-resolved program (functions, records, enums,
// globals) of one translation unit as JSON, restricted to declarations that
// live under a given root directory.  Nothing is executed: this is a clang
// libTooling front end whose output is the input of the rules in /verif/rl.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/DiagnosticSema.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <fstream>
#include <iostream>

using namespace clang;
namespace json = llvm::json;
using std::string;

static string gRoot, gOut;

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
  explicit Exporter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()),
    PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true;
    PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = false;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  json::Array Functions, Records, Enums, Globals;
  std::set<string> SeenRec;
  json::Array Types;
  std::map<string,int> TypeIdx;
  std::map<string,int> FileIdx;
  json::Array Files;
  std::map<const Decl*, int> LocalIds;
  int curFile = -1;

  // --- helpers -----------------------------------------------------------
  string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) {
      string s; llvm::raw_string_ostream os(s);
      os << "ptr:" << (const void*)D;
      return os.str();
    }
    return string(B.str());
  }
  string qname(const NamedDecl *D) {
    string s; llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  string recName(const RecordDecl *R) {
    string s;
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      llvm::raw_string_ostream os(s);
      S->getNameForDiagnostic(os, PP, true);
      return os.str();
    }
    // nested in a specialisation
    QualType T = Ctx.getRecordType(R);
    s = T.getAsString(PP);
    return s;
  }
  int fileId(StringRef f) {
    auto it = FileIdx.find(f.str());
    if (it != FileIdx.end()) return it->second;
    int n = Files.size();
    Files.push_back(f.str());
    FileIdx[f.str()] = n;
    return n;
  }
  bool loc(SourceLocation L, int &f, int &line) {
    if (L.isInvalid()) return false;
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
    if (P.isInvalid()) return false;
    f = fileId(P.getFilename()); line = P.getLine();
    return true;
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
    if (P.isInvalid()) return false;
    StringRef F(P.getFilename());
    return F.starts_with(gRoot);
  }
  int typeId(QualType T) {
    if (T.isNull()) return -1;
    QualType C = T->isDependentType() ? T : T.getCanonicalType();
    string s = C.getAsString(PP);
    auto it = TypeIdx.find(s);
    if (it != TypeIdx.end()) return it->second;
    int n = Types.size();
    TypeIdx[s] = n;
    Types.push_back(nullptr);
    json::Object o;
    o["s"] = s;
    QualType U = C;
    if (U->isReferenceType()) { o["ref"] = U->isRValueReferenceType() ? 2 : 1; U = U->getPointeeType(); }
    if (U.isConstQualified()) o["const"] = 1;
    if (U->isPointerType()) {
      o["ptr"] = 1; QualType P = U->getPointeeType();
      if (P.isConstQualified()) o["pconst"] = 1;
      o["pt"] = typeId(P.getUnqualifiedType());
      if (P->isFunctionType()) o["fptr"] = 1;
      U = P;
    }
    if (U->isArrayType()) {
      o["arr"] = 1;
      if (auto *CA = Ctx.getAsConstantArrayType(U)) o["n"] = (int64_t)CA->getSize().getZExtValue();
      QualType E = Ctx.getBaseElementType(U);
      o["pt"] = typeId(E.getUnqualifiedType());
      U = E;
    }
    if (auto *RD = U->getAsCXXRecordDecl()) {
      o["cls"] = recName(RD);
      needRecord(RD);
    } else if (auto *RT = U->getAs<RecordType>()) {
      o["cls"] = recName(RT->getDecl());
    } else if (auto *ET = U->getAs<EnumType>()) {
      o["enum"] = qname(ET->getDecl());
    } else if (U->isBooleanType()) o["b"] = 1;
    else if (U->isIntegerType()) {
      o["int"] = U->isUnsignedIntegerType() ? "u" : "s";
      if (!U->isDependentType() && !U->isIncompleteType()) o["w"] = (int)Ctx.getTypeSize(U);
      if (U->isAnyCharacterType()) o["ch"] = 1;
    } else if (U->isRealFloatingType()) o["flt"] = 1;
    else if (U->isVoidType()) o["void"] = 1;
    else if (U->isDependentType()) o["dep"] = 1;
    Types[n] = std::move(o);
    return n;
  }
  int localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = LocalIds.find(D);
    if (it != LocalIds.end()) return it->second;
    int n = LocalIds.size();
    LocalIds[D] = n;
    return n;
  }

  // --- records -----------------------------------------------------------
  std::vector<const CXXRecordDecl*> Pending;
  void needRecord(const CXXRecordDecl *RD) { Pending.push_back(RD); }
  void flushPending() {
    while (!Pending.empty()) {
      const CXXRecordDecl *R = Pending.back(); Pending.pop_back();
      doRecord(R);
    }
  }
  void doRecord(const CXXRecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD || RD->isLambda()) return;
    if (RD->isDependentType() && !inRoot(RD->getLocation())) return;
    string q = recName(RD);
    string key = usr(RD);
    if (!SeenRec.insert(key).second) return;
    // an instantiation belongs where its template is written
    SourceLocation at = RD->getLocation();
    if (auto *P = RD->getTemplateInstantiationPattern()) at = P->getLocation();
    bool mine = inRoot(at);
    json::Object o;
    o["q"] = q; o["usr"] = key;
    int f, l; if (loc(at, f, l)) { o["file"] = f; o["line"] = l; }
    if (mine) o["mine"] = 1;
    if (RD->isDependentType()) o["dep"] = 1;
    if (RD->isUnion()) o["union"] = 1;
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD))
      o["tmpl"] = qname(S->getSpecializedTemplate());
    if (RD->isPolymorphic()) o["poly"] = 1;
    if (!RD->isDependentType() && RD->isAbstract()) o["abs"] = 1;
    if (auto *D = RD->getDestructor()) {
      if (D->isVirtual()) o["vdtor"] = 1;
      if (D->getAccess() != AS_public) o["npdtor"] = 1;
      if (D->isUserProvided()) o["udtor"] = 1;
    }
    if (!RD->isDependentType()) {
      if (RD->isAggregate()) o["aggr"] = 1;
      if (RD->hasTrivialDefaultConstructor()) o["trivctor"] = 1;
      if (RD->hasUserDeclaredConstructor()) o["uctor"] = 1;
    }
    json::Array bases;
    for (auto &B : RD->bases()) {
      json::Object b;
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) {
        b["q"] = recName(BR); b["usr"] = usr(BR);
        needRecord(BR);
      } else b["q"] = B.getType().getAsString(PP);
      if (B.isVirtual()) b["virt"] = 1;
      b["acc"] = (int)B.getAccessSpecifier();
      bases.push_back(std::move(b));
    }
    o["bases"] = std::move(bases);
    if (mine) {
      json::Array fields;
      for (auto *F : RD->fields()) {
        json::Object fo;
        fo["n"] = F->getNameAsString();
        fo["ty"] = typeId(F->getType());
        if (F->isMutable()) fo["mut"] = 1;
        if (F->hasInClassInitializer()) fo["dinit"] = 1;
        fo["acc"] = (int)F->getAccess();
        int ff, fl; if (loc(F->getLocation(), ff, fl)) fo["line"] = fl;
        fields.push_back(std::move(fo));
      }
      o["fields"] = std::move(fields);
      json::Array ms;
      auto addMethod = [&](const CXXMethodDecl *M) {
        json::Object m;
        m["fn"] = usr(M); m["n"] = M->getNameAsString();
        if (M->isVirtual()) m["virt"] = 1;
        if (M->isPureVirtual()) m["pure"] = 1;
        if (M->isStatic()) m["static"] = 1;
        if (M->isConst()) m["const"] = 1;
        if (M->isImplicit()) m["impl"] = 1;
        if (M->isDeleted()) m["del"] = 1;
        if (M->isDefaulted()) m["dflt"] = 1;
        if (M->isUserProvided()) m["user"] = 1;
        m["acc"] = (int)M->getAccess();
        m["ret"] = typeId(M->getReturnType());
        json::Array ps;
        for (auto *P : M->parameters()) ps.push_back(typeId(P->getType()));
        m["params"] = std::move(ps);
        if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
          m["ctor"] = C->isDefaultConstructor() ? "default" :
                      C->isCopyConstructor() ? "copy" :
                      C->isMoveConstructor() ? "move" : "other";
        }
        if (isa<CXXDestructorDecl>(M)) m["dtor"] = 1;
        if (M->isCopyAssignmentOperator()) m["cassign"] = 1;
        if (M->isMoveAssignmentOperator()) m["massign"] = 1;
        json::Array ov;
        for (auto *OM : M->overridden_methods()) ov.push_back(usr(OM));
        if (!ov.empty()) m["over"] = std::move(ov);
        int ff, fl; if (loc(M->getLocation(), ff, fl)) m["line"] = fl;
        ms.push_back(std::move(m));
      };
      for (auto *M : RD->methods()) addMethod(M);
      for (auto *D : RD->decls())
        if (auto *FT = dyn_cast<FunctionTemplateDecl>(D))
          if (auto *M = dyn_cast<CXXMethodDecl>(FT->getTemplatedDecl())) addMethod(M);
      o["methods"] = std::move(ms);
    }
    Records.push_back(std::move(o));
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (RD->isThisDeclarationADefinition() && inRoot(RD->getLocation())) {
      doRecord(RD); flushPending();
    }
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation())) return true;
    json::Object o; o["q"] = qname(E);
    int f, l; if (loc(E->getLocation(), f, l)) { o["file"] = f; o["line"] = l; }
    json::Array cs;
    for (auto *C : E->enumerators()) {
      json::Object c; c["n"] = C->getNameAsString();
      c["v"] = (int64_t)C->getInitVal().getExtValue();
      cs.push_back(std::move(c));
    }
    o["c"] = std::move(cs);
    Enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || !inRoot(V->getLocation())) return true;
    if (isa<ParmVarDecl>(V)) return true;
    json::Object o; o["q"] = qname(V); o["n"] = V->getNameAsString();
    o["usr"] = usr(V);
    int f, l; if (loc(V->getLocation(), f, l)) { o["file"] = f; o["line"] = l; }
    o["ty"] = typeId(V->getType());
    if (V->isStaticLocal()) {
      o["slocal"] = 1;
      if (auto *FD = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod())) o["fn"] = usr(FD);
    }
    if (V->isStaticDataMember()) o["smem"] = 1;
    if (V->isThisDeclarationADefinition()) o["def"] = 1;
    if (V->hasInit() && !V->isStaticLocal()) o["init"] = E(V->getInit());
    flushPending();
    Globals.push_back(std::move(o));
    return true;
  }

  // --- functions ---------------------------------------------------------
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->isThisDeclarationADefinition() || !inRoot(FD->getLocation())) return true;
    if (FD->isImplicit()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD))
      if (M->getParent()->isLambda()) return true;
    LocalIds.clear();
    json::Object o;
    o["fn"] = usr(FD); o["q"] = qname(FD); o["n"] = FD->getNameAsString();
    int f = -1, l = 0; loc(FD->getLocation(), f, l);
    curFile = f;
    o["file"] = f; o["line"] = l;
    int ef, el; if (loc(FD->getEndLoc(), ef, el)) o["end"] = el;
    if (FD->isDependentContext()) o["dep"] = 1;
    if (FD->isTemplateInstantiation()) o["inst"] = 1;
    if (FD->isDefaulted()) o["dflt"] = 1;
    if (FD->isDeleted()) o["del"] = 1;
    o["ret"] = typeId(FD->getReturnType());
    if (FD->isNoReturn()) o["nr"] = 1;
    if (FD->isOverloadedOperator()) o["op"] = getOperatorSpelling(FD->getOverloadedOperator());
    if (auto *FPT = FD->getType()->getAs<FunctionProtoType>()) {
      auto es = FPT->getExceptionSpecType();
      if (es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone) o["noexcept"] = 1;
    }
    if (FD->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(FD)) o["internal"] = 1;
    json::Array ps;
    for (auto *P : FD->parameters()) {
      json::Object p; p["id"] = localId(P); p["n"] = P->getNameAsString();
      p["ty"] = typeId(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = recName(M->getParent());
      o["clsusr"] = usr(M->getParent());
      needRecord(M->getParent());
      if (M->isStatic()) o["static"] = 1;
      if (M->isConst()) o["const"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
      o["acc"] = (int)M->getAccess();
      json::Array ov;
      for (auto *OM : M->overridden_methods()) ov.push_back(usr(OM));
      if (!ov.empty()) o["over"] = std::move(ov);
      if (M->isCopyAssignmentOperator()) o["cassign"] = 1;
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = 1;
      if (isa<CXXConversionDecl>(M)) o["conv"] = 1;
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = C->isDefaultConstructor() ? "default" :
                    C->isCopyConstructor() ? "copy" :
                    C->isMoveConstructor() ? "move" : "other";
        json::Array is;
        for (auto *I : C->inits()) {
          json::Object io;
          if (I->isAnyMemberInitializer()) io["field"] = I->getAnyMember()->getNameAsString();
          else if (I->isBaseInitializer()) {
            io["base"] = I->getBaseClass()->getAsCXXRecordDecl() ?
               recName(I->getBaseClass()->getAsCXXRecordDecl()) : QualType(I->getBaseClass(),0).getAsString(PP);
          } else if (I->isDelegatingInitializer()) io["deleg"] = 1;
          io["written"] = I->isWritten() ? 1 : 0;
          if (I->isInClassMemberInitializer()) io["inclass"] = 1;
          if (I->getInit()) io["e"] = E(I->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
    }
    if (FD->getDescribedFunctionTemplate()) o["ftmpl"] = 1;
    if (FD->getBody()) o["body"] = S(FD->getBody());
    flushPending();
    Functions.push_back(std::move(o));
    return true;
  }

  // --- statements --------------------------------------------------------
  void setLoc(json::Object &o, SourceLocation L) {
    int f, l;
    if (loc(L, f, l)) { o["l"] = l; if (f != curFile) o["f"] = f; }
  }
  json::Value S(const Stmt *St) {
    if (!St) return nullptr;
    if (auto *Ex = dyn_cast<Expr>(St)) return E(Ex);
    json::Object o;
    setLoc(o, St->getBeginLoc());
    switch (St->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      o["k"] = "block"; json::Array c;
      for (auto *X : cast<CompoundStmt>(St)->body()) c.push_back(S(X));
      o["c"] = std::move(c); break; }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(St); o["k"] = "if";
      if (I->getInit()) o["init"] = S(I->getInit());
      if (I->getConditionVariableDeclStmt()) o["var"] = S(I->getConditionVariableDeclStmt());
      o["cond"] = E(I->getCond()); o["then"] = S(I->getThen());
      if (I->getElse()) o["else"] = S(I->getElse());
      break; }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(St); o["k"] = "while";
      if (W->getConditionVariableDeclStmt()) o["var"] = S(W->getConditionVariableDeclStmt());
      o["cond"] = E(W->getCond()); o["b"] = S(W->getBody()); break; }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(St); o["k"] = "do";
      o["cond"] = E(W->getCond()); o["b"] = S(W->getBody()); break; }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(St); o["k"] = "for";
      if (F->getInit()) o["init"] = S(F->getInit());
      if (F->getCond()) o["cond"] = E(F->getCond());
      if (F->getInc()) o["inc"] = E(F->getInc());
      o["b"] = S(F->getBody()); break; }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(St); o["k"] = "rfor";
      if (F->getLoopVariable()) o["var"] = V(F->getLoopVariable());
      if (F->getRangeInit()) o["range"] = E(F->getRangeInit());
      o["b"] = S(F->getBody()); break; }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(St); o["k"] = "switch";
      if (W->getConditionVariableDeclStmt()) o["var"] = S(W->getConditionVariableDeclStmt());
      o["cond"] = E(W->getCond()); o["b"] = S(W->getBody()); break; }
    case Stmt::CaseStmtClass: {
      auto *W = cast<CaseStmt>(St); o["k"] = "case";
      o["v"] = E(W->getLHS());
      if (!W->getLHS()->isValueDependent()) {
        Expr::EvalResult R;
        if (W->getLHS()->EvaluateAsInt(R, Ctx)) o["cv"] = (int64_t)R.Val.getInt().getExtValue();
      }
      if (W->getRHS()) o["v2"] = E(W->getRHS());
      o["s"] = S(W->getSubStmt()); break; }
    case Stmt::DefaultStmtClass: {
      o["k"] = "default"; o["s"] = S(cast<DefaultStmt>(St)->getSubStmt()); break; }
    case Stmt::BreakStmtClass: o["k"] = "break"; break;
    case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
    case Stmt::NullStmtClass: o["k"] = "nop"; break;
    case Stmt::ReturnStmtClass: {
      o["k"] = "ret";
      if (auto *R = cast<ReturnStmt>(St)->getRetValue()) o["e"] = E(R);
      break; }
    case Stmt::DeclStmtClass: {
      o["k"] = "decl"; json::Array c;
      for (auto *D : cast<DeclStmt>(St)->decls())
        if (auto *VD = dyn_cast<VarDecl>(D)) c.push_back(V(VD));
      o["c"] = std::move(c); break; }
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(St); o["k"] = "try";
      o["b"] = S(T->getTryBlock()); json::Array h;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i); json::Object ho;
        setLoc(ho, H->getBeginLoc());
        QualType CT = H->getCaughtType();
        if (CT.isNull()) ho["all"] = 1;
        else { ho["ty"] = typeId(CT); }
        if (H->getExceptionDecl()) { ho["id"] = localId(H->getExceptionDecl()); ho["n"] = H->getExceptionDecl()->getNameAsString(); }
        ho["b"] = S(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h); break; }
    case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(St)->getSubStmt());
    default: {
      o["k"] = "other"; o["cls"] = St->getStmtClassName(); json::Array c;
      for (auto *X : St->children()) if (X) c.push_back(S(X));
      o["c"] = std::move(c); }
    }
    return std::move(o);
  }
  json::Value V(const VarDecl *VD) {
    json::Object v;
    v["id"] = localId(VD); v["n"] = VD->getNameAsString(); v["ty"] = typeId(VD->getType());
    setLoc(v, VD->getLocation());
    if (VD->isStaticLocal()) { v["static"] = 1; v["usr"] = usr(VD); v["q"] = qname(VD); }
    if (VD->getInit()) {
      v["init"] = E(VD->getInit());
      if (VD->getInitStyle() == VarDecl::CInit) v["cinit"] = 1;
    }
    return std::move(v);
  }

  // --- expressions -------------------------------------------------------
  json::Value unary(const char *k, const Expr *Ex, const Expr *Sub) {
    json::Object o; o["k"] = k; setLoc(o, Ex->getExprLoc()); o["ty"] = typeId(Ex->getType());
    o["c"] = json::Array{E(Sub)};
    return std::move(o);
  }
  json::Value E(const Expr *Ex) {
    if (!Ex) return nullptr;
    // transparent wrappers
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(Ex)) { Ex = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(Ex)) { Ex = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(Ex)) { Ex = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(Ex)) { Ex = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(Ex)) { Ex = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(Ex)) { Ex = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(Ex)) {
        switch (P->getCastKind()) {
        case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean:
        case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingToBoolean:
        case CK_NullToPointer:
          break;
        default: Ex = P->getSubExpr(); continue;
        }
      }
      break;
    }
    json::Object o;
    setLoc(o, Ex->getExprLoc());
    o["ty"] = typeId(Ex->getType());
    if (!Ex->getType().isNull() && Ex->isPRValue() && Ex->getType()->isRecordType()) o["pr"] = 1;
    if (auto *X = dyn_cast<ImplicitCastExpr>(Ex)) {
      if (X->getCastKind() == CK_NullToPointer) { o["k"] = "null"; return std::move(o); }
      o["k"] = "icast"; o["ck"] = X->getCastKindName();
      o["c"] = json::Array{E(X->getSubExpr())}; return std::move(o);
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(Ex)) {
      // functional/static casts that just wrap a constructor are transparent
      const Expr *Sub = X->getSubExprAsWritten();
      if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_UserDefinedConversion) {
        return E(X->getSubExpr());
      }
      o["k"] = "cast"; o["ck"] = X->getCastKindName();
      if (isa<CXXStaticCastExpr>(X)) o["sty"] = "static";
      else if (isa<CXXDynamicCastExpr>(X)) o["sty"] = "dynamic";
      else if (isa<CXXReinterpretCastExpr>(X)) o["sty"] = "reinterpret";
      else if (isa<CXXConstCastExpr>(X)) o["sty"] = "const";
      else if (isa<CXXFunctionalCastExpr>(X)) o["sty"] = "func";
      else o["sty"] = "c";
      (void)Sub;
      o["c"] = json::Array{E(X->getSubExpr())}; return std::move(o);
    }
    switch (Ex->getStmtClass()) {
    case Stmt::DeclRefExprClass: {
      auto *R = cast<DeclRefExpr>(Ex); const ValueDecl *D = R->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "enum"; o["n"] = EC->getNameAsString();
        o["q"] = qname(EC);
        if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) o["e"] = qname(ED);
        o["v"] = (int64_t)EC->getInitVal().getExtValue(); return std::move(o);
      }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "fref"; o["fn"] = usr(FD); o["q"] = qname(FD); o["n"] = FD->getNameAsString(); return std::move(o);
      }
      o["k"] = "var"; o["n"] = D->getNameAsString();
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (VD->isStaticLocal()) { o["dk"] = "static"; o["id"] = localId(VD); o["q"] = qname(VD); o["usr"] = usr(VD); }
        else if (VD->hasGlobalStorage()) { o["dk"] = "global"; o["q"] = qname(VD); o["usr"] = usr(VD); }
        else { o["dk"] = isa<ParmVarDecl>(VD) ? "param" : "local"; o["id"] = localId(VD); }
      } else { o["dk"] = "other"; o["id"] = localId(D); }
      return std::move(o); }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(Ex); const ValueDecl *D = M->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        o["k"] = "field"; o["n"] = F->getNameAsString();
        o["q"] = recName(F->getParent()) + "::" + F->getNameAsString();
        o["rec"] = recName(F->getParent());
        if (M->isArrow()) o["arrow"] = 1;
        o["b"] = E(M->getBase()); return std::move(o);
      }
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        o["k"] = "var"; o["dk"] = "global"; o["n"] = VD->getNameAsString();
        o["q"] = qname(VD); o["usr"] = usr(VD); return std::move(o);
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "enum"; o["n"] = EC->getNameAsString(); o["q"] = qname(EC);
        o["v"] = (int64_t)EC->getInitVal().getExtValue(); return std::move(o);
      }
      o["k"] = "mref"; o["n"] = D->getNameAsString(); o["fn"] = usr(D); o["b"] = E(M->getBase());
      return std::move(o); }
    case Stmt::CXXThisExprClass:
      o["k"] = "this"; if (cast<CXXThisExpr>(Ex)->isImplicit()) o["impl"] = 1; return std::move(o);
    case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass:
    case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass: {
      auto *C = cast<CallExpr>(Ex); o["k"] = "call";
      const FunctionDecl *FD = C->getDirectCallee();
      unsigned start = 0;
      if (FD) {
        o["fn"] = usr(FD); o["q"] = qname(FD); o["n"] = FD->getNameAsString();
        if (FD->isNoReturn()) o["nr"] = 1;
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
          o["rec"] = recName(MD->getParent()); needRecord(MD->getParent());
          if (MD->isConst()) o["mc"] = 1;
          if (MD->isStatic()) o["ms"] = 1;
        }
        if (auto *FPT = FD->getType()->getAs<FunctionProtoType>()) {
          auto es = FPT->getExceptionSpecType();
          if (es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone) o["nx"] = 1;
          json::Array ps;
          for (auto T : FPT->param_types()) ps.push_back(typeId(T));
          o["pt"] = std::move(ps);
        }
      }
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(C)) {
        o["op"] = getOperatorSpelling(OC->getOperator());
        if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
          o["obj"] = E(C->getArg(0)); start = 1;
          if (cast<CXXMethodDecl>(FD)->isVirtual()) o["virt"] = 1;
        }
      } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(C)) {
        const Expr *Cal = MC->getCallee()->IgnoreParens();
        if (auto *ME = dyn_cast<MemberExpr>(Cal)) {
          o["obj"] = E(ME->getBase());
          if (ME->isArrow()) o["arrow"] = 1;
          if (FD && isa<CXXMethodDecl>(FD) && cast<CXXMethodDecl>(FD)->isVirtual() && !ME->hasQualifier()) o["virt"] = 1;
        } else o["callee"] = E(MC->getCallee());
      } else if (FD && isa<CXXMethodDecl>(FD)) {
        // static member call
      }
      if (!FD && !o.get("callee")) o["callee"] = E(C->getCallee());
      json::Array a;
      for (unsigned i = start; i < C->getNumArgs(); ++i) a.push_back(E(C->getArg(i)));
      o["a"] = std::move(a);
      return std::move(o); }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *C = cast<CXXConstructExpr>(Ex);
      o["k"] = "ctor"; const CXXConstructorDecl *CD = C->getConstructor();
      o["fn"] = usr(CD); o["q"] = recName(CD->getParent()); needRecord(CD->getParent());
      o["ck"] = CD->isDefaultConstructor() ? "default" : CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : "other";
      if (CD->isImplicit() || CD->isDefaulted()) o["impl"] = 1;
      if (C->requiresZeroInitialization()) o["zero"] = 1;
      if (auto *FPT = CD->getType()->getAs<FunctionProtoType>()) {
        auto es = FPT->getExceptionSpecType();
        if (es == EST_BasicNoexcept || es == EST_NoexceptTrue) o["nx"] = 1;
        json::Array ps;
        for (auto T : FPT->param_types()) ps.push_back(typeId(T));
        o["pt"] = std::move(ps);
      }
      json::Array a;
      for (auto *A : C->arguments()) a.push_back(E(A));
      o["a"] = std::move(a); return std::move(o); }
    case Stmt::CXXInheritedCtorInitExprClass: o["k"] = "other"; o["cls"] = "inhctor"; return std::move(o);
    case Stmt::CXXUnresolvedConstructExprClass: {
      auto *C = cast<CXXUnresolvedConstructExpr>(Ex); o["k"] = "uctor"; json::Array a;
      for (auto *A : C->arguments()) a.push_back(E(A));
      o["a"] = std::move(a); return std::move(o); }
    case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(Ex); o["k"] = "bin"; o["op"] = B->getOpcodeStr();
      o["c"] = json::Array{E(B->getLHS()), E(B->getRHS())}; return std::move(o); }
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(Ex); o["k"] = "un";
      string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isIncrementDecrementOp()) op = (U->isPrefix() ? "pre" : "post") + op;
      o["op"] = op;
      o["c"] = json::Array{E(U->getSubExpr())}; return std::move(o); }
    case Stmt::ConditionalOperatorClass: {
      auto *C = cast<ConditionalOperator>(Ex); o["k"] = "cond";
      o["c"] = json::Array{E(C->getCond()), E(C->getTrueExpr()), E(C->getFalseExpr())}; return std::move(o); }
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(Ex); o["k"] = "idx";
      o["c"] = json::Array{E(A->getBase()), E(A->getIdx())}; return std::move(o); }
    case Stmt::IntegerLiteralClass: {
      o["k"] = "int"; auto v = cast<IntegerLiteral>(Ex)->getValue();
      o["v"] = v.getActiveBits() <= 63 ? (int64_t)v.getZExtValue() : (int64_t)-1; return std::move(o); }
    case Stmt::CharacterLiteralClass: o["k"] = "chr"; o["v"] = (int64_t)cast<CharacterLiteral>(Ex)->getValue(); return std::move(o);
    case Stmt::CXXBoolLiteralExprClass: o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(Ex)->getValue(); return std::move(o);
    case Stmt::FloatingLiteralClass: o["k"] = "flt"; o["v"] = cast<FloatingLiteral>(Ex)->getValueAsApproximateDouble(); return std::move(o);
    case Stmt::StringLiteralClass: {
      auto *L = cast<StringLiteral>(Ex); o["k"] = "str";
      string raw = L->getCharByteWidth() == 1 ? L->getString().str() : string("<wide>");
      o["len"] = (int64_t)raw.size();
      string enc;
      for (unsigned char ch : raw) {
        if (ch < 0x80) enc += (char)ch;
        else { enc += (char)(0xC0 | (ch >> 6)); enc += (char)(0x80 | (ch & 0x3F)); } // latin-1 -> utf-8
      }
      o["v"] = enc; return std::move(o); }
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "null"; return std::move(o);
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(Ex); o["k"] = "new"; o["at"] = typeId(N->getAllocatedType());
      if (N->isArray()) { o["arr"] = 1; if (N->getArraySize() && *N->getArraySize()) o["size"] = E(*N->getArraySize()); }
      if (N->getNumPlacementArgs()) o["place"] = 1;
      if (N->getInitializer()) o["init"] = E(N->getInitializer());
      return std::move(o); }
    case Stmt::CXXDeleteExprClass: {
      auto *D = cast<CXXDeleteExpr>(Ex); o["k"] = "del"; if (D->isArrayForm()) o["arr"] = 1;
      o["c"] = json::Array{E(D->getArgument())}; return std::move(o); }
    case Stmt::CXXThrowExprClass: {
      auto *T = cast<CXXThrowExpr>(Ex); o["k"] = "throw";
      if (T->getSubExpr()) { o["tt"] = typeId(T->getSubExpr()->getType().getUnqualifiedType()); o["c"] = json::Array{E(T->getSubExpr())}; }
      else o["c"] = json::Array{};
      return std::move(o); }
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(Ex); o["k"] = "lambda";
      json::Array caps;
      for (auto &C : L->captures()) {
        json::Object c;
        if (C.capturesThis()) c["this"] = 1;
        else if (C.capturesVariable()) { c["id"] = localId(C.getCapturedVar()); c["n"] = C.getCapturedVar()->getNameAsString(); }
        c["ref"] = C.getCaptureKind() == LCK_ByRef ? 1 : 0;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      json::Array ps;
      for (auto *P : L->getCallOperator()->parameters()) {
        json::Object p; p["id"] = localId(P); p["n"] = P->getNameAsString(); p["ty"] = typeId(P->getType());
        ps.push_back(std::move(p));
      }
      o["params"] = std::move(ps);
      o["fn"] = usr(L->getCallOperator());
      o["b"] = S(L->getBody()); return std::move(o); }
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(Ex);
      if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
      if (I->isTransparent() ) return E(I->getInit(0));
      o["k"] = "init"; json::Array a;
      for (unsigned i = 0; i < I->getNumInits(); ++i) a.push_back(E(I->getInit(i)));
      o["a"] = std::move(a); return std::move(o); }
    case Stmt::ParenListExprClass: {
      auto *I = cast<ParenListExpr>(Ex); o["k"] = "init"; o["paren"] = 1; json::Array a;
      for (unsigned i = 0; i < I->getNumExprs(); ++i) a.push_back(E(I->getExpr(i)));
      o["a"] = std::move(a); return std::move(o); }
    case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass:
      o["k"] = "zero"; return std::move(o);
    case Stmt::CXXDefaultArgExprClass: {
      auto *D = cast<CXXDefaultArgExpr>(Ex);
      json::Value v = E(D->getExpr());
      if (auto *vo = v.getAsObject()) (*vo)["da"] = 1;
      return v; }
    case Stmt::CXXDefaultInitExprClass: {
      auto *D = cast<CXXDefaultInitExpr>(Ex);
      json::Value v = E(D->getExpr());
      if (auto *vo = v.getAsObject()) (*vo)["dinit"] = 1;
      return v; }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto *U = cast<UnaryExprOrTypeTraitExpr>(Ex);
      o["k"] = "sizeof"; Expr::EvalResult R;
      if (!Ex->isValueDependent() && Ex->EvaluateAsInt(R, Ctx)) o["v"] = (int64_t)R.Val.getInt().getExtValue();
      if (!U->isArgumentType()) o["of"] = E(U->getArgumentExpr());
      return std::move(o); }
    case Stmt::CXXTypeidExprClass: o["k"] = "typeid"; return std::move(o);
    case Stmt::CXXDependentScopeMemberExprClass: {
      auto *D = cast<CXXDependentScopeMemberExpr>(Ex); o["k"] = "depmem"; o["n"] = D->getMember().getAsString();
      if (!D->isImplicitAccess()) o["b"] = E(D->getBase()); return std::move(o); }
    case Stmt::UnresolvedMemberExprClass: {
      auto *D = cast<UnresolvedMemberExpr>(Ex); o["k"] = "depmem"; o["n"] = D->getMemberName().getAsString();
      if (!D->isImplicitAccess()) o["b"] = E(D->getBase()); return std::move(o); }
    case Stmt::UnresolvedLookupExprClass: {
      auto *D = cast<UnresolvedLookupExpr>(Ex); o["k"] = "deplook"; o["n"] = D->getName().getAsString(); return std::move(o); }
    case Stmt::CXXNoexceptExprClass: o["k"] = "other"; o["cls"] = "noexcept"; return std::move(o);
    default: {
      o["k"] = "other"; o["cls"] = Ex->getStmtClassName(); json::Array c;
      for (auto *X : Ex->children()) if (X) c.push_back(S(X));
      o["c"] = std::move(c); return std::move(o); }
    }
  }

  ASTContext &Ctx; SourceManager &SM; PrintingPolicy PP;
};

static unsigned gErrors = 0;

// The library's std::swap specialisations lack libstdc++'s noexcept; g++
// (the project's compiler) accepts that, clang reports it.  Every other error
// is a real failure to understand the unit.
class Diags : public DiagnosticConsumer {
public:
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
    if (L < DiagnosticsEngine::Error) return;
    if (I.getID() == diag::err_missing_exception_specification) return;
    llvm::SmallString<256> B; I.FormatDiagnostic(B);
    string where;
    if (I.hasSourceManager() && I.getLocation().isValid())
      where = I.getLocation().printToString(I.getSourceManager());
    llvm::errs() << where << ": error: " << B << "\n";
    ++gErrors;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C);
    X.TraverseDecl(C.getTranslationUnitDecl());
    X.flushPending();
    json::Object o;
    o["errors"] = (int64_t)gErrors;
    o["functions"] = std::move(X.Functions);
    o["records"] = std::move(X.Records);
    o["enums"] = std::move(X.Enums);
    o["globals"] = std::move(X.Globals);
    o["types"] = std::move(X.Types);
    o["files"] = std::move(X.Files);
    std::error_code EC;
    llvm::raw_fd_ostream os(gOut, EC);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

// usage: rlx ROOT OUT FILE -- flags...
int main(int argc, char **argv) {
  if (argc < 5) { std::cerr << "usage: rlx ROOT OUT FILE -- FLAGS\n"; return 2; }
  gRoot = argv[1]; gOut = argv[2];
  string file = argv[3];
  std::vector<string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  Diags D; T.setDiagnosticConsumer(&D);
  T.run(tooling::newFrontendActionFactory<Action>().get());
  return gErrors ? 1 : 0;
}
