// cppvc exporter: parses one translation unit with the very headers and front end
// (clang/LLVM 20) the repository uses, and writes the typed syntax trees of every
// function defined in the main file plus everything they reach whose definition lies
// under one of the "user" prefixes.  Nothing is rewritten: what is exported is what
// the compiler would compile.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprObjC.h"
#include "clang/AST/Attr.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Prefixes;
static std::string OutPath;

struct Exp {
  ASTContext &C;
  SourceManager &SM;
  json::Array Types, Funcs, Recs, Vars;
  std::map<std::string, int> TypeIds;
  std::map<const FunctionDecl *, int> FuncIds;
  std::map<const CXXRecordDecl *, int> RecIds;
  std::map<const VarDecl *, int> GVarIds;
  std::map<const Decl *, int> LocalIds;
  std::deque<const FunctionDecl *> Work;
  std::map<const FunctionDecl *, int> FuncSlot;
  const FunctionDecl *Cur = nullptr;
  explicit Exp(ASTContext &C) : C(C), SM(C.getSourceManager()) {}

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  bool user(const Decl *D) {
    std::string F = file(D->getLocation());
    for (auto &P : Prefixes) {
      // FILE#NAME,NAME...: only the functions of that file whose name begins so
      size_t H = P.find('#');
      if (H == std::string::npos) {
        if (F.compare(0, P.size(), P) == 0) return true;
        continue;
      }
      if (F.compare(0, H, P, 0, H) != 0) continue;
      auto *N = dyn_cast<NamedDecl>(D);
      std::string Nm = N ? N->getNameAsString() : "";
      for (size_t I = H + 1; I <= P.size();) {
        size_t J = P.find(',', I);
        if (J == std::string::npos) J = P.size();
        if (J > I && Nm.compare(0, J - I, P, I, J - I) == 0) return true;
        I = J + 1;
      }
    }
    return false;
  }
  bool userFn(const FunctionDecl *F) {
    if (user(F)) return true;
    // defined by a macro of user code
    SourceLocation B = F->getBeginLoc();
    if (B.isMacroID()) {
      auto BP = SM.getPresumedLoc(SM.getSpellingLoc(B));
      for (auto &P : Prefixes)
        if (BP.isValid() && P.find('#') == std::string::npos && std::string(BP.getFilename()).compare(0, P.size(), P) == 0) return true;
    }
    return false;
  }
  static std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy PP{LangOptions()};
    PP.SuppressTemplateArgsInCXXConstructors = true;
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  int local(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = LocalIds.find(D);
    if (It != LocalIds.end()) return It->second;
    int N = LocalIds.size();
    LocalIds[D] = N;
    return N;
  }

  json::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return json::Object{{"t", type(A.getAsType())}};
    case TemplateArgument::Integral: return json::Object{{"i", A.getAsIntegral().getExtValue()}};
    case TemplateArgument::Pack: {
      json::Array P;
      for (auto &X : A.pack_elements()) P.push_back(targ(X));
      return json::Object{{"p", std::move(P)}};
    }
    default: return json::Object{{"o", 1}};
    }
  }

  int type(QualType Q) {
    if (Q.isNull()) return -1;
    Q = C.getCanonicalType(Q);
    std::string Key;
    {
      llvm::raw_string_ostream OS(Key);
      PrintingPolicy PP(C.getLangOpts());
      Q.print(OS, PP);
      OS << "#" << Q.getAsOpaquePtr();
    }
    auto It = TypeIds.find(Key);
    if (It != TypeIds.end()) return It->second;
    int Id = Types.size();
    TypeIds[Key] = Id;
    Types.push_back(nullptr);
    json::Object O;
    O["s"] = Q.getAsString(PrintingPolicy(C.getLangOpts()));
    if (Q.isConstQualified()) O["c"] = true;
    const Type *T = Q.getTypePtr();
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      if (B->getKind() == BuiltinType::Bool) O["k"] = "bool";
      else if (B->isVoidType()) O["k"] = "void";
      else if (B->isNullPtrType()) O["k"] = "nullptr";
      else if (B->isInteger()) {
        O["k"] = "int"; O["w"] = (int)C.getTypeSize(Q); O["sg"] = B->isSignedInteger();
      } else if (B->isFloatingPoint()) O["k"] = "float";
      else O["k"] = "other";
    } else if (auto *E = dyn_cast<EnumType>(T)) {
      O["k"] = "enum"; O["n"] = qn(E->getDecl());
      // an enumeration without fixed type holds values of its enumerators' range
      QualType I = E->getDecl()->isFixed() ? E->getDecl()->getIntegerType() : E->getDecl()->getPromotionType();
      O["w"] = I.isNull() ? 32 : (int)C.getTypeSize(I);
      O["sg"] = I.isNull() ? true : I->isSignedIntegerType();
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      O["k"] = "ptr"; O["to"] = type(P->getPointeeType());
    } else if (auto *P = dyn_cast<LValueReferenceType>(T)) {
      O["k"] = "lref"; O["to"] = type(P->getPointeeType());
    } else if (auto *P = dyn_cast<RValueReferenceType>(T)) {
      O["k"] = "rref"; O["to"] = type(P->getPointeeType());
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) {
      O["k"] = "arr"; O["to"] = type(A->getElementType());
      O["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      O["k"] = "arr"; O["to"] = type(A->getElementType()); O["n"] = -1;
    } else if (auto *R = dyn_cast<RecordType>(T)) {
      O["k"] = "rec";
      const RecordDecl *D = R->getDecl();
      O["n"] = qn(D);
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
        json::Array A;
        for (auto &X : S->getTemplateArgs().asArray()) A.push_back(targ(X));
        O["ta"] = std::move(A);
      }
      if (auto *CD = dyn_cast<CXXRecordDecl>(D)) {
        if (CD->isLambda()) { O["lambda"] = true; O["r"] = rec(CD); }
        else if (CD->hasDefinition() && user(CD)) O["r"] = rec(CD->getDefinition());
        else if (CD->hasDefinition()) {
          // bases by name, so that library classes can be recognised
          json::Array B;
          for (auto &X : CD->getDefinition()->bases())
            if (auto *BD = X.getType()->getAsCXXRecordDecl()) B.push_back(qn(BD));
          O["bn"] = std::move(B);
        }
      }
    } else if (auto *F = dyn_cast<FunctionProtoType>(T)) {
      O["k"] = "fn"; O["ret"] = type(F->getReturnType());
      json::Array A;
      for (auto X : F->getParamTypes()) A.push_back(type(X));
      O["ps"] = std::move(A);
    } else if (auto *M = dyn_cast<MemberPointerType>(T)) {
      O["k"] = "memptr"; (void)M;
    } else O["k"] = "other";
    Types[Id] = std::move(O);
    return Id;
  }

  int rec(const CXXRecordDecl *D) {
    D = D->getDefinition() ? D->getDefinition() : D;
    auto It = RecIds.find(D);
    if (It != RecIds.end()) return It->second;
    int Id = Recs.size();
    RecIds[D] = Id;
    Recs.push_back(nullptr);
    json::Object O;
    O["n"] = qn(D);
    O["ty"] = type(C.getRecordType(D));
    json::Array F, B;
    for (auto *X : D->fields()) {
      json::Object FO{{"n", X->getNameAsString()}, {"t", type(X->getType())}, {"id", local(X)}};
      if (X->isMutable()) FO["mut"] = true;
      F.push_back(std::move(FO));
    }
    if (D->hasDefinition())
      for (auto &X : D->bases()) B.push_back(type(X.getType()));
    O["f"] = std::move(F);
    O["b"] = std::move(B);
    O["poly"] = D->hasDefinition() && D->isPolymorphic();
    O["abs"] = D->hasDefinition() && D->isAbstract();
    if (D->hasDefinition()) {   // defined in a source file: nothing outside the unit can derive from it
      auto P = SM.getPresumedLoc(SM.getExpansionLoc(D->getDefinition()->getLocation()));
      if (P.isValid() && llvm::StringRef(P.getFilename()).ends_with(".cpp")) O["src"] = true;
    }
    if (D->isLambda()) {
      O["lambda"] = true;
      if (auto *Op = D->getLambdaCallOperator()) {
        const FunctionDecl *FD = Op;
        O["op"] = func(FD, true);
        if (Op->getDescribedFunctionTemplate()) {
          json::Array S;
          for (auto *X : Op->getDescribedFunctionTemplate()->specializations()) S.push_back(func(X, true));
          O["ops"] = std::move(S);
        }
      }
      json::Array Caps;
      auto FI = D->field_begin();
      for (auto &Cp : D->captures()) {
        json::Object CO;
        if (Cp.capturesThis()) CO["this"] = true;
        else if (Cp.capturesVariable()) {
          CO["v"] = local(Cp.getCapturedVar());
          CO["ref"] = Cp.getCaptureKind() == LCK_ByRef;
        }
        if (FI != D->field_end()) { CO["t"] = type(FI->getType()); ++FI; }
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
    } else if (D->hasDefinition()) {
      // every method, so that dynamic dispatch can be resolved
      json::Array M;
      for (auto *X : D->methods()) {
        if (X->isImplicit() && !X->isUserProvided()) {
          continue;
        }
        if (X->isTemplated()) continue;
        M.push_back(func(X, false));
      }
      O["m"] = std::move(M);
    }
    Recs[Id] = std::move(O);
    return Id;
  }

  // Enters a function in the table; a body is exported when it is user code and reached.
  int func(const FunctionDecl *F, bool Reach) {
    const FunctionDecl *Def = nullptr;
    const FunctionDecl *K = F->getCanonicalDecl();
    auto It = FuncIds.find(K);
    int Id;
    if (It == FuncIds.end()) {
      Id = Funcs.size();
      FuncIds[K] = Id;
      Funcs.push_back(nullptr);
      json::Object O;
      O["qn"] = qn(F);
      O["n"] = F->getNameAsString();
      json::Array Ps;
      for (auto *P : F->parameters()) Ps.push_back(type(P->getType()));
      O["pt"] = std::move(Ps);
      O["rt"] = type(F->getReturnType());
      O["user"] = userFn(F);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        O["cls"] = qn(M->getParent());
        O["clst"] = type(C.getRecordType(M->getParent()));
        O["static"] = M->isStatic();
        O["const"] = M->isConst();
        O["virtual"] = M->isVirtual();
        O["pure"] = M->isPureVirtual();
        if (auto *CC = dyn_cast<CXXConstructorDecl>(M)) {
          O["ctor"] = CC->isCopyOrMoveConstructor() ? "copy" : CC->isDefaultConstructor() ? "default" : "other";
        }
        if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
        if (isa<CXXConversionDecl>(M)) O["conv"] = true;
        json::Array Ov;
        for (auto *X : M->overridden_methods()) Ov.push_back(func(X, false));
        O["ov"] = std::move(Ov);
        if (M->isDefaulted()) O["defaulted"] = true;
      }
      if (F->isVariadic()) O["variadic"] = true;
      if (auto *TA = F->getTemplateSpecializationArgs()) {
        json::Array A;
        for (auto &X : TA->asArray()) A.push_back(targ(X));
        O["ta"] = std::move(A);
      }
      json::Array An;
      for (auto *R : F->redecls())
        for (auto *A : R->specific_attrs<AnnotateAttr>()) An.push_back(A->getAnnotation().str());
      O["an"] = std::move(An);
      auto P = SM.getPresumedLoc(SM.getExpansionLoc(F->getLocation()));
      if (P.isValid()) { O["file"] = P.getFilename(); O["line"] = (int)P.getLine(); }
      Funcs[Id] = std::move(O);
    } else Id = It->second;
    // reach: methods of user records are all exported (cheap, they are small)
    (void)Reach;
    if (userFn(F) && F->isDefined(Def) && !FuncSlot.count(K)) {
      FuncSlot[K] = Id;
      Work.push_back(Def);
    }
    return Id;
  }

  void bodies() {
    while (!Work.empty()) {
      const FunctionDecl *F = Work.front();
      Work.pop_front();
      int Id = FuncIds[F->getCanonicalDecl()];
      Cur = F;
      if (F->isTemplated()) continue; // patterns are not code; their instances are exported
      json::Array Ps;
      for (auto *P : F->parameters()) {
        json::Object PO{{"id", local(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}};
        Ps.push_back(std::move(PO));
      }
      json::Value B = F->getBody() ? stmt(F->getBody()) : json::Value(nullptr);
      json::Array Inits;
      if (auto *CC = dyn_cast<CXXConstructorDecl>(F))
        for (auto *I : CC->inits()) {
          json::Object IO;
          if (I->isMemberInitializer()) { IO["f"] = I->getMember()->getNameAsString(); IO["fid"] = local(I->getMember());
            IO["cls"] = qn(I->getMember()->getParent()); }
          else if (I->isBaseInitializer()) IO["base"] = type(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) IO["deleg"] = true;
          else IO["other"] = true;
          IO["e"] = expr(I->getInit());
          Inits.push_back(std::move(IO));
        }
      json::Object *O = Funcs[Id].getAsObject();
      (*O)["ps"] = std::move(Ps);
      if (!B.kind() || B.kind() != json::Value::Null) (*O)["body"] = std::move(B);
      (*O)["inits"] = std::move(Inits);
    }
  }

  int gvar(const VarDecl *V) {
    const VarDecl *K = V->getCanonicalDecl();
    auto It = GVarIds.find(K);
    if (It != GVarIds.end()) return It->second;
    int Id = Vars.size();
    GVarIds[K] = Id;
    Vars.push_back(nullptr);
    json::Object O{{"qn", qn(V)}, {"t", type(V->getType())}, {"user", user(V)}};
    const VarDecl *Def = nullptr;
    if (const Expr *I = V->getAnyInitializer(Def)) {
      if (user(V)) O["init"] = expr(I);
    }
    if (V->isStaticLocal()) O["sl"] = true;
    Vars[Id] = std::move(O);
    return Id;
  }

  json::Value declref(const ValueDecl *D) {
    json::Object O;
    if (auto *F = dyn_cast<FunctionDecl>(D)) { O["fn"] = func(F, true); }
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage()) O["gv"] = gvar(V);
      else O["v"] = local(V);
      O["n"] = V->getNameAsString();
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      O["ec"] = qn(E); O["val"] = E->getInitVal().getExtValue();
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      O["v"] = local(B); O["n"] = B->getNameAsString();
    } else O["unk"] = D->getDeclKindName();
    return O;
  }

  json::Value vardecl(const VarDecl *V) {
    json::Object O{{"n", V->getNameAsString()}, {"t", type(V->getType())}};
    if (V->isStaticLocal()) { O["gv"] = gvar(V); }
    else {
      O["v"] = local(V);
      if (V->getInit()) O["init"] = expr(V->getInit());
    }
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *X : DD->bindings()) {
        json::Object BO{{"v", local(X)}, {"n", X->getNameAsString()}};
        if (X->getBinding()) BO["e"] = expr(X->getBinding());
        B.push_back(std::move(BO));
      }
      O["bind"] = std::move(B);
    }
    return O;
  }

  int line(const Stmt *S) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(S->getBeginLoc()));
    return P.isValid() ? P.getLine() : 0;
  }

  json::Value ostmt(const Stmt *S) { return S ? stmt(S) : json::Value(nullptr); }

  json::Value stmt(const Stmt *S) {
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object O{{"k", "Expr"}, {"e", expr(E)}, {"l", line(S)}};
      return O;
    }
    json::Object O{{"l", line(S)}};
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "Block";
      json::Array A;
      for (auto *Y : X->body()) A.push_back(stmt(Y));
      O["b"] = std::move(A);
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "Decl";
      json::Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(vardecl(V));
      O["d"] = std::move(A);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "If";
      if (X->isConstexpr()) O["cexpr"] = true;
      O["init"] = ostmt(X->getInit());
      O["cv"] = ostmt(X->getConditionVariableDeclStmt());
      O["c"] = expr(X->getCond()); O["th"] = stmt(X->getThen()); O["el"] = ostmt(X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "For"; O["init"] = ostmt(X->getInit());
      O["cv"] = ostmt(X->getConditionVariableDeclStmt());
      O["c"] = X->getCond() ? expr(X->getCond()) : json::Value(nullptr);
      O["inc"] = X->getInc() ? expr(X->getInc()) : json::Value(nullptr);
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "While"; O["cv"] = ostmt(X->getConditionVariableDeclStmt());
      O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "Do"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "RangeFor";
      O["range"] = expr(X->getRangeInit());
      O["init"] = ostmt(X->getInit());
      O["var"] = vardecl(X->getLoopVariable());
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "Return"; O["e"] = X->getRetValue() ? expr(X->getRetValue()) : json::Value(nullptr);
    } else if (isa<BreakStmt>(S)) O["k"] = "Break";
    else if (isa<ContinueStmt>(S)) O["k"] = "Continue";
    else if (isa<NullStmt>(S)) O["k"] = "Null";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "Switch"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
      O["cv"] = ostmt(X->getConditionVariableDeclStmt());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "Case"; O["c"] = expr(X->getLHS()); O["rhs"] = X->getRHS() ? expr(X->getRHS()) : json::Value(nullptr);
      O["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "Default"; O["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "Try"; O["b"] = stmt(X->getTryBlock());
      json::Array H;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        auto *Hd = X->getHandler(I);
        json::Object HO{{"b", stmt(Hd->getHandlerBlock())}};
        if (Hd->getExceptionDecl()) { HO["t"] = type(Hd->getExceptionDecl()->getType()); HO["v"] = local(Hd->getExceptionDecl()); }
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return stmt(X->getSubStmt());
    } else {
      O["k"] = "Unknown"; O["cls"] = S->getStmtClassName();
    }
    return O;
  }

  json::Array exprs(llvm::ArrayRef<const Expr *> Es) {
    json::Array A;
    for (auto *E : Es) A.push_back(expr(E));
    return A;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) if (X->getSourceExpr()) return expr(X->getSourceExpr());
    json::Object O{{"t", type(E->getType())}, {"l", line(E)}};
    if (E->isLValue()) O["lv"] = true;
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      O["k"] = "Temp"; O["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "Int"; llvm::SmallString<32> S; X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
      O["v"] = S.str().str();
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "Int"; O["v"] = std::to_string(X->getValue());
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "Bool"; O["v"] = X->getValue();
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "Float"; O["v"] = X->getValueAsApproximateDouble();
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "Str";
      std::string S = X->isOrdinary() || X->isUTF8() ? X->getString().str() : "?";
      json::Array B;
      for (unsigned char Ch : S) B.push_back((int)Ch);
      O["v"] = std::move(B);
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "Null";
    } else if (isa<CXXThisExpr>(E)) {
      O["k"] = "This";
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      O["k"] = "Ref"; O["d"] = declref(X->getDecl());
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      O["k"] = "Member"; O["arrow"] = X->isArrow(); O["b"] = expr(X->getBase());
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["f"] = F->getNameAsString(); O["cls"] = qn(F->getParent()); O["clst"] = type(C.getRecordType(F->getParent()));
      } else if (auto *M = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
        O["m"] = func(M, true);
      } else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O["gv"] = gvar(V);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(X->getMemberDecl())) {
        O["k"] = "Int"; O["v"] = std::to_string(EC->getInitVal().getExtValue());
      }
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "Cast"; O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr());
      O["impl"] = isa<ImplicitCastExpr>(X);
      if (auto *F = X->getConversionFunction())
        if (auto *FD = dyn_cast<FunctionDecl>(F)) O["conv"] = func(FD, true);
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "Un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = "Bin"; O["op"] = X->getOpcodeStr().str(); O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) O["ct"] = type(CA->getComputationResultType());
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "Cond"; O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "Index"; O["a"] = expr(X->getBase()); O["i"] = expr(X->getIdx());
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "OpCall"; O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) { O["fn"] = func(F, true); O["mem"] = isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic(); }
      json::Array A;
      for (auto *Y : X->arguments()) A.push_back(expr(Y));
      O["args"] = std::move(A);
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "MCall";
      if (auto *M = X->getMethodDecl()) O["fn"] = func(M, true);
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        O["o"] = expr(ME->getBase()); O["arrow"] = ME->isArrow();
        O["qual"] = ME->hasQualifier();
      } else O["callee"] = expr(X->getCallee());
      json::Array A;
      for (auto *Y : X->arguments()) A.push_back(expr(Y));
      O["args"] = std::move(A);
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "Call";
      if (auto *F = X->getDirectCallee()) O["fn"] = func(F, true);
      else O["callee"] = expr(X->getCallee());
      json::Array A;
      for (auto *Y : X->arguments()) A.push_back(expr(Y));
      O["args"] = std::move(A);
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "Ctor"; O["fn"] = func(X->getConstructor(), true);
      O["elid"] = X->isElidable();
      O["list"] = X->isStdInitListInitialization();
      json::Array A;
      for (auto *Y : X->arguments()) A.push_back(expr(Y));
      O["args"] = std::move(A);
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "New"; O["ty"] = type(X->getAllocatedType());
      O["init"] = X->getInitializer() ? expr(X->getInitializer()) : json::Value(nullptr);
      O["arr"] = X->isArray();
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "Delete"; O["e"] = expr(X->getArgument());
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      O["k"] = "InitList";
      json::Array A;
      for (auto *Y : X->inits()) A.push_back(expr(Y));
      O["args"] = std::move(A);
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "Lambda"; O["r"] = rec(X->getLambdaClass());
      json::Array A;
      for (auto I = X->capture_init_begin(); I != X->capture_init_end(); ++I) A.push_back(expr(*I));
      O["args"] = std::move(A);
    } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      O["k"] = "Zero";
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "Throw"; O["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : json::Value(nullptr);
      if (X->getSubExpr()) O["et"] = type(X->getSubExpr()->getType());
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) { O["k"] = "Int"; O["v"] = llvm::toString(R.Val.getInt(), 10); }
      else { O["k"] = "Unknown"; O["cls"] = E->getStmtClassName(); }
    } else if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      O["k"] = "Str"; O["v"] = json::Array(); (void)X;
    } else if (auto *X = dyn_cast<TypeTraitExpr>(E)) {
      O["k"] = "Bool"; O["v"] = X->getValue();
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "InhCtor"; O["fn"] = func(X->getConstructor(), true);
    } else {
      O["k"] = "Unknown"; O["cls"] = E->getStmtClassName();
    }
    return O;
  }
};

static json::Object kinds() {
  json::Object R;
  json::Object S;
#define ABSTRACT_STMT(X)
#define STMT(CLASS, PARENT) S[#CLASS] = json::Array{(int)Stmt::CLASS##Class, (int)Stmt::CLASS##Class};
#define STMT_RANGE(BASE, FIRST, LAST) S[#BASE] = json::Array{(int)Stmt::FIRST##Class, (int)Stmt::LAST##Class};
#define LAST_STMT_RANGE(BASE, FIRST, LAST) S[#BASE] = json::Array{(int)Stmt::FIRST##Class, (int)Stmt::LAST##Class};
#include "clang/AST/StmtNodes.inc"
  R["Stmt"] = std::move(S);
  json::Object D;
#define ABSTRACT_DECL(X)
#define DECL(CLASS, BASE) D[#CLASS "Decl"] = json::Array{(int)Decl::CLASS, (int)Decl::CLASS};
#define DECL_RANGE(BASE, FIRST, LAST) D[#BASE "Decl"] = json::Array{(int)Decl::FIRST, (int)Decl::LAST};
#define LAST_DECL_RANGE(BASE, FIRST, LAST) D[#BASE "Decl"] = json::Array{(int)Decl::FIRST, (int)Decl::LAST};
#include "clang/AST/DeclNodes.inc"
  R["Decl"] = std::move(D);
  json::Object T;
#define TYPE(CLASS, BASE) T[#CLASS "Type"] = json::Array{(int)Type::CLASS, (int)Type::CLASS};
#define ABSTRACT_TYPE(CLASS, BASE)
#include "clang/AST/TypeNodes.inc"
  R["Type"] = std::move(T);
  json::Object A;
#define ATTR(X) A[#X "Attr"] = json::Array{(int)attr::X, (int)attr::X};
#include "clang/Basic/AttrList.inc"
  R["Attr"] = std::move(A);
  return R;
}

class Cons : public ASTConsumer {
public:
  void walk(Exp &X, DeclContext *DC) {
    auto &SM = X.SM;
    for (auto *D : DC->decls()) {
      if (auto *N = dyn_cast<NamespaceDecl>(D)) { walk(X, N); continue; }
      if (auto *L = dyn_cast<LinkageSpecDecl>(D)) { walk(X, L); continue; }
      if (!SM.isInMainFile(SM.getExpansionLoc(D->getLocation()))) {
        // so do functions its macros define, and
        // the sources a unit includes count as part of it
        SourceLocation B = D->getBeginLoc();
        auto BP = SM.getPresumedLoc(SM.getSpellingLoc(B));
        bool Macro = B.isMacroID() && BP.isValid() && isa<FunctionDecl>(D) && std::any_of(Prefixes.begin(), Prefixes.end(), [&](const std::string &P) {
          return P.find('#') == std::string::npos && std::string(BP.getFilename()).compare(0, P.size(), P) == 0; });
        if (!Macro) {
        std::string F = X.file(D->getLocation());
        if (F.size() < 4 || F.compare(F.size() - 4, 4, ".cpp") != 0 || !X.user(D)) continue;
        }
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) X.func(F, true);
      else if (auto *R = dyn_cast<CXXRecordDecl>(D)) { if (R->hasDefinition() && !R->isTemplated() && !R->isImplicit()) X.rec(R); }
      else if (auto *T = dyn_cast<FunctionTemplateDecl>(D)) { for (auto *S : T->specializations()) X.func(S, true); }
    }
  }
  void HandleTranslationUnit(ASTContext &C) override {
    Exp X(C);
    walk(X, C.getTranslationUnitDecl());
    X.bodies();
    json::Object O;
    O["types"] = std::move(X.Types);
    O["funcs"] = std::move(X.Funcs);
    O["recs"] = std::move(X.Recs);
    O["vars"] = std::move(X.Vars);
    O["kinds"] = kinds();
    O["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << json::Value(std::move(O)) << "\n";
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};

int main(int argc, char **argv) {
  // exporter OUT PREFIX[:PREFIX...] UNIT -- flags
  if (argc < 4) return 2;
  OutPath = argv[1];
  std::string P = argv[2];
  for (size_t I = 0; I <= P.size();) {
    size_t J = P.find(':', I);
    if (J == std::string::npos) J = P.size();
    if (J > I) Prefixes.push_back(P.substr(I, J - I));
    I = J + 1;
  }
  std::vector<std::string> Args{"clang++"};
  for (int I = 4; I < argc; ++I)
    if (std::string(argv[I]) != "--") Args.push_back(argv[I]);
  Args.push_back("-fsyntax-only");
  Args.push_back("-resource-dir=/usr/lib/llvm-20/lib/clang/20");
  Args.push_back(argv[3]);
  llvm::IntrusiveRefCntPtr<FileManager> Files(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation Inv(Args, std::make_unique<Act>(), Files.get());
  return Inv.run() ? 0 : 1;
}
