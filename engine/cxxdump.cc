// cxxdump: emits, as JSON, the typed AST of every function body located under a
// given source root (template instantiations and lambdas included), exactly as
// clang's front end resolved it (implicit casts, overloads, rewritten operators).
// Nothing is rewritten; what is dropped is listed in DESIGN.md.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root;
static std::vector<std::string> Roots;

struct Dumper {
  ASTContext &C;
  json::Array Types, Funcs, Records, Globals;
  std::map<const void *, int> TypeIdx;
  std::map<const Decl *, int> DeclIdx;
  std::set<const Decl *> FuncDone, RecDone;
  std::vector<const FunctionDecl *> Queue;
  Dumper(ASTContext &C) : C(C) {}

  bool inRoot(SourceLocation L) {
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    for (auto &R : Roots)
      if (F.starts_with(R))
        return true;
    return false;
  }
  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = DeclIdx.find(D);
    if (It != DeclIdx.end())
      return It->second;
    int n = DeclIdx.size();
    DeclIdx[D] = n;
    return n;
  }
  std::string loc(SourceLocation L) {
    auto &SM = C.getSourceManager();
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid())
      return "?";
    std::string f = P.getFilename();
    return f + ":" + std::to_string(P.getLine());
  }
  json::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type:
      return ty(A.getAsType());
    case TemplateArgument::Integral:
      return json::Object{{"v", A.getAsIntegral().getExtValue()}};
    case TemplateArgument::Pack: {
      json::Array P;
      for (auto &B : A.pack_elements())
        P.push_back(targ(B));
      return json::Object{{"pack", std::move(P)}};
    }
    default:
      return nullptr;
    }
  }
  int ty(QualType Q) {
    Q = Q.getCanonicalType();
    bool cst = Q.isConstQualified();
    const void *key = Q.getAsOpaquePtr();
    auto It = TypeIdx.find(key);
    if (It != TypeIdx.end())
      return It->second;
    int idx = Types.size();
    TypeIdx[key] = idx;
    Types.push_back(nullptr);
    json::Object O;
    if (cst)
      O["const"] = true;
    const Type *T = Q.getTypePtr();
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      O["k"] = "builtin";
      O["n"] = B->getName(PrintingPolicy(C.getLangOpts())).str();
      if (B->isInteger()) {
        O["bits"] = (int64_t)C.getTypeSize(QualType(T, 0));
        O["signed"] = B->isSignedInteger();
      }
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      O["k"] = "ptr";
      O["to"] = ty(P->getPointeeType());
    } else if (auto *P = dyn_cast<ReferenceType>(T)) {
      O["k"] = isa<LValueReferenceType>(T) ? "lref" : "rref";
      O["to"] = ty(P->getPointeeType());
    } else if (auto *R = dyn_cast<RecordType>(T)) {
      auto *D = R->getDecl();
      O["k"] = "record";
      O["n"] = D->getQualifiedNameAsString();
      O["d"] = did(D);
      if (auto *CR = dyn_cast<CXXRecordDecl>(D))
        if (CR->isLambda())
          O["lambda"] = true;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
        json::Array A;
        for (auto &X : S->getTemplateArgs().asArray())
          A.push_back(targ(X));
        O["a"] = std::move(A);
      }
      rec(D);
    } else if (auto *E = dyn_cast<EnumType>(T)) {
      O["k"] = "enum";
      O["n"] = E->getDecl()->getQualifiedNameAsString();
      json::Array A;
      for (auto *X : E->getDecl()->enumerators())
        A.push_back(json::Object{{"n", X->getNameAsString()},
                                 {"v", X->getInitVal().getExtValue()}});
      O["e"] = std::move(A);
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) {
      O["k"] = "array";
      O["to"] = ty(A->getElementType());
      O["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (isa<FunctionProtoType>(T)) {
      O["k"] = "func";
    } else {
      O["k"] = "other";
      O["n"] = Q.getAsString();
    }
    O["s"] = Q.getAsString().substr(0, 300);
    Types[idx] = std::move(O);
    return idx;
  }
  void rec(const RecordDecl *D) {
    D = D->getDefinition();
    if (!D || !RecDone.insert(D->getCanonicalDecl()).second)
      return;
    bool mine = inRoot(D->getLocation());
    if (!mine)
      return;
    json::Array F, B;
    for (auto *X : D->fields()) {
      json::Object FO{{"n", X->getNameAsString()}, {"t", ty(X->getType())}};
      if (X->hasInClassInitializer() && X->getInClassInitializer())
        FO["init"] = stmt(X->getInClassInitializer());
      F.push_back(std::move(FO));
    }
    if (auto *CR = dyn_cast<CXXRecordDecl>(D))
      for (auto &X : CR->bases())
        B.push_back(ty(X.getType()));
    Records.push_back(json::Object{{"d", did(D)},
                                   {"n", D->getQualifiedNameAsString()},
                                   {"f", std::move(F)},
                                   {"b", std::move(B)}});
  }
  json::Object callee(const FunctionDecl *F) {
    json::Object O{{"n", F->getQualifiedNameAsString()}, {"d", did(F)}};
    json::Array P;
    for (auto *X : F->parameters())
      P.push_back(ty(X->getType()));
    O["p"] = std::move(P);
    O["r"] = ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = ty(C.getRecordType(M->getParent()));
      if (M->isStatic())
        O["static"] = true;
      if (M->isConst())
        O["mconst"] = true;
      if (M->getParent()->isLambda())
        O["lambda"] = true;
    }
    if (F->isDefaulted() || F->isImplicit())
      O["defaulted"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &X : TA->asArray())
        A.push_back(targ(X));
      O["ta"] = std::move(A);
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      if (CD->isCopyOrMoveConstructor())
        O["copyctor"] = true;
      if (CD->isDefaultConstructor())
        O["defctor"] = true;
    }
    if (isa<CXXConversionDecl>(F))
      O["conv"] = true;
    enqueue(F);
    return O;
  }
  void enqueue(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && inRoot(Def->getLocation()))
      Queue.push_back(Def);
  }
  void var(json::Object &O, const VarDecl *V) {
    O["n"] = V->getNameAsString();
    O["d"] = did(V);
    O["t"] = ty(V->getType());
    if (V->isStaticLocal())
      O["static"] = true;
    if (V->isFileVarDecl() || V->isStaticDataMember()) {
      O["global"] = true;
    }
    if (V->isConstexpr())
      O["constexpr"] = true;
  }
  json::Value stmt(const Stmt *S) {
    if (!S)
      return nullptr;
    json::Object O;
    O["k"] = S->getStmtClassName();
    bool kids = true;
    json::Array K;
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = ty(E->getType());
      if (E->isLValue())
        O["lv"] = true;
      else if (E->isXValue())
        O["xv"] = true;
    }
    O["loc"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<IntegerLiteral>(S)) {
      O["v"] = (int64_t)X->getValue().getLimitedValue();
    } else if (auto *X = dyn_cast<CharacterLiteral>(S)) {
      O["v"] = (int64_t)X->getValue();
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) {
      O["v"] = X->getValue();
    } else if (auto *X = dyn_cast<FloatingLiteral>(S)) {
      O["v"] = X->getValueAsApproximateDouble();
    } else if (auto *X = dyn_cast<StringLiteral>(S)) {
      O["v"] = json::fixUTF8(X->getBytes());
    } else if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      auto *D = X->getDecl();
      O["n"] = D->getQualifiedNameAsString();
      O["d"] = did(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        O["dk"] = isa<ParmVarDecl>(D) ? "parm" : "var";
        if (V->isStaticLocal())
          O["static"] = true;
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          O["global"] = true;
          if (auto *I = V->getAnyInitializer())
            if (inRoot(V->getLocation()))
              O["ginit"] = stmt(I);
        }
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["dk"] = "func";
        O["fn"] = callee(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["dk"] = "enum";
        O["v"] = EC->getInitVal().getExtValue();
      } else if (isa<BindingDecl>(D)) {
        O["dk"] = "binding";
      } else
        O["dk"] = "other";
    } else if (auto *X = dyn_cast<MemberExpr>(S)) {
      auto *D = X->getMemberDecl();
      O["n"] = D->getNameAsString();
      O["arrow"] = X->isArrow();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["dk"] = "func";
        O["fn"] = callee(F);
      } else if (isa<FieldDecl>(D)) {
        O["dk"] = "field";
        O["cls"] = cast<FieldDecl>(D)->getParent()->getQualifiedNameAsString();
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        O["dk"] = "staticmember";
        O["d"] = did(V);
        if (auto *I = V->getAnyInitializer())
          if (inRoot(V->getLocation()))
            O["ginit"] = stmt(I);
      } else
        O["dk"] = "other";
    } else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix())
        O["post"] = true;
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(S)) {
      O["op"] = X->getOpcodeStr().str();
      O["ct"] = ty(X->getComputationResultType());
      O["clt"] = ty(X->getComputationLHSType());
    } else if (auto *X = dyn_cast<BinaryOperator>(S)) {
      O["op"] = X->getOpcodeStr().str();
    } else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(S)) {
      O["op"] = BinaryOperator::getOpcodeStr(X->getOperator()).str();
      kids = false;
      K.push_back(stmt(X->getSemanticForm()));
      auto DF = X->getDecomposedForm();
      K.push_back(stmt(DF.LHS));
      K.push_back(stmt(DF.RHS));
      O["rev"] = X->isReversed();
    } else if (auto *X = dyn_cast<CastExpr>(S)) {
      O["ck"] = X->getCastKindName();
      if (auto *CF = X->getConversionFunction())
        if (auto *FF = dyn_cast<FunctionDecl>(CF))
          O["fn"] = callee(FF);
    } else if (auto *X = dyn_cast<CallExpr>(S)) {
      if (auto *F = X->getDirectCallee())
        O["fn"] = callee(F);
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S))
        O["op"] = getOperatorSpelling(OC->getOperator());
    } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      O["fn"] = callee(X->getConstructor());
      if (X->isListInitialization())
        O["list"] = true;
      if (X->isStdInitListInitialization())
        O["stdlist"] = true;
      if (X->requiresZeroInitialization())
        O["zeroinit"] = true;
    } else if (auto *X = dyn_cast<CXXDefaultArgExpr>(S)) {
      kids = false;
      K.push_back(stmt(X->getExpr()));
    } else if (auto *X = dyn_cast<CXXDefaultInitExpr>(S)) {
      kids = false;
      K.push_back(stmt(X->getExpr()));
    } else if (auto *X = dyn_cast<InitListExpr>(S)) {
      if (X->isSemanticForm() == false && X->getSemanticForm())
        return stmt(X->getSemanticForm());
      if (auto *FF = X->getArrayFiller()) O["filler"] = stmt(FF);
    } else if (auto *X = dyn_cast<LambdaExpr>(S)) {
      kids = false;
      CXXMethodDecl *Op = X->getCallOperator();
      Stmt *OpBody = X->getBody();
      // a generic lambda that is used with one list of argument types: its instantiation
      if (auto *FT = X->getLambdaClass()->getDependentLambdaCallOperator()) {
        FunctionDecl *One = nullptr;
        unsigned N = 0;
        for (auto *Sp : FT->specializations())
          if (Sp->getBody()) {
            One = Sp;
            N++;
          }
        if (N == 1) {
          Op = cast<CXXMethodDecl>(One);
          OpBody = One->getBody();
        }
      }
      O["fn"] = callee(Op);
      json::Array P;
      for (auto *A : Op->parameters()) {
        json::Object VO;
        var(VO, A);
        P.push_back(std::move(VO));
      }
      O["params"] = std::move(P);
      O["body"] = stmt(OpBody);
      json::Array Cs;
      for (auto &Cp : X->captures()) {
        json::Object CO;
        if (Cp.capturesThis())
          CO["this"] = true;
        else if (Cp.capturesVariable()) {
          CO["d"] = did(Cp.getCapturedVar());
          CO["n"] = Cp.getCapturedVar()->getNameAsString();
          CO["ref"] = Cp.getCaptureKind() == LCK_ByRef;
        }
        Cs.push_back(std::move(CO));
      }
      O["caps"] = std::move(Cs);
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      kids = false;
      for (auto *D : X->decls()) {
        json::Object VO;
        if (auto *V = dyn_cast<VarDecl>(D)) {
          VO["k"] = isa<DecompositionDecl>(D) ? "DecompositionDecl" : "VarDecl";
          var(VO, V);
          if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
            json::Array Bs;
            for (auto *B : DD->bindings()) {
              json::Object BO{{"n", B->getNameAsString()}, {"d", did(B)}};
              BO["e"] = stmt(B->getBinding());
              if (auto *HV = B->getHoldingVar()) {
                json::Object HO;
                var(HO, HV);
                HO["init"] = stmt(HV->getInit());
                BO["hv"] = std::move(HO);
              }
              Bs.push_back(std::move(BO));
            }
            VO["bindings"] = std::move(Bs);
          }
          if (V->getInit())
            VO["init"] = stmt(V->getInit());
        } else {
          VO["k"] = "OtherDecl";
        }
        K.push_back(std::move(VO));
      }
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      kids = false;
      json::Object VO;
      const VarDecl *LV = X->getLoopVariable();
      var(VO, LV);
      if (LV->getInit())
        VO["init"] = stmt(LV->getInit());
      if (auto *DD = dyn_cast<DecompositionDecl>(LV)) {
        json::Array Bs;
        for (auto *B : DD->bindings()) {
          json::Object BO{{"n", B->getNameAsString()}, {"d", did(B)}};
          BO["e"] = stmt(B->getBinding());
          if (auto *HV = B->getHoldingVar()) {
            json::Object HO;
            var(HO, HV);
            HO["init"] = stmt(HV->getInit());
            BO["hv"] = std::move(HO);
          }
          Bs.push_back(std::move(BO));
        }
        VO["bindings"] = std::move(Bs);
      }
      O["var"] = std::move(VO);
      O["range"] = stmt(X->getRangeInit());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      kids = false;
      O["init"] = stmt(X->getInit());
      O["cond"] = stmt(X->getCond());
      O["inc"] = stmt(X->getInc());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      kids = false;
      O["cond"] = stmt(X->getCond());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      kids = false;
      O["cond"] = stmt(X->getCond());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      kids = false;
      if (X->getInit())
        O["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt())
        O["condvar"] = stmt(X->getConditionVariableDeclStmt());
      O["cond"] = stmt(X->getCond());
      O["then"] = stmt(X->getThen());
      O["else"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      kids = false;
      O["cond"] = stmt(X->getCond());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      kids = false;
      O["val"] = stmt(X->getLHS());
      O["sub"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      kids = false;
      O["sub"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<ConstantExpr>(S)) {
      (void)X;
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      kids = false;
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C))
        O["v"] = R.Val.getInt().getExtValue();
    } else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      O["at"] = ty(X->getAllocatedType());
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      (void)X;
    } else if (auto *X = dyn_cast<OpaqueValueExpr>(S)) {
      kids = false;
      if (X->getSourceExpr())
        K.push_back(stmt(X->getSourceExpr()));
    }
    if (kids)
      for (const Stmt *Ch : S->children())
        K.push_back(stmt(Ch));
    if (!K.empty())
      O["c"] = std::move(K);
    return O;
  }
  void func(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def)
      return;
    F = Def;
    if (F->isDependentContext())
      return;
    if (!FuncDone.insert(F->getCanonicalDecl()).second)
      return;
    if (F->isDefaulted())
      return;
    json::Object O = callee(F);
    O["loc"] = loc(F->getLocation());
    json::Array P;
    for (auto *A : F->parameters()) {
      json::Object VO;
      var(VO, A);
      P.push_back(std::move(VO));
    }
    O["params"] = std::move(P);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array I;
      for (auto *X : CD->inits()) {
        json::Object IO;
        if (X->isMemberInitializer())
          IO["m"] = X->getMember()->getNameAsString();
        else if (X->isBaseInitializer())
          IO["base"] = ty(QualType(X->getBaseClass(), 0));
        else if (X->isDelegatingInitializer())
          IO["deleg"] = true;
        IO["e"] = stmt(X->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = stmt(F->getBody());
    Funcs.push_back(std::move(O));
  }
  void drain() {
    while (!Queue.empty()) {
      auto *F = Queue.back();
      Queue.pop_back();
      func(F);
    }
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *X) {
    if (!X) return true;
    if (!isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) &&
        !isa<LinkageSpecDecl>(X) && !D.inRoot(X->getLocation()))
      return true;
    return RecursiveASTVisitor<V>::TraverseDecl(X);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && D.inRoot(F->getLocation()) &&
        !F->isDependentContext()) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F))
        if (M->getParent()->isLambda())
          return true;
      D.func(F);
      D.drain();
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !R->isLambda())
      D.rec(R);
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred())
      return;
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
    json::Object O{{"types", std::move(D.Types)},
                   {"funcs", std::move(D.Funcs)},
                   {"records", std::move(D.Records)}};
    llvm::outs() << json::Value(std::move(O)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 StringRef) override {
    return std::make_unique<Cons>();
  }
};
// usage: cxxdump FILE ROOT[:ROOT...] -- flags...
int main(int argc, char **argv) {
  std::string file = argv[1], roots = argv[2];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t q = roots.find(':', p);
    if (q == std::string::npos)
      q = roots.size();
    Roots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> Cmd{"clang-tool", "-fsyntax-only"};
  for (int i = 4; i < argc; i++)
    Cmd.push_back(argv[i]);
  Cmd.push_back(file);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation Inv(Cmd, std::make_unique<Act>(), FM.get());
  return Inv.run() ? 0 : 1;
}
