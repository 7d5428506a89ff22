// vrs-extract: dumps, for one translation unit, the resolved program as a small JSON IR:
// every function body defined in the repository as a clang CFG of three-address nodes,
// plus records (with layouts), enums and globals. No rule is applied here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/MacroArgs.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("vrs-extract");
static llvm::cl::opt<std::string> OutDir("out", llvm::cl::desc("output file"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("repo root"), llvm::cl::init("/repo"), llvm::cl::cat(Cat));

static std::string usrOf(const Decl* D) {
  if (!D) return "";
  llvm::SmallString<256> buf;
  if (index::generateUSRForDecl(D->getCanonicalDecl(), buf)) return "";
  return std::string(buf);
}

class Dumper {
 public:
  Dumper(ASTContext& C, json::OStream& J) : Ctx(C), SM(C.getSourceManager()), J(J), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.AnonymousTagLocations = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    FileID F = SM.getFileID(L);
    auto it = fileNames.find(F);
    if (it != fileNames.end()) return it->second;
    std::string r;
    if (auto fe = SM.getFileEntryRefForID(F)) {
      llvm::SmallString<256> p(fe->getName());
      SM.getFileManager().makeAbsolutePath(p);
      llvm::sys::path::remove_dots(p, true);
      r = std::string(p);
      std::string root = Root + "/";
      if (r.compare(0, root.size(), root) == 0) r = r.substr(root.size());
      else r = "!" + r;
    }
    fileNames[F] = r;
    return r;
  }
  bool inRepo(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.empty() || f[0] == '!') return false;
    if (f.find("/test/") != std::string::npos || f.compare(0, 6, "_build") == 0 || f.find("/gtest/") != std::string::npos) return false;
    return true;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  int col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

  int typeId(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = typeIdx.find(s);
    if (it != typeIdx.end()) return it->second;
    int id = (int)types.size();
    types.push_back(s);
    // integer info
    QualType CT = T.getCanonicalType().getNonReferenceType().getUnqualifiedType();
    std::string iw;
    if (const auto* ET = CT->getAs<EnumType>()) {
      QualType U = ET->getDecl()->getIntegerType();
      iw = "e:" + usrOf(ET->getDecl());
      if (!U.isNull()) iw += std::string(U->isUnsignedIntegerType() ? ":u" : ":i") + std::to_string(Ctx.getTypeSize(U));
    } else if (CT->isBooleanType()) iw = "b";
    else if (CT->isIntegerType()) iw = std::string(CT->isUnsignedIntegerType() ? "u" : "i") + std::to_string(Ctx.getTypeSize(CT));
    else if (CT->isPointerType()) {
      iw = "p";
      if (const auto* RD = CT->getPointeeType()->getAsCXXRecordDecl()) iw += ":" + usrOf(RD);
    } else if (const auto* RD = CT->getAsCXXRecordDecl()) iw = "r:" + usrOf(RD);
    else if (CT->isFloatingType()) iw = "f" + std::to_string(Ctx.getTypeSize(CT));
    else if (CT->isVoidType()) iw = "v";
    typeInfo.push_back(iw);
    typeIdx[s] = id;
    return id;
  }

  std::string varId(const VarDecl* V) {
    if (!V->isLocalVarDeclOrParm() && !isa<ImplicitParamDecl>(V)) return "g:" + usrOf(V);
    if (V->isStaticLocal()) return "s:" + V->getNameAsString() + "@" + fileOf(V->getLocation()) + ":" + std::to_string(line(V->getLocation()));
    const VarDecl* C = V;
    SourceLocation L = C->getLocation();
    return C->getNameAsString() + "@" + std::to_string(line(L)) + ":" + std::to_string(col(L)) + (C->isImplicit() || SM.isMacroBodyExpansion(L) ? "i" : "");
  }

  // ---- nodes -------------------------------------------------------------------------------
  struct Fn {
    std::map<const Stmt*, int> ids;
    std::vector<json::Object> nodes;
    std::map<std::string, json::Object> vars;
    std::vector<std::pair<const LambdaExpr*, std::string>> lambdas;
  };
  Fn* cur = nullptr;

  static const Stmt* strip(const Stmt* S) {
    while (S) {
      if (auto* E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<FullExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else if (auto* E = dyn_cast<CXXRewrittenBinaryOperator>(S)) S = E->getSemanticForm();
      else if (auto* E = dyn_cast<CastExpr>(S)) {
        switch (E->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
          case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_ConstructorConversion: case CK_UserDefinedConversion:
          case CK_BuiltinFnToFnPtr:
            if (isa<CXXStaticCastExpr>(E) && E->getType()->isIntegerType() && E->getCastKind() == CK_NoOp && false) return S;
            S = E->getSubExpr();
            break;
          default:
            return S;
        }
      } else if (auto* E = dyn_cast<OpaqueValueExpr>(S)) {
        if (E->getSourceExpr()) S = E->getSourceExpr(); else return S;
      } else return S;
    }
    return S;
  }

  void regVar(const VarDecl* V) {
    std::string id = varId(V);
    if (!cur || cur->vars.count(id)) return;
    json::Object o;
    o["name"] = V->getNameAsString();
    o["ty"] = typeId(V->getType());
    const char* k = "local";
    if (isa<ParmVarDecl>(V)) k = "param";
    else if (V->isStaticLocal()) k = "static";
    else if (!V->isLocalVarDecl()) k = "global";
    o["k"] = k;
    if (V->getType()->isReferenceType()) o["ref"] = true;
    if (V->getType().getNonReferenceType().isConstQualified()) o["const"] = true;
    o["line"] = line(V->getLocation());
    cur->vars[id] = std::move(o);
  }

  int node(const Stmt* S0) {
    const Stmt* S = strip(S0);
    if (!S) return -1;
    auto it = cur->ids.find(S);
    if (it != cur->ids.end()) return it->second;
    int id = (int)cur->nodes.size();
    cur->ids[S] = id;
    cur->nodes.emplace_back();
    json::Object o = build(S);
    if (const auto* E = dyn_cast<Expr>(S)) {
      o["ty"] = typeId(E->getType());
      if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() && (E->getType()->isIntegralOrEnumerationType())) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> b;
          R.Val.getInt().toString(b, 10);
          o["cv"] = std::string(b);
        }
      } else if (const auto* DR = dyn_cast<DeclRefExpr>(E)) {
        if (const auto* V = dyn_cast<VarDecl>(DR->getDecl())) {
          if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent() ) {
            Expr::EvalResult R;
            if (V->getAnyInitializer()->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
              llvm::SmallString<32> b;
              R.Val.getInt().toString(b, 10);
              o["cv"] = std::string(b);
            }
          }
        }
      } else if (const auto* ME = dyn_cast<MemberExpr>(E)) {
        if (const auto* V = dyn_cast<VarDecl>(ME->getMemberDecl())) {
          if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent()) {
            Expr::EvalResult R;
            if (V->getAnyInitializer()->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
              llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); o["cv"] = std::string(b);
            }
          }
        }
      }
    }
    o["id"] = id;
    o["l"] = line(S->getBeginLoc());
    cur->nodes[id] = std::move(o);
    return id;
  }

  void calleeInfo(json::Object& o, const FunctionDecl* FD, bool isVirtualCall) {
    o["fn"] = usrOf(FD);
    o["nm"] = FD->getNameAsString();
    o["qn"] = FD->getQualifiedNameAsString();
    o["rty"] = typeId(FD->getReturnType());
    if (isVirtualCall) o["virt"] = true;
    if (FD->isNoReturn()) o["noret"] = true;
    if (FD->isVariadic()) o["variadic"] = true;
    noteDecl(FD);
    // parameter passing modes: v(alue) r(ef, non-const) c(onst ref) p(ointer non-const) q(const pointer) m(rvalue ref)
    std::string modes;
    for (const auto* P : FD->parameters()) {
      QualType T = P->getType();
      if (T->isRValueReferenceType()) modes += 'm';
      else if (T->isLValueReferenceType()) modes += T.getNonReferenceType().isConstQualified() ? 'c' : 'r';
      else if (T->isPointerType()) modes += T->getPointeeType().isConstQualified() ? 'q' : 'p';
      else modes += 'v';
    }
    o["pm"] = modes;
    if (const auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      if (M->isConst()) o["cm"] = true;
      if (M->isStatic()) o["stat"] = true;
      o["cls"] = usrOf(M->getParent());
      if (isa<CXXConstructorDecl>(M)) o["isctor"] = true;
    }
  }

  json::Array argNodes(llvm::ArrayRef<const Expr*> args) {
    json::Array a;
    for (const Expr* e : args) a.push_back(node(e));
    return a;
  }

  json::Object build(const Stmt* S) {
    json::Object o;
    if (const auto* E = dyn_cast<CXXOperatorCallExpr>(S)) {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(E->getOperator());
      const FunctionDecl* FD = E->getDirectCallee();
      std::vector<const Expr*> args(E->arg_begin(), E->arg_end());
      if (FD) {
        bool virt = false;
        if (const auto* M = dyn_cast<CXXMethodDecl>(FD)) {
          virt = M->isVirtual();
          if (!M->isStatic()) {
            o["obj"] = node(args[0]);
            args.erase(args.begin());
          }
        }
        calleeInfo(o, FD, virt);
      }
      o["args"] = argNodes(args);
    } else if (const auto* E = dyn_cast<CallExpr>(S)) {
      o["k"] = "call";
      const FunctionDecl* FD = E->getDirectCallee();
      const Expr* CE = E->getCallee()->IgnoreParenImpCasts();
      if (const auto* ME = dyn_cast<MemberExpr>(CE)) {
        bool virt = false;
        if (FD) if (const auto* M = dyn_cast<CXXMethodDecl>(FD)) virt = M->isVirtual() && !ME->hasQualifier();
        o["obj"] = node(ME->getBase());
        if (ME->isArrow()) o["arrow"] = true;
        if (FD) calleeInfo(o, FD, virt);
      } else if (FD) {
        calleeInfo(o, FD, false);
      } else {
        o["fp"] = node(E->getCallee());
      }
      std::vector<const Expr*> args(E->arg_begin(), E->arg_end());
      o["args"] = argNodes(args);
    } else if (const auto* E = dyn_cast<CXXConstructExpr>(S)) {
      o["k"] = "ctor";
      calleeInfo(o, E->getConstructor(), false);
      if (E->isElidable()) o["elide"] = true;
      if (E->requiresZeroInitialization()) o["zi"] = true;
      if (E->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      std::vector<const Expr*> args;
      for (const Expr* a : E->arguments()) args.push_back(a);
      o["args"] = argNodes(args);
    } else if (const auto* E = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
      o["k"] = "ctor";
      calleeInfo(o, E->getConstructor(), false);
      o["args"] = json::Array();
    } else if (const auto* E = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl* D = E->getDecl();
      if (const auto* V = dyn_cast<VarDecl>(D)) {
        o["k"] = "var";
        o["v"] = varId(V);
        o["nm"] = V->getNameAsString();
        regVar(V);
        if (E->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      } else if (const auto* F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "fnref";
        calleeInfo(o, F, false);
      } else if (const auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "enumc";
        o["nm"] = EC->getNameAsString();
        o["en"] = usrOf(cast<Decl>(EC->getDeclContext()));
      } else if (const auto* B = dyn_cast<BindingDecl>(D)) {
        o["k"] = "binding";
        o["nm"] = B->getNameAsString();
        o["v"] = "b:" + B->getNameAsString() + "@" + std::to_string(line(B->getLocation()));
        if (B->getHoldingVar()) o["hold"] = varId(B->getHoldingVar());
        if (const Expr* be = B->getBinding()) o["bind"] = node(be);
      } else {
        o["k"] = "ref";
        o["nm"] = D->getNameAsString();
      }
    } else if (const auto* E = dyn_cast<MemberExpr>(S)) {
      const ValueDecl* D = E->getMemberDecl();
      o["nm"] = D->getNameAsString();
      if (const auto* F = dyn_cast<FieldDecl>(D)) {
        o["k"] = "mem";
        o["f"] = usrOf(F);
        o["cls"] = usrOf(F->getParent());
        if (E->isArrow()) o["arrow"] = true;
        o["a"] = node(E->getBase());
      } else if (const auto* V = dyn_cast<VarDecl>(D)) {
        o["k"] = "var";
        o["v"] = varId(V);
        regVar(V);
      } else {
        o["k"] = "memfn";
        o["a"] = node(E->getBase());
        if (const auto* F = dyn_cast<FunctionDecl>(D)) o["fn"] = usrOf(F);
      }
    } else if (const auto* E = dyn_cast<CompoundAssignOperator>(S)) {
      o["k"] = "cassign";
      o["op"] = E->getOpcodeStr().str();
      o["a"] = node(E->getLHS());
      o["b"] = node(E->getRHS());
      o["cty"] = typeId(E->getComputationResultType());
    } else if (const auto* E = dyn_cast<BinaryOperator>(S)) {
      o["k"] = E->isAssignmentOp() ? "assign" : "bin";
      o["op"] = E->getOpcodeStr().str();
      o["a"] = node(E->getLHS());
      o["b"] = node(E->getRHS());
    } else if (const auto* E = dyn_cast<UnaryOperator>(S)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) o["post"] = true;
      o["a"] = node(E->getSubExpr());
    } else if (const auto* E = dyn_cast<AbstractConditionalOperator>(S)) {
      o["k"] = "cond";
      o["c"] = node(E->getCond());
      o["a"] = node(E->getTrueExpr());
      o["b"] = node(E->getFalseExpr());
    } else if (const auto* E = dyn_cast<IntegerLiteral>(S)) {
      o["k"] = "int";
    } else if (const auto* E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o["k"] = "int";
    } else if (const auto* E = dyn_cast<CharacterLiteral>(S)) {
      o["k"] = "int";
    } else if (const auto* E = dyn_cast<FloatingLiteral>(S)) {
      o["k"] = "float";
      o["fv"] = E->getValueAsApproximateDouble();
    } else if (const auto* E = dyn_cast<StringLiteral>(S)) {
      o["k"] = "str";
      if (E->getCharByteWidth() == 1) {
        std::string s = E->getString().str();
        o["s"] = json::isUTF8(s) ? s : json::fixUTF8(s);
      }
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      o["k"] = "null";
    } else if (isa<CXXThisExpr>(S)) {
      o["k"] = "this";
    } else if (const auto* E = dyn_cast<CastExpr>(S)) {
      o["k"] = "cast";
      o["ck"] = E->getCastKindName();
      if (isa<ExplicitCastExpr>(E)) o["expl"] = true;
      o["a"] = node(E->getSubExpr());
    } else if (const auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      o["k"] = "sizeof";
      o["sty"] = typeId(E->getTypeOfArgument());
    } else if (const auto* E = dyn_cast<ArraySubscriptExpr>(S)) {
      o["k"] = "index";
      o["a"] = node(E->getBase());
      o["b"] = node(E->getIdx());
    } else if (const auto* E = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      if (E->getRetValue()) o["a"] = node(E->getRetValue());
    } else if (const auto* E = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      json::Array ds;
      for (const Decl* D : E->decls()) {
        if (const auto* V = dyn_cast<VarDecl>(D)) {
          regVar(V);
          json::Object d;
          d["v"] = varId(V);
          d["nm"] = V->getNameAsString();
          d["ty"] = typeId(V->getType());
          if (V->getType()->isReferenceType()) d["ref"] = true;
          if (V->isStaticLocal()) d["static"] = true;
          if (V->getInit()) d["init"] = node(V->getInit());
          if (const auto* DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array bs;
            for (const auto* B : DD->bindings()) bs.push_back("b:" + B->getNameAsString() + "@" + std::to_string(line(B->getLocation())));
            d["bindings"] = std::move(bs);
          }
          ds.push_back(std::move(d));
        }
      }
      o["ds"] = std::move(ds);
    } else if (const auto* E = dyn_cast<LambdaExpr>(S)) {
      o["k"] = "lambda";
      const CXXMethodDecl* M = E->getCallOperator();
      o["fn"] = usrOf(M);
      o["lid"] = lambdaId(M);
      json::Array caps;
      auto ii = E->capture_init_begin();
      for (const auto& C : E->captures()) {
        json::Object c;
        if (C.capturesThis()) c["this"] = true;
        else if (C.capturesVariable()) {
          if (const auto* V = dyn_cast<VarDecl>(C.getCapturedVar())) { c["v"] = varId(V); regVar(V); }
          c["byref"] = C.getCaptureKind() == LCK_ByRef;
        }
        if (*ii && !C.capturesThis()) c["init"] = node(*ii);
        ++ii;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      cur->lambdas.push_back({E, lambdaId(M)});
    } else if (const auto* E = dyn_cast<CXXNewExpr>(S)) {
      o["k"] = "new";
      o["aty"] = typeId(E->getAllocatedType());
      if (E->isArray()) {
        o["arr"] = true;
        if (E->getArraySize() && *E->getArraySize()) o["n"] = node(*E->getArraySize());
      }
      if (E->getInitializer()) o["a"] = node(E->getInitializer());
      json::Array pa;
      for (unsigned i = 0; i < E->getNumPlacementArgs(); ++i) pa.push_back(node(E->getPlacementArg(i)));
      o["pl"] = std::move(pa);
    } else if (const auto* E = dyn_cast<CXXDeleteExpr>(S)) {
      o["k"] = "delete";
      o["a"] = node(E->getArgument());
      if (E->isArrayForm()) o["arr"] = true;
    } else if (const auto* E = dyn_cast<CXXThrowExpr>(S)) {
      o["k"] = "throw";
      if (E->getSubExpr()) o["a"] = node(E->getSubExpr());
    } else if (const auto* E = dyn_cast<InitListExpr>(S)) {
      o["k"] = "initlist";
      json::Array a;
      const InitListExpr* IL = E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E);
      unsigned n = std::min(IL->getNumInits(), 256u);
      for (unsigned i = 0; i < n; ++i) a.push_back(node(IL->getInit(i)));
      o["args"] = std::move(a);
    } else if (const auto* E = dyn_cast<CXXStdInitializerListExpr>(S)) {
      o["k"] = "initlist";
      json::Array a;
      a.push_back(node(E->getSubExpr()));
      o["args"] = std::move(a);
    } else if (const auto* E = dyn_cast<CXXDefaultArgExpr>(S)) {
      o["k"] = "defarg";
      o["a"] = node(E->getExpr());
    } else if (const auto* E = dyn_cast<CXXDefaultInitExpr>(S)) {
      o["k"] = "definit";
      o["a"] = node(E->getExpr());
    } else if (isa<CXXScalarValueInitExpr>(S) || isa<ImplicitValueInitExpr>(S)) {
      o["k"] = "zero";
    } else if (const auto* E = dyn_cast<PredefinedExpr>(S)) {
      o["k"] = "str";
      (void)E;
    } else if (const auto* E = dyn_cast<PseudoObjectExpr>(S)) {
      o["k"] = "pseudo";
      (void)E;
    } else {
      o["k"] = std::string("?") + S->getStmtClassName();
      json::Array a;
      for (const Stmt* c : S->children()) if (c && isa<Expr>(c)) a.push_back(node(c));
      o["args"] = std::move(a);
    }
    return o;
  }

  std::string lambdaId(const CXXMethodDecl* M) {
    SourceLocation L = M->getParent()->getLocation();
    return "lambda@" + fileOf(L) + ":" + std::to_string(line(L)) + ":" + std::to_string(col(L)) + (curKey.empty() ? "" : ("|" + curKey));
  }
  std::string curKey;

  // ---- functions -------------------------------------------------------------------------
  void dumpFunction(const FunctionDecl* FD, const std::string& forcedId = "", const std::string& parent = "") {
    std::string usr = forcedId.empty() ? usrOf(FD) : forcedId;
    if (usr.empty()) return;
    if (!done.insert(usr).second) return;
    const Stmt* Body = FD->getBody();
    if (!Body) return;
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = true;
    BO.AddInitializers = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddCXXDefaultInitExprInAggregates = false;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = true;
    std::unique_ptr<CFG> cfg = CFG::buildCFG(FD, const_cast<Stmt*>(Body), &Ctx, BO);
    Fn fn;
    Fn* saved = cur;
    cur = &fn;
    std::string savedKey = curKey;
    curKey = usr.size() > 60 && forcedId.empty() ? usr : usr;

    json::Object F;
    F["usr"] = usr;
    F["nm"] = FD->getNameAsString();
    F["qn"] = FD->getQualifiedNameAsString();
    F["file"] = fileOf(FD->getLocation());
    F["line"] = line(FD->getBeginLoc());
    F["eline"] = line(FD->getEndLoc());
    F["rty"] = typeId(FD->getReturnType());
    if (!parent.empty()) F["parent"] = parent;
    if (FD->isTemplateInstantiation()) {
      if (const FunctionDecl* P = FD->getTemplateInstantiationPattern()) F["pat"] = usrOf(P);
    }
    json::Array ps;
    for (const ParmVarDecl* P : FD->parameters()) {
      regVar(P);
      json::Object p;
      p["v"] = varId(P);
      p["nm"] = P->getNameAsString();
      p["ty"] = typeId(P->getType());
      ps.push_back(std::move(p));
    }
    F["params"] = std::move(ps);
    if (const auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      F["cls"] = usrOf(M->getParent());
      F["clsn"] = M->getParent()->getQualifiedNameAsString();
      if (M->isConst()) F["cm"] = true;
      if (M->isStatic()) F["stat"] = true;
      if (M->isVirtual()) F["virt"] = true;
      json::Array ov;
      collectOverrides(M, ov);
      F["ov"] = std::move(ov);
      if (const auto* C = dyn_cast<CXXConstructorDecl>(M)) {
        F["ctor"] = C->isCopyConstructor() ? "copy" : C->isMoveConstructor() ? "move" : "ctor";
      }
      if (isa<CXXDestructorDecl>(M)) F["dtor"] = true;
      F["acc"] = (int)M->getAccess();
    }
    if (FD->isDefaulted()) F["defaulted"] = true;
    if (FD->isImplicit()) F["implicit"] = true;

    json::Array blocks;
    if (cfg) {
      for (const CFGBlock* B : *cfg) {
        json::Object b;
        b["id"] = (int)B->getBlockID();
        json::Array els;
        for (const CFGElement& El : *B) {
          if (auto S = El.getAs<CFGStmt>()) {
            const Stmt* st = S->getStmt();
            const Stmt* s2 = strip(st);
            int id = node(st);
            if (id < 0) continue;
            // transparent nodes map to their child: only list once, at the child's own position
            if (s2 != st) continue;
            els.push_back(id);
          } else if (auto D = El.getAs<CFGAutomaticObjDtor>()) {
            json::Object d;
            d["k"] = "dtor";
            d["v"] = varId(D->getVarDecl());
            d["ty"] = typeId(D->getVarDecl()->getType());
            if (const CXXDestructorDecl* DD = D->getDestructorDecl(Ctx)) { d["fn"] = usrOf(DD); noteDecl(DD); }
            els.push_back(std::move(d));
          } else if (auto D = El.getAs<CFGTemporaryDtor>()) {
            json::Object d;
            d["k"] = "tdtor";
            d["tmp"] = node(D->getBindTemporaryExpr());
            if (const CXXDestructorDecl* DD = D->getDestructorDecl(Ctx)) { d["fn"] = usrOf(DD); noteDecl(DD); }
            els.push_back(std::move(d));
          } else if (auto I = El.getAs<CFGInitializer>()) {
            const CXXCtorInitializer* CI = I->getInitializer();
            json::Object d;
            d["k"] = "init";
            if (CI->isAnyMemberInitializer()) {
              d["f"] = usrOf(CI->getAnyMember());
              d["nm"] = CI->getAnyMember()->getNameAsString();
            } else if (CI->isBaseInitializer()) {
              d["base"] = typeId(QualType(CI->getBaseClass(), 0));
            } else if (CI->isDelegatingInitializer()) d["deleg"] = true;
            if (CI->getInit()) d["a"] = node(CI->getInit());
            d["written"] = CI->isWritten();
            els.push_back(std::move(d));
          } else if (auto D = El.getAs<CFGMemberDtor>()) {
            json::Object d;
            d["k"] = "mdtor";
            d["f"] = usrOf(D->getFieldDecl());
            d["nm"] = D->getFieldDecl()->getNameAsString();
            if (const CXXDestructorDecl* DD = D->getDestructorDecl(Ctx)) d["fn"] = usrOf(DD);
            els.push_back(std::move(d));
          } else if (auto D = El.getAs<CFGBaseDtor>()) {
            json::Object d;
            d["k"] = "bdtor";
            if (const CXXDestructorDecl* DD = D->getDestructorDecl(Ctx)) d["fn"] = usrOf(DD);
            els.push_back(std::move(d));
          }
        }
        b["e"] = std::move(els);
        // terminator
        const CFGTerminator T = B->getTerminator();
        if (const Stmt* TS = T.getStmt()) {
          const char* kind = "?";
          if (T.isTemporaryDtorsBranch()) kind = "tmpdtor";
          else if (isa<IfStmt>(TS)) kind = "if";
          else if (isa<WhileStmt>(TS)) kind = "while";
          else if (isa<ForStmt>(TS)) kind = "for";
          else if (isa<CXXForRangeStmt>(TS)) kind = "forrange";
          else if (isa<DoStmt>(TS)) kind = "do";
          else if (isa<SwitchStmt>(TS)) kind = "switch";
          else if (auto* BO = dyn_cast<BinaryOperator>(TS)) kind = BO->getOpcode() == BO_LAnd ? "&&" : "||";
          else if (isa<AbstractConditionalOperator>(TS)) kind = "?:";
          else if (isa<BreakStmt>(TS)) kind = "break";
          else if (isa<ContinueStmt>(TS)) kind = "continue";
          else if (isa<GotoStmt>(TS)) kind = "goto";
          b["tk"] = kind;
          b["tl"] = line(TS->getBeginLoc());
          if (!T.isTemporaryDtorsBranch()) if (const Stmt* C = B->getTerminatorCondition(false)) b["c"] = node(C);
          if (const auto* SS = dyn_cast<SwitchStmt>(TS)) if (SS->isAllEnumCasesCovered()) b["allenum"] = true;
        }
        json::Array ss;
        for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
          const CFGBlock* R = I->getReachableBlock();
          const CFGBlock* P = I->getPossiblyUnreachableBlock();
          if (R) ss.push_back((int)R->getBlockID());
          else if (P) ss.push_back(-(int)P->getBlockID() - 2);
          else ss.push_back(nullptr);
        }
        b["s"] = std::move(ss);
        if (B->hasNoReturnElement()) b["noret"] = true;
        if (const Stmt* L = B->getLabel()) {
          if (const auto* CS = dyn_cast<CaseStmt>(L)) {
            json::Array cvs;
            // fallthrough chains of labels without statements share blocks? each case gets its own block in clang
            Expr::EvalResult R;
            if (!CS->getLHS()->isValueDependent() && CS->getLHS()->EvaluateAsInt(R, Ctx)) {
              llvm::SmallString<32> sb; R.Val.getInt().toString(sb, 10);
              cvs.push_back(std::string(sb));
            }
            const Expr* lhs = CS->getLHS()->IgnoreParenImpCasts();
            if (auto* CE = dyn_cast<ConstantExpr>(lhs)) lhs = CE->getSubExpr()->IgnoreParenImpCasts();
            if (auto* DR = dyn_cast<DeclRefExpr>(lhs)) b["casename"] = DR->getDecl()->getNameAsString();
            b["case"] = std::move(cvs);
          } else if (isa<DefaultStmt>(L)) b["default"] = true;
          else if (isa<CXXCatchStmt>(L)) b["catch"] = true;
        }
        if (const Stmt* LT = B->getLoopTarget()) { (void)LT; b["looptarget"] = true; }
        blocks.push_back(std::move(b));
      }
      F["entry"] = (int)cfg->getEntry().getBlockID();
      F["exit"] = (int)cfg->getExit().getBlockID();
    } else {
      F["nocfg"] = true;
    }
    F["blocks"] = std::move(blocks);
    if (Body) {
      json::Array tries;
      collectTries(Body, tries);
      if (!tries.empty()) F["tries"] = std::move(tries);
    }
    if (const auto* FPT = FD->getType()->getAs<FunctionProtoType>()) {
      if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow() && !isa<CXXDestructorDecl>(FD)) F["noexcept"] = true;
    }
    json::Array ns;
    for (auto& n : fn.nodes) ns.push_back(std::move(n));
    F["nodes"] = std::move(ns);
    json::Object vs;
    for (auto& v : fn.vars) vs[v.first] = std::move(v.second);
    F["vars"] = std::move(vs);
    J.value(std::move(F));
    auto lams = fn.lambdas;
    cur = saved;
    for (auto& L : lams) dumpFunction(L.first->getCallOperator(), L.second, usr);
    curKey = savedKey;
  }

  // the nodes in each try block, and what's caught
  void tryIds(const Stmt* S, json::Array& out) {
    if (!S || isa<LambdaExpr>(S)) return;
    auto it = cur->ids.find(S);
    if (it != cur->ids.end()) out.push_back(it->second);
    for (const Stmt* C : S->children()) tryIds(C, out);
  }
  void collectTries(const Stmt* S, json::Array& tries) {
    if (!S || isa<LambdaExpr>(S)) return;
    if (const auto* T = dyn_cast<CXXTryStmt>(S)) {
      json::Object o;
      o["l"] = line(T->getBeginLoc());
      json::Array ids, hs;
      tryIds(T->getTryBlock(), ids);
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        const CXXCatchStmt* H = T->getHandler(i);
        QualType Q = H->getCaughtType();
        if (Q.isNull()) hs.push_back("...");
        else hs.push_back(Q.getNonReferenceType().getUnqualifiedType().getCanonicalType().getAsString(PP));
      }
      o["ids"] = std::move(ids);
      o["h"] = std::move(hs);
      tries.push_back(std::move(o));
    }
    for (const Stmt* C : S->children()) collectTries(C, tries);
  }

  void collectOverrides(const CXXMethodDecl* M, json::Array& ov) {
    for (const CXXMethodDecl* O : M->overridden_methods()) {
      ov.push_back(usrOf(O));
      collectOverrides(O, ov);
    }
  }

  void noteDecl(const FunctionDecl* FD) {
    if (!inRepo(FD->getLocation())) return;
    std::string u = usrOf(FD);
    if (u.empty() || decls.count(u)) return;
    json::Object d;
    d["qn"] = FD->getQualifiedNameAsString();
    d["file"] = fileOf(FD->getLocation());
    d["line"] = line(FD->getLocation());
    d["rty"] = typeId(FD->getReturnType());
    if (const auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      d["cls"] = usrOf(M->getParent());
      if (M->isVirtual()) d["virt"] = true;
      if (M->isPureVirtual()) d["pure"] = true;
      json::Array ov;
      collectOverrides(M, ov);
      d["ov"] = std::move(ov);
    }
    decls[u] = std::move(d);
  }

  void dumpRecord(const CXXRecordDecl* RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentType() || RD->isLambda() || !inRepo(RD->getLocation())) return;
    std::string u = usrOf(RD);
    if (u.empty() || records.count(u)) return;
    json::Object r;
    r["qn"] = RD->getQualifiedNameAsString();
    r["file"] = fileOf(RD->getLocation());
    r["line"] = line(RD->getLocation());
    r["poly"] = RD->isPolymorphic();
    bool inv = RD->isInvalidDecl();
    const ASTRecordLayout* L = inv ? nullptr : &Ctx.getASTRecordLayout(RD);
    if (L) {
      r["size"] = (int64_t)L->getSize().getQuantity();
      r["align"] = (int64_t)L->getAlignment().getQuantity();
    }
    r["packed"] = RD->hasAttr<PackedAttr>() || RD->hasAttr<MaxFieldAlignmentAttr>();
    json::Array fs;
    for (const FieldDecl* F : RD->fields()) {
      json::Object f;
      f["usr"] = usrOf(F);
      f["nm"] = F->getNameAsString();
      f["ty"] = typeId(F->getType());
      if (L) f["off"] = (int64_t)(L->getFieldOffset(F->getFieldIndex()) / 8);
      if (!F->getType()->isDependentType() && !F->getType()->isIncompleteType()) f["size"] = (int64_t)Ctx.getTypeSizeInChars(F->getType()).getQuantity();
      if (F->hasInClassInitializer()) f["init"] = true;
      f["line"] = line(F->getLocation());
      f["acc"] = (int)F->getAccess();
      if (F->isMutable()) f["mut"] = true;
      if (F->getType().isConstQualified()) f["const"] = true;
      fs.push_back(std::move(f));
    }
    r["fields"] = std::move(fs);
    json::Array bs;
    for (const auto& B : RD->bases()) {
      if (const auto* BD = B.getType()->getAsCXXRecordDecl()) bs.push_back(usrOf(BD));
    }
    r["bases"] = std::move(bs);
    json::Array ms;
    for (const CXXMethodDecl* M : RD->methods()) {
      json::Object m;
      m["usr"] = usrOf(M);
      m["nm"] = M->getNameAsString();
      if (M->isImplicit()) m["implicit"] = true;
      if (M->isDefaulted()) m["defaulted"] = true;
      if (M->isDeleted()) m["deleted"] = true;
      if (M->isPureVirtual()) m["pure"] = true;
      if (M->isVirtual()) m["virt"] = true;
      if (M->isConst()) m["cm"] = true;
      m["acc"] = (int)M->getAccess();
      m["rty"] = typeId(M->getReturnType());
      json::Array ov;
      collectOverrides(M, ov);
      m["ov"] = std::move(ov);
      m["line"] = line(M->getLocation());
      ms.push_back(std::move(m));
    }
    r["methods"] = std::move(ms);
    r["abstract"] = RD->isAbstract();
    records[u] = std::move(r);
  }

  void dumpEnum(const EnumDecl* ED) {
    if (!ED->isThisDeclarationADefinition() || !inRepo(ED->getLocation()) || ED->isDependentType()) return;
    std::string u = usrOf(ED);
    if (u.empty() || enums.count(u)) return;
    json::Object e;
    e["qn"] = ED->getQualifiedNameAsString();
    e["file"] = fileOf(ED->getLocation());
    e["line"] = line(ED->getLocation());
    e["uty"] = typeId(ED->getIntegerType());
    json::Array cs;
    for (const EnumConstantDecl* C : ED->enumerators()) {
      llvm::SmallString<32> b;
      C->getInitVal().toString(b, 10);
      cs.push_back(json::Array{C->getNameAsString(), std::string(b)});
    }
    e["c"] = std::move(cs);
    enums[u] = std::move(e);
  }

  void dumpGlobal(const VarDecl* V) {
    if (!inRepo(V->getLocation()) || V->isLocalVarDeclOrParm()) return;
    if (V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) return;
    std::string u = usrOf(V);
    if (u.empty()) return;
    if (globals.count(u) && !V->getInit()) return;
    json::Object g;
    g["qn"] = V->getQualifiedNameAsString();
    g["file"] = fileOf(V->getLocation());
    g["line"] = line(V->getLocation());
    g["ty"] = typeId(V->getType());
    if (const Expr* I = V->getAnyInitializer()) {
      if (!I->isValueDependent() && V->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (I->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); g["cv"] = std::string(b);
        }
      }
      Fn fn;
      Fn* saved = cur;
      cur = &fn;
      g["init"] = node(I);
      json::Array ns;
      for (auto& n : fn.nodes) ns.push_back(std::move(n));
      g["nodes"] = std::move(ns);
      cur = saved;
    }
    globals[u] = std::move(g);
  }

  // literal tables that live in fields of function-local constants etc. are reached through nodes

  void finish() {
    J.attributeObject("decls", [&] { for (auto& d : decls) J.attribute(d.first, std::move(d.second)); });
    J.attributeObject("records", [&] { for (auto& d : records) J.attribute(d.first, std::move(d.second)); });
    J.attributeObject("enums", [&] { for (auto& d : enums) J.attribute(d.first, std::move(d.second)); });
    J.attributeObject("globals", [&] { for (auto& d : globals) J.attribute(d.first, std::move(d.second)); });
    J.attributeArray("types", [&] { for (auto& t : types) J.value(t); });
    J.attributeArray("tinfo", [&] { for (auto& t : typeInfo) J.value(t); });
  }

  ASTContext& Ctx;
  SourceManager& SM;
  json::OStream& J;
  PrintingPolicy PP;
  std::map<FileID, std::string> fileNames;
  std::vector<std::string> types, typeInfo;
  std::map<std::string, int> typeIdx;
  std::set<std::string> done;
  std::map<std::string, json::Object> decls, records, enums, globals;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(Dumper& D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* FD) {
    if (!FD->isThisDeclarationADefinition() || !FD->hasBody() || FD->isDependentContext()) return true;
    if (!D.inRepo(FD->getLocation())) return true;
    if (const auto* M = dyn_cast<CXXMethodDecl>(FD)) if (M->getParent()->isLambda()) return true;
    fns.push_back(FD);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* RD) { D.dumpRecord(RD); return true; }
  bool VisitEnumDecl(EnumDecl* ED) { D.dumpEnum(ED); return true; }
  bool VisitVarDecl(VarDecl* V) { globs.push_back(V); return true; }
  Dumper& D;
  std::vector<FunctionDecl*> fns;
  std::vector<VarDecl*> globs;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& Ctx) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutDir, EC);
    json::OStream J(OS);
    Dumper D(Ctx, J);
    Visitor V(D);
    J.objectBegin();
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    J.attributeArray("functions", [&] { for (auto* f : V.fns) D.dumpFunction(f); });
    for (auto* g : V.globs) D.dumpGlobal(g);
    D.finish();
    J.objectEnd();
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    CI.getDiagnostics().setSuppressAllDiagnostics(false);
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char** argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
