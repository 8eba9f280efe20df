// Fact extractor: parses translation units of the repository with the real build's flags and emits,
// for every function whose body lies under the source root, a control-flow graph whose blocks list the
// "eventful" sub-expressions (calls, constructions, assignments, throws, returns, ...) in evaluation
// order, as resolved expression trees.  Output: one JSON object per line.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMap.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/Version.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/JSONCompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Path.h"
#include <set>
#include <map>
#include <string>

using namespace clang;

static std::string Root = "/repo";
static llvm::raw_ostream *OUT = nullptr;
static std::set<std::string> Seen;     // function keys already written by this process
static std::string CurTU;

static std::string jstr(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    case '\r': o += "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += c;
    }
  }
  return o + "\"";
}

// qualified name with template arguments stripped
static std::string qname(const NamedDecl *D) {
  if (!D) return "?";
  std::string nm;
  if (auto *FD = dyn_cast<FunctionDecl>(D)) {
    if (isa<CXXConstructorDecl>(FD)) nm = "(ctor)";
    else if (isa<CXXDestructorDecl>(FD)) nm = "(dtor)";
    else if (auto *CD = dyn_cast<CXXConversionDecl>(FD)) {
      nm = "operator(conv)"; (void)CD;
    }
    else nm = FD->getDeclName().getAsString();
  } else nm = D->getDeclName().getAsString();
  if (nm.empty()) nm = "(anon)";
  std::string out = nm;
  const DeclContext *DC = D->getDeclContext();
  while (DC) {
    if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
      if (!NS->isAnonymousNamespace() && !NS->isInline()) out = NS->getNameAsString() + "::" + out;
    } else if (auto *RD = dyn_cast<TagDecl>(DC)) {
      std::string rn = RD->getNameAsString();
      if (rn.empty()) {
        if (auto *TD = RD->getTypedefNameForAnonDecl()) rn = TD->getNameAsString();
        else rn = "(anon)";
      }
      out = rn + "::" + out;
    } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
      out = qname(FD) + "::" + out; return out;
    }
    DC = DC->getParent();
  }
  return out;
}

struct Dumper;

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  ASTContext &C;
  SourceManager &SM;
  Visitor(ASTContext &C) : C(C), SM(C.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool inRoot(SourceLocation L, std::string &file, unsigned &line) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return false;
    llvm::SmallString<256> p(P.getFilename());
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      auto real = FE->getFileEntry().tryGetRealPathName();
      if (!real.empty()) p = real;
    }
    llvm::sys::path::remove_dots(p, true);
    if (!llvm::StringRef(p).starts_with(Root + "/")) return false;
    llvm::StringRef rel = llvm::StringRef(p).substr(Root.size() + 1);
    if (rel.starts_with("build/")) return false;
    file = rel.str(); line = P.getLine();
    return true;
  }
  unsigned lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getPresumedLoc(SM.getExpansionLoc(L), false).getLine();
  }
  std::string typeStr(QualType T) {
    if (T.isNull()) return "?";
    PrintingPolicy P(C.getLangOpts());
    P.SuppressTagKeyword = true; P.FullyQualifiedName = true; P.Bool = true;
    return T.getCanonicalType().getAsString(P);
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext()) return true;
    std::string f; unsigned l;
    if (!inRoot(RD->getLocation(), f, l)) return true;
    std::string qn = qname(RD);
    std::string key = "C:" + qn + ":" + f + ":" + std::to_string(l);
    if (!Seen.insert(key).second) return true;
    llvm::raw_ostream &O = *OUT;
    O << "{\"k\":\"class\",\"q\":" << jstr(qn) << ",\"f\":" << jstr(f) << ",\"l\":" << l << ",\"bases\":[";
    bool first = true;
    for (auto &B : RD->bases()) {
      if (auto *BD = B.getType()->getAsCXXRecordDecl()) {
        if (!first) O << ","; first = false;
        O << jstr(qname(BD));
      }
    }
    O << "],\"fields\":[";
    first = true;
    bool lay = RD->isCompleteDefinition() && !RD->isInvalidDecl();
    for (auto *F : RD->fields()) {
      if (!first) O << ","; first = false;
      O << "[" << jstr(F->getNameAsString()) << "," << jstr(typeStr(F->getType())) << "," << (F->isMutable() ? 1 : 0)
        << "," << (int)F->getAccess() << "," << (F->hasInClassInitializer()?1:0)
        << "," << (lay ? (long)(C.getASTRecordLayout(RD).getFieldOffset(F->getFieldIndex())/8) : -1L) << "]";
    }
    O << "],\"size\":" << (lay ? (long)C.getASTRecordLayout(RD).getSize().getQuantity() : -1L) << ",\"statics\":[";
    first = true;
    for (auto *D : RD->decls())
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (!first) O << ","; first = false;
        O << "[" << jstr(V->getNameAsString()) << "," << jstr(typeStr(V->getType())) << "]";
      }
    O << "],\"methods\":[";
    first = true;
    for (auto *M : RD->methods()) {
      if (M->isImplicit()) continue;
      if (!first) O << ","; first = false;
      O << "{\"n\":" << jstr(qname(M)) << ",\"virt\":" << (M->isVirtual() ? 1 : 0) << ",\"pure\":" << (M->isPureVirtual() ? 1 : 0)
        << ",\"static\":" << (M->isStatic() ? 1 : 0) << ",\"const\":" << (M->isConst() ? 1 : 0)
        << ",\"acc\":" << (int)M->getAccess() << ",\"del\":" << (M->isDeleted()?1:0) << ",\"sig\":" << jstr(typeStr(M->getType())) << ",\"over\":[";
      bool f2 = true;
      for (auto *OM : M->overridden_methods()) {
        if (!f2) O << ","; f2 = false;
        O << jstr(qname(OM));
      }
      O << "]}";
    }
    O << "]}\n";
    return true;
  }

  bool VisitEnumDecl(EnumDecl *ED) {
    std::string f; unsigned l;
    if (!ED->isThisDeclarationADefinition() || !inRoot(ED->getLocation(), f, l)) return true;
    std::string qn = qname(ED);
    std::string key = "E:" + qn + ":" + f + ":" + std::to_string(l);
    if (!Seen.insert(key).second) return true;
    *OUT << "{\"k\":\"enum\",\"q\":" << jstr(qn) << ",\"f\":" << jstr(f) << ",\"l\":" << l << ",\"vals\":[";
    bool first = true;
    for (auto *E : ED->enumerators()) {
      if (!first) *OUT << ","; first = false;
      llvm::SmallString<32> s; E->getInitVal().toString(s, 10);
      *OUT << "[" << jstr(qname(E)) << "," << s << "]";
    }
    *OUT << "]}\n";
    return true;
  }

  bool VisitVarDecl(VarDecl *VD) {
    // namespace-scope / static-member variables with initialisers
    if (!VD->hasGlobalStorage() || VD->isLocalVarDecl() || isa<ParmVarDecl>(VD)) return true;
    if (VD->getDeclContext()->isDependentContext()) return true;
    std::string f; unsigned l;
    if (!inRoot(VD->getLocation(), f, l)) return true;
    std::string key = "V:" + qname(VD) + ":" + f + ":" + std::to_string(l);
    if (!Seen.insert(key).second) return true;
    emitGlobal(VD, f, l);
    return true;
  }
  void emitGlobal(VarDecl *VD, const std::string &f, unsigned l);

  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() || FD->isDependentContext()) return true;
    if (FD->isImplicit() || FD->isDefaulted()) return true;
    process(FD, "");
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *LE) {
    if (LE->getCallOperator() && !LE->getCallOperator()->isDependentContext() && LE->getCallOperator()->hasBody())
      process(LE->getCallOperator(), "");
    return true;
  }
  void process(FunctionDecl *FD, const std::string &);
};

// ---- expression dumper ---------------------------------------------------------------------------
struct Dumper {
  Visitor &V;
  ASTContext &C;
  llvm::DenseMap<const Stmt *, int> Uid;          // eventful elements
  llvm::DenseMap<const ValueDecl *, std::string> Vars;
  std::map<std::string, int> NameCount;
  int depth = 0;
  Dumper(Visitor &V) : V(V), C(V.C) {}

  std::string varName(const ValueDecl *D) {
    auto it = Vars.find(D);
    if (it != Vars.end()) return it->second;
    std::string n = D->getNameAsString();
    if (n.empty()) n = "_";
    int k = NameCount[n]++;
    std::string r = k ? n + "#" + std::to_string(k) : n;
    Vars[D] = r;
    return r;
  }

  static const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        if (X->getCastKind() == CK_UserDefinedConversion || X->getCastKind() == CK_ConstructorConversion) { E = X->getSubExpr(); continue; }
        E = X->getSubExpr();
      } else if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { if (X->getExpr()) E = X->getExpr(); else return E; }
      else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
        // elidable copies: look through
        if (X->isElidable() && X->getNumArgs() >= 1) E = X->getArg(0); else return E;
      }
      else return E;
    }
  }

  static bool eventful(const Stmt *S) {
    if (isa<CallExpr>(S)) {
      return true;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(S)) { return !X->isElidable(); }
    if (isa<CXXThrowExpr>(S) || isa<ReturnStmt>(S) || isa<CXXNewExpr>(S) || isa<CXXDeleteExpr>(S) || isa<DeclStmt>(S)) return true;
    if (auto *B = dyn_cast<BinaryOperator>(S)) return B->isAssignmentOp();
    if (auto *U = dyn_cast<UnaryOperator>(S)) return U->isIncrementDecrementOp();
    return false;
  }

  std::string args(llvm::ArrayRef<const Expr *> A) {
    std::string o = "[";
    bool f = true;
    for (auto *E : A) { if (!f) o += ","; f = false; o += ex(E); }
    return o + "]";
  }

  // reference to an expression: an eventful element that occurs in the CFG is a ["ref",uid]
  std::string ex(const Expr *E0) {
    if (!E0) return "null";
    const Expr *E = strip(E0);
    auto it = Uid.find(E);
    if (it != Uid.end()) return "[\"ref\"," + std::to_string(it->second) + "]";
    if (depth > 60) return "[\"deep\"]";
    depth++;
    std::string r = full(E);
    depth--;
    return r;
  }

  std::string lit(const llvm::APSInt &v) {
    llvm::SmallString<32> s; v.toString(s, 10);
    return "[\"lit\"," + std::string(s.str()) + "]";
  }

  std::string full(const Expr *E) {
    // integer constants
    if (auto *X = dyn_cast<IntegerLiteral>(E)) return lit(llvm::APSInt(X->getValue(), !X->getType()->isSignedIntegerOrEnumerationType()));
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) return std::string("[\"lit\",") + (X->getValue() ? "1" : "0") + ",\"b\"]";
    if (auto *X = dyn_cast<CharacterLiteral>(E)) return "[\"lit\"," + std::to_string(X->getValue()) + "]";
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return "[\"lit\",0,\"p\"]";
    if (auto *X = dyn_cast<StringLiteral>(E)) return "[\"str\"," + jstr(X->getCharByteWidth() == 1 ? X->getString() : llvm::StringRef("?")) + "]";
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { llvm::SmallString<32> s; X->getValue().toString(s); return "[\"flt\"," + jstr(s) + "]"; }
    if (isa<CXXThisExpr>(E)) return "[\"this\"]";
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
        return "[\"enum\"," + jstr(qname(EC)) + "," + std::string(s.str()) + "]";
      }
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (VD->isLocalVarDeclOrParm()) return "[\"v\"," + jstr(varName(VD)) + (VD->isStaticLocal() ? ",\"s\"" : "") + "]";
        std::string val;
        if (VD->getType().isConstQualified() && VD->getType()->isIntegralOrEnumerationType() && !VD->isWeak()) {
          Expr::EvalResult R;
          if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); val = "," + std::string(s.str()); }
        }
        return "[\"g\"," + jstr(qname(VD)) + val + "]";
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) return "[\"fn\"," + jstr(qname(F)) + "]";
      if (isa<BindingDecl>(D)) return "[\"v\"," + jstr(varName(D)) + "]";
      return "[\"g\"," + jstr(qname(D)) + "]";
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
        return "[\"enum\"," + jstr(qname(EC)) + "," + std::string(s.str()) + "]";
      }
      if (isa<VarDecl>(D)) return "[\"g\"," + jstr(qname(D)) + "]";
      return "[\"m\"," + ex(X->getBase()) + "," + jstr(qname(D)) + (X->isArrow() ? ",1]" : "]");
    }
    if (auto *X = dyn_cast<CallExpr>(E)) return call(X);
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      llvm::SmallVector<const Expr *, 8> A(X->arg_begin(), X->arg_end());
      std::string t = typeStr1(X->getType());
      return "[\"ctor\"," + jstr(qname(X->getConstructor())) + "," + args(A) + "," + jstr(t) + "]";
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return "[\"ctor\"," + jstr(qname(X->getConstructor())) + ",[],\"\"]";
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) return "[\"asg\"," + jstr(X->getOpcodeStr()) + "," + ex(X->getLHS()) + "," + ex(X->getRHS()) + "]";
      Expr::EvalResult R;
      if (!E->isValueDependent() && X->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) return lit(R.Val.getInt());
      return "[\"bin\"," + jstr(X->getOpcodeStr()) + "," + ex(X->getLHS()) + "," + ex(X->getRHS()) + "]";
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Expr::EvalResult R;
      if (!X->isIncrementDecrementOp() && !E->isValueDependent() && X->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) return lit(R.Val.getInt());
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      return "[\"un\"," + jstr(op) + "," + ex(X->getSubExpr()) + "]";
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) return "[\"cond\"," + ex(X->getCond()) + "," + ex(X->getTrueExpr()) + "," + ex(X->getFalseExpr()) + "]";
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return X->getSourceExpr() ? ex(X->getSourceExpr()) : "[\"opq\"]";
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) return "[\"idx\"," + ex(X->getBase()) + "," + ex(X->getIdx()) + "]";
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      Expr::EvalResult R;
      if (!E->isValueDependent() && X->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) return lit(R.Val.getInt());
      const char *k = isa<CXXConstCastExpr>(X) ? "const" : isa<CXXDynamicCastExpr>(X) ? "dynamic" : isa<CXXReinterpretCastExpr>(X) ? "reinterpret" : isa<CXXStaticCastExpr>(X) ? "static" : "c";
      return std::string("[\"cast\",\"") + k + "\"," + jstr(typeStr1(X->getTypeAsWritten())) + "," + ex(X->getSubExpr()) + "," + jstr(typeStr1(X->getSubExpr()->getType())) + "]";
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      std::string s = "[\"new\"," + jstr(typeStr1(X->getAllocatedType()));
      s += ",";
      s += X->getConstructExpr() ? ex(X->getConstructExpr()) : (X->hasInitializer() && X->getInitializer() ? ex(X->getInitializer()) : "null");
      s += ",";
      s += X->isArray() && X->getArraySize() && *X->getArraySize() ? ex(*X->getArraySize()) : "null";
      if (X->getNumPlacementArgs()) s += ",1";
      return s + "]";
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) return "[\"del\"," + ex(X->getArgument()) + (X->isArrayForm() ? ",1]" : "]");
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) return "[\"throw\"," + (X->getSubExpr() ? ex(X->getSubExpr()) : std::string("null")) + "]";
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      std::string val = "null";
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); val = s.str(); }
      return "[\"sizeof\"," + jstr(typeStr1(X->getTypeOfArgument())) + "," + val + "]";
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      llvm::SmallVector<const Expr *, 8> A;
      unsigned n = 0;
      for (auto *I : X->inits()) { if (n++ > 400) break; A.push_back(I); }
      return "[\"init\"," + args(A) + "," + jstr(typeStr1(X->getType())) + "]";
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { (void)X; return "[\"typeid\"]"; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) return "[\"lambda\"," + jstr(qname(X->getCallOperator())) + "," + std::to_string(V.lineOf(X->getBeginLoc())) + "]";
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { (void)X; return "[\"lit\",0,\"z\"]"; }
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { (void)X; return "[\"lit\",0,\"z\"]"; }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return ex(X->getSemanticForm());
    if (auto *X = dyn_cast<PseudoObjectExpr>(E)) return ex(X->getResultExpr());
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) return std::string("[\"lit\",") + (!X->isValueDependent() && X->getValue() ? "1]" : "0]");
    std::string s = "[\"?\"," + jstr(E->getStmtClassName());
    for (auto *Ch : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(Ch)) s += "," + ex(CE);
    return s + "]";
  }
  std::string typeStr1(QualType T) { return V.typeStr(T); }

  std::string call(const CallExpr *X) {
    // ["call", callee, obj|null, [args], flags, rettype]
    std::string callee, obj = "null", flags;
    llvm::SmallVector<const Expr *, 8> A(X->arg_begin(), X->arg_end());
    const FunctionDecl *FD = X->getDirectCallee();
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
      if (FD) {
        callee = qname(FD);
        if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic() && !A.empty()) { obj = ex(A[0]); A.erase(A.begin()); }
      } else callee = "?operator";
      (void)OC;
    } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
      if (FD) {
        callee = qname(FD);
        if (MC->getImplicitObjectArgument()) obj = ex(MC->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
          if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
            if (MD->isVirtual() && !ME->hasQualifier()) flags += "v";
            if (MD->isConst()) flags += "c";
          }
        }
      } else { // pointer to member
        callee = "?ptm";
        obj = ex(MC->getCallee());
      }
    } else if (FD) {
      callee = qname(FD);
    } else {
      callee = "?ptr";
      obj = ex(X->getCallee());
    }
    if (FD && FD->isNoReturn()) flags += "n";
    if (FD) {
      if (auto *FPT = FD->getType()->getAs<FunctionProtoType>()) if (FPT->isNothrow()) flags += "e";
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) if (MD->isConst() && flags.find('c') == std::string::npos) flags += "c";
    }
    // which arguments the callee may modify (non-const reference or pointer to non-const)
    std::string mut;
    if (FD) {
      unsigned off = (isa<CXXOperatorCallExpr>(X) && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) ? 0 : 0;
      for (unsigned i = 0; i < A.size(); i++) {
        bool m = true;
        if (i + off < FD->getNumParams()) {
          QualType T = FD->getParamDecl(i + off)->getType();
          if (T->isReferenceType()) m = !T.getNonReferenceType().isConstQualified();
          else if (T->isPointerType()) m = !T->getPointeeType().isConstQualified();
          else m = false;
        }
        mut += m ? '1' : '0';
      }
    } else mut = std::string(A.size(), '1');
    std::string s = "[\"call\"," + jstr(callee) + "," + obj + "," + args(A) + "," + jstr(flags) + "," + jstr(typeStr1(X->getType())) + "," + jstr(objType(X, FD)) + "," + jstr(mut) + "]";
    return s;
  }
  std::string objType(const CallExpr *X, const FunctionDecl *FD) {
    if (auto *CD = dyn_cast_or_null<CXXConversionDecl>(FD)) return "conv:" + typeStr1(CD->getConversionType());
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
      if (MC->getImplicitObjectArgument()) { QualType T = MC->getImplicitObjectArgument()->getType(); if (T->isPointerType()) T = T->getPointeeType(); return typeStr1(T.getUnqualifiedType()); }
    }
    if (isa<CXXOperatorCallExpr>(X) && X->getNumArgs()) return typeStr1(X->getArg(0)->getType().getUnqualifiedType());
    return "";
  }

  std::string stmt(const Stmt *S) {
    if (auto *E = dyn_cast<Expr>(S)) {
      return full(E);
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) return "[\"ret\"," + (R->getRetValue() ? ex(R->getRetValue()) : std::string("null")) + "]";
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      std::string o = "[\"decls\"";
      for (auto *DD : D->decls())
        if (auto *VD = dyn_cast<VarDecl>(DD)) {
          o += ",[\"d\"," + jstr(varName(VD)) + "," + jstr(typeStr1(VD->getType())) + "," + (VD->getInit() ? ex(VD->getInit()) : std::string("null")) + (VD->isStaticLocal() ? ",1]" : "]");
        }
      return o + "]";
    }
    return std::string("[\"?\",") + jstr(S->getStmtClassName()) + "]";
  }
};

void Visitor::emitGlobal(VarDecl *VD, const std::string &f, unsigned l) {
  Dumper D(*this);
  std::string init = VD->getInit() ? D.ex(VD->getInit()) : "null";
  *OUT << "{\"k\":\"global\",\"q\":" << jstr(qname(VD)) << ",\"f\":" << jstr(f) << ",\"l\":" << l << ",\"t\":" << jstr(typeStr(VD->getType())) << ",\"def\":"
       << (VD->isThisDeclarationADefinition() == VarDecl::Definition ? 1 : 0) << ",\"init\":" << init << "}\n";
}

// map statements to the chain of enclosing try statements (only the try *block* counts)
struct TryFinder {
  llvm::DenseMap<const Stmt *, int> &M;          // stmt -> innermost try index
  std::vector<const CXXTryStmt *> Tries;
  std::vector<int> Parent;
  TryFinder(llvm::DenseMap<const Stmt *, int> &M) : M(M) {}
  void walk(const Stmt *S, int cur) {
    if (!S) return;
    M[S] = cur;
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      int id = Tries.size(); Tries.push_back(T); Parent.push_back(cur);
      walk(T->getTryBlock(), id);
      for (unsigned i = 0; i < T->getNumHandlers(); i++) walk(T->getHandler(i), cur);
      return;
    }
    if (isa<LambdaExpr>(S)) return;
    for (auto *Ch : S->children()) walk(Ch, cur);
    if (auto *D = dyn_cast<CXXDefaultArgExpr>(S)) walk(D->getExpr(), cur);
  }
};

void Visitor::process(FunctionDecl *FD, const std::string &) {
  std::string f; unsigned l;
  if (!inRoot(FD->getLocation(), f, l)) {
    if (!inRoot(FD->getBeginLoc(), f, l)) return;
  }
  std::string qn = qname(FD);
  std::string sig = typeStr(FD->getType());
  std::string key = "F:" + qn + ":" + f + ":" + std::to_string(l);
  if (FD->isTemplateInstantiation() || (isa<CXXMethodDecl>(FD) && isa<ClassTemplateSpecializationDecl>(cast<CXXMethodDecl>(FD)->getParent()))) {
    // at most 2 instantiations of one pattern
    for (int i = 0; i < 1; i++) {
      if (Seen.insert(key + "#" + std::to_string(i)).second) goto ok;
    }
    return;
  ok:;
  } else {
    key += ":" + sig;
    if (!Seen.insert(key).second) return;
  }
  Stmt *Body = FD->getBody();
  if (!Body) return;
  CFG::BuildOptions BO;
  BO.AddImplicitDtors = true;
  BO.AddInitializers = true;
  BO.AddEHEdges = false;
  BO.AddTemporaryDtors = false;
  BO.PruneTriviallyFalseEdges = true;
  BO.setAllAlwaysAdd();
  std::unique_ptr<CFG> G = CFG::buildCFG(FD, Body, &C, BO);
  llvm::raw_ostream &O = *OUT;
  O << "{\"k\":\"func\",\"q\":" << jstr(qn) << ",\"f\":" << jstr(f) << ",\"l\":" << l << ",\"end\":" << lineOf(Body->getEndLoc()) << ",\"sig\":" << jstr(sig)
    << ",\"ret\":" << jstr(typeStr(FD->getReturnType())) << ",\"tu\":" << jstr(CurTU);
  bool nothrow = false;
  if (auto *FPT = FD->getType()->getAs<FunctionProtoType>()) nothrow = FPT->isNothrow();
  if (nothrow) O << ",\"nothrow\":1";
  if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
    O << ",\"cls\":" << jstr(qname(MD->getParent()));
    if (MD->isVirtual()) {
      O << ",\"virt\":1,\"over\":[";
      bool f2 = true;
      for (auto *OM : MD->overridden_methods()) { if (!f2) O << ","; f2 = false; O << jstr(qname(OM)); }
      O << "]";
    }
    if (MD->isStatic()) O << ",\"static\":1";
    if (MD->isConst()) O << ",\"const\":1";
  }
  if (FD->isTemplateInstantiation()) O << ",\"inst\":1";
  Dumper D(*this);
  O << ",\"params\":[";
  bool first = true;
  for (auto *P : FD->parameters()) { if (!first) O << ","; first = false; O << "[" << jstr(D.varName(P)) << "," << jstr(typeStr(P->getType())) << "]"; }
  O << "]";
  if (!G) { O << ",\"nocfg\":1}\n"; return; }
  llvm::DenseMap<const Stmt *, int> TryOf;
  TryFinder TF(TryOf);
  TF.walk(Body, -1);
  if (auto *CD = dyn_cast<CXXConstructorDecl>(FD))
    for (auto *I : CD->inits()) if (I->getInit()) TF.walk(I->getInit(), -1);
  // assign uids
  int uid = 0;
  std::vector<CFGBlock *> Blocks(G->begin(), G->end());
  for (auto *B : Blocks)
    for (auto &E : *B)
      if (auto S = E.getAs<CFGStmt>()) {
        const Stmt *St = S->getStmt();
        if (Dumper::eventful(St)) { if (!D.Uid.count(St)) D.Uid[St] = uid++; }
      }
  // try info: handlers
  llvm::DenseMap<const CXXTryStmt *, int> TryIdx;
  for (size_t i = 0; i < TF.Tries.size(); i++) TryIdx[TF.Tries[i]] = i;
  std::map<int, unsigned> TryBlock;
  for (auto *B : Blocks)
    if (auto *T = dyn_cast_or_null<CXXTryStmt>(B->getTerminatorStmt())) TryBlock[TryIdx[T]] = B->getBlockID();
  O << ",\"tries\":[";
  for (size_t i = 0; i < TF.Tries.size(); i++) {
    if (i) O << ",";
    O << "{\"p\":" << TF.Parent[i] << ",\"b\":" << (TryBlock.count(i) ? (int)TryBlock[i] : -1) << ",\"l\":" << lineOf(TF.Tries[i]->getBeginLoc()) << ",\"h\":[";
    for (unsigned j = 0; j < TF.Tries[i]->getNumHandlers(); j++) {
      auto *H = TF.Tries[i]->getHandler(j);
      if (j) O << ",";
      O << jstr(H->getCaughtType().isNull() ? "..." : typeStr(H->getCaughtType()));
    }
    O << "]}";
  }
  O << "],\"entry\":" << G->getEntry().getBlockID() << ",\"exit\":" << G->getExit().getBlockID() << ",\"blocks\":[";
  first = true;
  for (auto *B : Blocks) {
    if (!first) O << ","; first = false;
    O << "{\"id\":" << B->getBlockID() << ",\"el\":[";
    bool fe = true;
    for (auto &E : *B) {
      if (auto S = E.getAs<CFGStmt>()) {
        const Stmt *St = S->getStmt();
        auto it = D.Uid.find(St);
        if (it == D.Uid.end()) continue;
        if (!fe) O << ","; fe = false;
        int tr = TryOf.count(St) ? TryOf[St] : -1;
        int id = it->second;
        std::string t;
        D.Uid.erase(it);            // print this node in full, children as refs
        t = D.stmt(St);
        D.Uid[St] = id;
        O << "[" << id << "," << lineOf(St->getBeginLoc()) << "," << tr << "," << t << "]";
      } else if (auto I = E.getAs<CFGInitializer>()) {
        const CXXCtorInitializer *CI = I->getInitializer();
        if (!fe) O << ","; fe = false;
        std::string tgt = CI->isAnyMemberInitializer() ? "[\"m\",[\"this\"]," + jstr(qname(CI->getAnyMember())) + ",1]" : "[\"base\"," + jstr(CI->getBaseClass() && QualType(CI->getBaseClass(), 0)->getAsCXXRecordDecl() ? qname(QualType(CI->getBaseClass(), 0)->getAsCXXRecordDecl()) : "?") + "]";
        O << "[" << uid++ << "," << lineOf(CI->getSourceLocation()) << ",-1,[\"minit\"," << tgt << "," << (CI->getInit() ? D.ex(CI->getInit()) : "null") << "," << (CI->isWritten()?1:0) << "]]";
      } else if (auto A = E.getAs<CFGAutomaticObjDtor>()) {
        if (!fe) O << ","; fe = false;
        const VarDecl *VD = A->getVarDecl();
        int tr = -1;
        const CXXRecordDecl *RD = VD->getType().getNonReferenceType()->getAsCXXRecordDecl();
        O << "[" << uid++ << "," << (A->getTriggerStmt() ? lineOf(A->getTriggerStmt()->getEndLoc()) : 0) << "," << tr << ",[\"dtor\"," << jstr(D.varName(VD)) << "," << jstr(RD ? qname(RD) : "?") << "]]";
      } else if (auto X = E.getAs<CFGDeleteDtor>()) { (void)X; }
    }
    O << "]";
    if (const Stmt *T = B->getTerminatorStmt()) {
      O << ",\"t\":" << jstr(T->getStmtClassName()) << ",\"tl\":" << lineOf(T->getBeginLoc());
      if (auto *BO2 = dyn_cast<BinaryOperator>(T)) O << ",\"top\":" << jstr(BO2->getOpcodeStr());
      const Stmt *Cnd = B->getTerminatorCondition();
      if (!isa<SwitchStmt>(T)) if (const Expr *LC = B->getLastCondition()) Cnd = LC;
      if (isa<CXXForRangeStmt>(T)) { Cnd = cast<CXXForRangeStmt>(T)->getCond(); }
      if (Cnd && isa<Expr>(Cnd)) O << ",\"c\":" << D.ex(cast<Expr>(Cnd));
    }
    if (const Stmt *L = B->getLabel()) {
      if (auto *CS = dyn_cast<CaseStmt>(L)) {
        O << ",\"case\":[" << D.ex(CS->getLHS());
        if (CS->getRHS()) O << "," << D.ex(CS->getRHS());
        O << "]";
      } else if (isa<DefaultStmt>(L)) O << ",\"default\":1";
      else if (auto *Ct = dyn_cast<CXXCatchStmt>(L)) {
        O << ",\"catch\":" << jstr(Ct->getCaughtType().isNull() ? "..." : typeStr(Ct->getCaughtType())) << ",\"cl\":" << lineOf(Ct->getBeginLoc());
        if (Ct->getExceptionDecl()) O << ",\"cv\":" << jstr(D.varName(Ct->getExceptionDecl()));
      }
    }
    if (B->hasNoReturnElement()) O << ",\"noret\":1";
    O << ",\"s\":[";
    bool fs = true;
    for (auto &S : B->succs()) {
      if (!fs) O << ","; fs = false;
      if (CFGBlock *R = S.getReachableBlock()) O << R->getBlockID();
      else if (CFGBlock *P = S.getPossiblyUnreachableBlock()) O << "-" << (P->getBlockID() + 2);
      else O << -1;
    }
    O << "]}";
  }
  O << "]";
  // local variables with types
  O << ",\"vars\":{";
  first = true;
  for (auto &P : D.Vars) {
    if (!first) O << ","; first = false;
    O << jstr(P.second) << ":" << jstr(typeStr(P.first->getType()));
  }
  O << "}}\n";
}

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Visitor V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef In) override {
    CI.getDiagnostics().setSuppressAllDiagnostics(false);
    CurTU = In.str();
    return std::make_unique<Consumer>();
  }
};

class DC : public DiagnosticConsumer {
public:
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
    DiagnosticConsumer::HandleDiagnostic(L, I);
    if (L < DiagnosticsEngine::Error) return;
    llvm::SmallString<200> s; I.FormatDiagnostic(s);
    std::string f = "?"; unsigned ln = 0;
    if (I.hasSourceManager() && I.getLocation().isValid()) {
      PresumedLoc P = I.getSourceManager().getPresumedLoc(I.getSourceManager().getExpansionLoc(I.getLocation()), false);
      if (P.isValid()) { f = P.getFilename(); ln = P.getLine(); }
    }
    *OUT << "{\"k\":\"diag\",\"tu\":" << jstr(CurTU) << ",\"f\":" << jstr(f) << ",\"l\":" << ln << ",\"fatal\":" << (L == DiagnosticsEngine::Fatal) << ",\"msg\":" << jstr(s) << "}\n";
  }
};

int main(int argc, char **argv) {
  // extract <root> <compdb.json> <out> file...
  if (argc < 5) { llvm::errs() << "usage: extract root compdb out files...\n"; return 2; }
  Root = argv[1];
  std::string err;
  auto DB = tooling::JSONCompilationDatabase::loadFromFile(argv[2], err, tooling::JSONCommandLineSyntax::Gnu);
  if (!DB) { llvm::errs() << err << "\n"; return 2; }
  std::error_code EC;
  llvm::raw_fd_ostream OS(argv[3], EC);
  if (EC) { llvm::errs() << EC.message() << "\n"; return 2; }
  OUT = &OS;
  std::vector<std::string> files(argv + 4, argv + argc);
  DC dc;
  for (auto &F : files) {
    tooling::ClangTool T(*DB, {F});
    T.clearArgumentsAdjusters();
    T.setDiagnosticConsumer(&dc);
    T.setPrintErrorMessage(false);
    CurTU = F;
    int r = T.run(tooling::newFrontendActionFactory<Action>().get());
    OS << "{\"k\":\"tu\",\"f\":" << jstr(F) << ",\"rc\":" << r << "}\n";
  }
  return 0;
}
