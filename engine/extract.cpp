// libTooling extractor: parses C translation units with the build's flags and
// dumps every function definition written under the source root as a resolved,
// typed syntax tree (one JSON value per line).  No decision is taken here.
//
//   extract ROOT JOBFILE OUT      JOBFILE: JSON lines {"file":..,"flags":[..],"tag":..}
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Basic/OpenMPKinds.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
using namespace clang;
using std::string;

static string ROOT;
static llvm::raw_ostream *OUT;

static void js(llvm::raw_ostream &o, llvm::StringRef s) {
  o << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o << '\\' << c;
    else if (c == '\n') o << "\\n";
    else if (c == '\t') o << "\\t";
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
    else o << c;
  }
  o << '"';
}

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  llvm::raw_ostream &o;
  std::map<const void *, int> ids;
  Dumper(ASTContext &C, llvm::raw_ostream &o) : C(C), SM(C.getSourceManager()), o(o) {}
  int id(const Decl *D) {
    const void *k = D->getCanonicalDecl();
    auto it = ids.find(k);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[k] = n;
    return n;
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getUnqualifiedType().getAsString();
  }
  string tyq(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(); }
  void head(const char *k, SourceLocation L, QualType T = QualType()) {
    o << "[\"" << k << "\"," << line(L) << ',';
    js(o, ty(T));
    o << ',';
  }
  void kids(std::initializer_list<const Stmt *> cs) {
    o << ",[";
    bool first = true;
    for (auto *c : cs) { if (!first) o << ','; first = false; emit(c); }
    o << "]]";
  }
  template <class R> void kidsR(R &&r) {
    o << ",[";
    bool first = true;
    for (auto *c : r) { if (!first) o << ','; first = false; emit(c); }
    o << "]]";
  }
  void var(const VarDecl *V) {
    // [name,id,type,storage(auto/static/extern),init|null,line, vla size expr|null]
    o << '[';
    js(o, V->getName());
    o << ',' << id(V) << ',';
    js(o, ty(V->getType()));
    o << ',' << (V->isStaticLocal() ? "\"static\"" : V->hasExternalStorage() ? "\"extern\"" : "\"auto\"") << ',';
    if (V->hasInit()) emit(V->getInit()); else o << "null";
    o << ',' << line(V->getLocation()) << ',';
    const VariableArrayType *VA = C.getAsVariableArrayType(V->getType());
    if (VA && VA->getSizeExpr()) emit(VA->getSizeExpr()); else o << "null";
    o << ']';
  }
  void emit(const Stmt *S) {
    if (!S) { o << "null"; return; }
    if (auto *E = dyn_cast<Expr>(S)) { expr(E); return; }
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) { omp(X); return; }
    SourceLocation L = S->getBeginLoc();
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: head("block", L); o << "null"; kidsR(cast<CompoundStmt>(S)->body()); return;
    case Stmt::DeclStmtClass: {
      head("decl", L); o << '[';
      bool f = true;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) { if (!f) o << ','; f = false; var(V); }
      o << "],[]]";
      return;
    }
    case Stmt::IfStmtClass: { auto *I = cast<IfStmt>(S); head("if", L); o << "null"; kids({I->getCond(), I->getThen(), I->getElse()}); return; }
    case Stmt::ForStmtClass: { auto *I = cast<ForStmt>(S); head("for", L); o << "null"; kids({I->getInit(), I->getCond(), I->getInc(), I->getBody()}); return; }
    case Stmt::WhileStmtClass: { auto *I = cast<WhileStmt>(S); head("while", L); o << "null"; kids({I->getCond(), I->getBody()}); return; }
    case Stmt::DoStmtClass: { auto *I = cast<DoStmt>(S); head("do", L); o << "null"; kids({I->getBody(), I->getCond()}); return; }
    case Stmt::SwitchStmtClass: { auto *I = cast<SwitchStmt>(S); head("switch", L); o << "null"; kids({I->getCond(), I->getBody()}); return; }
    case Stmt::CaseStmtClass: {
      auto *I = cast<CaseStmt>(S); head("case", L);
      Expr::EvalResult R;
      if (I->getLHS()->EvaluateAsInt(R, C)) o << R.Val.getInt().getExtValue(); else o << "null";
      kids({I->getSubStmt()}); return;
    }
    case Stmt::DefaultStmtClass: { auto *I = cast<DefaultStmt>(S); head("default", L); o << "null"; kids({I->getSubStmt()}); return; }
    case Stmt::BreakStmtClass: head("break", L); o << "null,[]]"; return;
    case Stmt::ContinueStmtClass: head("continue", L); o << "null,[]]"; return;
    case Stmt::NullStmtClass: head("null", L); o << "null,[]]"; return;
    case Stmt::ReturnStmtClass: { auto *R = cast<ReturnStmt>(S); head("return", L); o << "null"; kids({R->getRetValue()}); return; }
    case Stmt::GotoStmtClass: { auto *G = cast<GotoStmt>(S); head("goto", L); js(o, G->getLabel()->getName()); o << ",[]]"; return; }
    case Stmt::LabelStmtClass: { auto *G = cast<LabelStmt>(S); head("label", L); js(o, G->getDecl()->getName()); kids({G->getSubStmt()}); return; }
    case Stmt::AttributedStmtClass: emit(cast<AttributedStmt>(S)->getSubStmt()); return;
    case Stmt::CapturedStmtClass: emit(cast<CapturedStmt>(S)->getCapturedStmt()); return;
    default: head("unknown", L); js(o, S->getStmtClassName()); kidsR(S->children()); return;
    }
  }
  void varlist(const OMPClause *Cl) {
    o << '[';
    bool f = true;
    for (const Stmt *s : const_cast<OMPClause *>(Cl)->children()) {
      auto *E = dyn_cast_or_null<Expr>(s);
      if (!E) continue;
      if (!f) o << ','; f = false;
      emit(E);
    }
    o << ']';
  }
  template <class T> void vl(const T *Cl) {
    o << '[';
    bool f = true;
    for (const Expr *E : Cl->varlists()) { if (!f) o << ','; f = false; emit(E); }
    o << ']';
  }
  void omp(const OMPExecutableDirective *D) {
    head("omp", D->getBeginLoc());
    o << "{\"dir\":";
    js(o, getOpenMPDirectiveName(D->getDirectiveKind()));
    if (auto *Cr = dyn_cast<OMPCriticalDirective>(D)) { o << ",\"name\":"; js(o, Cr->getDirectiveName().getAsString()); }
    o << ",\"clauses\":[";
    bool f = true;
    for (auto *Cl : D->clauses()) {
      if (Cl->isImplicit()) continue;
      if (!f) o << ','; f = false;
      o << '[';
      js(o, llvm::omp::getOpenMPClauseName(Cl->getClauseKind()));
      o << ',';
      if (auto *R = dyn_cast<OMPReductionClause>(Cl)) { js(o, R->getNameInfo().getAsString()); o << ','; vl(R); }
      else if (auto *X = dyn_cast<OMPPrivateClause>(Cl)) { o << "null,"; vl(X); }
      else if (auto *X = dyn_cast<OMPFirstprivateClause>(Cl)) { o << "null,"; vl(X); }
      else if (auto *X = dyn_cast<OMPLastprivateClause>(Cl)) { o << "null,"; vl(X); }
      else if (auto *X = dyn_cast<OMPSharedClause>(Cl)) { o << "null,"; vl(X); }
      else if (auto *X = dyn_cast<OMPDefaultClause>(Cl)) { o << (int) X->getDefaultKind() << ",[]"; }
      else { o << "null,"; varlist(Cl); }
      o << ']';
    }
    o << "]}";
    const Stmt *B = nullptr;
    if (D->hasAssociatedStmt()) B = D->getRawStmt();
    kids({B});
  }
  void expr(const Expr *E) {
    SourceLocation L = E->getBeginLoc();
    QualType T = E->getType();
    // strip noise
    if (auto *P = dyn_cast<ParenExpr>(E)) { expr(P->getSubExpr()); return; }
    if (auto *P = dyn_cast<ConstantExpr>(E)) { expr(P->getSubExpr()); return; }
    if (auto *P = dyn_cast<FullExpr>(E)) { expr(P->getSubExpr()); return; }
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) { expr(P->getSourceExpr()); return; } }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
        if (!isa<ExplicitCastExpr>(X) || X->getCastKind() != CK_NoOp) { expr(X->getSubExpr()); return; }
        break;
      case CK_ArrayToPointerDecay: expr(X->getSubExpr()); return;
      default: break;
      }
      head("cast", L, T);
      o << "[\"" << X->getCastKindName() << "\"," << (isa<ExplicitCastExpr>(X) ? 1 : 0) << ']';
      kids({X->getSubExpr()});
      return;
    }
    switch (E->getStmtClass()) {
    case Stmt::DeclRefExprClass: {
      auto *R = cast<DeclRefExpr>(E);
      auto *D = R->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        head("enum", L, T); o << '['; js(o, EC->getName()); o << ',' << EC->getInitVal().getExtValue() << "],[]]"; return;
      }
      const char *kind = "var";
      string extra;
      if (isa<FunctionDecl>(D)) kind = "func";
      else if (isa<ParmVarDecl>(D)) kind = "parm";
      else if (auto *V = dyn_cast<VarDecl>(D)) kind = V->isStaticLocal() ? "slocal" : V->hasGlobalStorage() ? "global" : "var";
      head("ref", L, T);
      o << '['; js(o, D->getName()); o << ',' << id(D) << ",\"" << kind << "\"]";
      o << ",[]]";
      return;
    }
    case Stmt::IntegerLiteralClass: { head("int", L, T); llvm::SmallString<24> s; cast<IntegerLiteral>(E)->getValue().toString(s, 10, true); o << s << ",[]]"; return; }
    case Stmt::CharacterLiteralClass: head("int", L, T); o << cast<CharacterLiteral>(E)->getValue() << ",[]]"; return;
    case Stmt::FloatingLiteralClass: { head("float", L, T); llvm::SmallString<32> s; cast<FloatingLiteral>(E)->getValue().toString(s); js(o, s); o << ",[]]"; return; }
    case Stmt::ImaginaryLiteralClass: head("imag", L, T); o << "null"; kids({cast<ImaginaryLiteral>(E)->getSubExpr()}); return;
    case Stmt::StringLiteralClass: { head("str", L, T); auto *SL = cast<StringLiteral>(E); js(o, SL->getCharByteWidth() == 1 ? SL->getString() : ""); o << ",[]]"; return; }
    case Stmt::PredefinedExprClass: { head("str", L, T); js(o, ""); o << ",[]]"; return; }
    case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(E);
      head(B->isAssignmentOp() ? "asg" : "bin", L, T);
      js(o, B->getOpcodeStr());
      kids({B->getLHS(), B->getRHS()});
      return;
    }
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(E);
      if (U->getOpcode() == UO_Extension || U->getOpcode() == UO_Plus) { expr(U->getSubExpr()); return; }
      head("un", L, T);
      string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) op = "post" + op; else if (U->isIncrementDecrementOp()) op = "pre" + op;
      js(o, op);
      kids({U->getSubExpr()});
      return;
    }
    case Stmt::ArraySubscriptExprClass: { auto *A = cast<ArraySubscriptExpr>(E); head("idx", L, T); o << "null"; kids({A->getBase(), A->getIdx()}); return; }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      head("mem", L, T); o << '['; js(o, M->getMemberDecl()->getName()); o << ',' << (M->isArrow() ? 1 : 0) << ']';
      kids({M->getBase()}); return;
    }
    case Stmt::CallExprClass: {
      auto *X = cast<CallExpr>(E);
      head("call", L, T);
      const FunctionDecl *FD = X->getDirectCallee();
      if (FD) {
        o << '['; js(o, FD->getName()); o << ',' << (FD->isNoReturn() ? 1 : 0) << ',' << (FD->isVariadic() ? 1 : 0) << ",[";
        bool f = true;
        for (auto *P : FD->parameters()) { if (!f) o << ','; f = false; js(o, tyq(P->getType())); }
        o << "]," << (FD->getStorageClass() == SC_Static ? 1 : 0) << "]";
        o << ",[null";
      } else { o << "null,["; emit(X->getCallee()); }
      for (auto *A : X->arguments()) { o << ','; emit(A); }
      o << "]]";
      return;
    }
    case Stmt::ConditionalOperatorClass: { auto *X = cast<ConditionalOperator>(E); head("cond", L, T); o << "null"; kids({X->getCond(), X->getTrueExpr(), X->getFalseExpr()}); return; }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto *X = cast<UnaryExprOrTypeTraitExpr>(E);
      head("sizeof", L, T);
      o << '['; js(o, ty(X->getTypeOfArgument())); o << ',';
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) o << R.Val.getInt().getExtValue(); else o << "null";
      o << "],[]]";
      return;
    }
    case Stmt::InitListExprClass: { auto *X = cast<InitListExpr>(E); head("init", L, T); o << "null"; kidsR(X->inits()); return; }
    case Stmt::ImplicitValueInitExprClass: head("zero", L, T); o << "null,[]]"; return;
    case Stmt::CompoundLiteralExprClass: { head("complit", L, T); o << "null"; kids({cast<CompoundLiteralExpr>(E)->getInitializer()}); return; }
    case Stmt::StmtExprClass: { head("stmtexpr", L, T); o << "null"; kids({cast<StmtExpr>(E)->getSubStmt()}); return; }
    case Stmt::VAArgExprClass: { head("va_arg", L, T); o << "null"; kids({cast<VAArgExpr>(E)->getSubExpr()}); return; }
    default: head("unknown", L, T); js(o, E->getStmtClassName()); kidsR(E->children()); return;
    }
  }
};

static std::set<string> seenRec, seenProto;

struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; string tag, mainfile; Dumper D;
  V(ASTContext &C, string tag, string mf) : C(C), SM(C.getSourceManager()), tag(tag), mainfile(mf), D(C, *OUT) {}
  string fileOf(SourceLocation L) { auto F = SM.getFilename(SM.getExpansionLoc(L)); return F.str(); }
  bool inRoot(const string &f) { return f.compare(0, ROOT.size(), ROOT) == 0; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    string f = fileOf(F->getLocation());
    if (!inRoot(f)) return true;
    auto &o = *OUT;
    bool def = F->isThisDeclarationADefinition();
    if (!def && !seenProto.insert(tag + F->getName().str() + f).second) return true;
    o << "{\"k\":\"" << (def ? "fn" : "proto") << "\",\"tag\":"; js(o, tag);
    o << ",\"name\":"; js(o, F->getName());
    o << ",\"file\":"; js(o, f.substr(ROOT.size() + 1));
    o << ",\"main\":"; js(o, mainfile.size() > ROOT.size() ? mainfile.substr(ROOT.size() + 1) : mainfile);
    o << ",\"line\":" << D.line(F->getLocation()) << ",\"end\":" << D.line(F->getEndLoc());
    o << ",\"static\":" << (F->getStorageClass() == SC_Static ? 1 : 0) << ",\"inline\":" << (F->isInlineSpecified() ? 1 : 0);
    o << ",\"noreturn\":" << (F->isNoReturn() ? 1 : 0) << ",\"variadic\":" << (F->isVariadic() ? 1 : 0);
    o << ",\"ret\":"; js(o, D.tyq(F->getReturnType()));
    o << ",\"params\":[";
    bool first = true;
    for (auto *P : F->parameters()) {
      if (!first) o << ','; first = false;
      o << '['; js(o, P->getName()); o << ',' << D.id(P) << ','; js(o, D.tyq(P->getType())); o << ',';
      js(o, P->getType().getAsString()); o << ']';
    }
    o << "]";
    if (def) { o << ",\"body\":"; D.emit(F->getBody()); }
    o << "}\n";
    return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (isa<ParmVarDecl>(X) || !X->hasGlobalStorage()) return true;
    string f = fileOf(X->getLocation());
    if (!inRoot(f) || !X->isThisDeclarationADefinition()) return true;
    auto &o = *OUT;
    o << "{\"k\":\"gvar\",\"tag\":"; js(o, tag);
    o << ",\"name\":"; js(o, X->getName()); o << ",\"file\":"; js(o, f.substr(ROOT.size() + 1));
    o << ",\"line\":" << D.line(X->getLocation()) << ",\"ty\":"; js(o, D.tyq(X->getType()));
    o << ",\"local\":" << (X->isStaticLocal() ? 1 : 0) << ",\"def\":" << (X->isThisDeclarationADefinition() ? 1 : 0);
    o << ",\"const\":" << (X->getType().isConstQualified() ? 1 : 0) << "}\n";
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) {
    if (!R->isCompleteDefinition()) return true;
    string f = fileOf(R->getLocation());
    if (!inRoot(f)) return true;
    string nm = R->getName().str();
    if (nm.empty()) if (auto *TD = R->getTypedefNameForAnonDecl()) nm = TD->getName().str();
    if (seenRec.count(tag + nm)) return true;
    seenRec.insert(tag + nm);
    auto &o = *OUT;
    o << "{\"k\":\"rec\",\"tag\":"; js(o, tag); o << ",\"name\":"; js(o, nm); o << ",\"file\":"; js(o, f.substr(ROOT.size() + 1));
    o << ",\"fields\":[";
    bool first = true;
    for (auto *F : R->fields()) { if (!first) o << ','; first = false; o << '['; js(o, F->getName()); o << ','; js(o, D.ty(F->getType())); o << ']'; }
    o << "]}\n";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *R) {
    if (!R->isCompleteDefinition()) return true;
    string f = fileOf(R->getLocation());
    if (!inRoot(f)) return true;
    string nm = R->getName().str();
    if (nm.empty() && R->getTypedefNameForAnonDecl()) nm = R->getTypedefNameForAnonDecl()->getName().str();
    if (seenRec.count(tag + "enum " + nm)) return true;
    seenRec.insert(tag + "enum " + nm);
    auto &o = *OUT;
    o << "{\"k\":\"enum\",\"tag\":"; js(o, tag); o << ",\"name\":"; js(o, nm);
    o << ",\"vals\":[";
    bool first = true;
    for (auto *F : R->enumerators()) { if (!first) o << ','; first = false; o << '['; js(o, F->getName()); o << ',' << F->getInitVal().getExtValue() << ']'; }
    o << "]}\n";
    return true;
  }
};

struct Cons : ASTConsumer {
  string tag, mf;
  Cons(string t, string m) : tag(t), mf(m) {}
  void HandleTranslationUnit(ASTContext &C) override { V v(C, tag, mf); v.TraverseDecl(C.getTranslationUnitDecl()); }
};
struct Act : ASTFrontendAction {
  string tag;
  Act(string t) : tag(t) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    CI.getDiagnostics().setSuppressAllDiagnostics(false);
    return std::make_unique<Cons>(tag, F.str());
  }
};

int main(int argc, char **argv) {
  if (argc != 4) { llvm::errs() << "usage: extract ROOT JOBS OUT\n"; return 2; }
  ROOT = argv[1];
  std::error_code ec;
  llvm::raw_fd_ostream out(argv[3], ec);
  OUT = &out;
  std::ifstream in(argv[2]);
  string l;
  int bad = 0;
  auto PCH = std::make_shared<PCHContainerOperations>();
  while (std::getline(in, l)) {
    auto J = llvm::json::parse(l);
    if (!J) { llvm::errs() << "bad job\n"; return 2; }
    auto *O = J->getAsObject();
    string file = O->getString("file")->str(), tag = O->getString("tag")->str();
    std::vector<string> args = {"clang"};
    for (auto &a : *O->getArray("flags")) args.push_back(a.getAsString()->str());
    args.push_back("-fsyntax-only");
    args.push_back(file);
    llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation T(args, std::make_unique<Act>(tag), FM.get(), PCH);
    bool ok = T.run();
    out << "{\"k\":\"tu\",\"tag\":"; js(out, tag); out << ",\"file\":"; js(out, file.substr(ROOT.size() + 1)); out << ",\"ok\":" << (ok ? 1 : 0) << "}\n";
    if (!ok) bad++;
  }
  return bad ? 1 : 0;
}
