// extract.cpp - mechanical extractor: C++ AST (as clang type-checks it) -> JSON.
//
// For every function with a body located under one of the --root directories
// (template instantiations included) it writes the fully resolved body: every
// implicit conversion, overload choice, default argument and constructor call
// that the compiler inserts is explicit in the output.  Nothing is simplified
// except: parentheses, cleanup markers and temporaries' lifetime markers are
// dropped and integral constant expressions are replaced by their value.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;

static std::vector<std::string> Roots;

static std::string esc(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct X {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<const void*, int> typeIds; std::vector<std::string> types;
  std::map<const Decl*, int> fnIds; std::vector<std::string> fns;
  std::map<const Decl*, int> varIds; std::vector<std::string> vars;
  std::map<const Decl*, int> recIds; std::vector<std::string> recs;
  std::vector<const CXXRecordDecl*> recQueue;
  std::vector<std::string> bodies;

  X(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressInlineNamespace = true;
    PP.SuppressDefaultTemplateArgs = true; PP.PrintCanonicalTypes = true;
    PP.FullyQualifiedName = true; PP.AnonymousTagLocations = false;
  }

  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto fn = SM.getFilename(L).str();
    llvm::SmallString<256> real;
    for (auto &r : Roots) if (fn.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string loc(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str() + ":" + std::to_string(SM.getSpellingLineNumber(L));
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getSpellingLineNumber(SM.getExpansionLoc(L));
  }
  std::string tstr(QualType t) { return t.getCanonicalType().getAsString(PP); }

  int ty(QualType q) {
    q = q.getCanonicalType();
    const void *k = q.getAsOpaquePtr();
    auto it = typeIds.find(k);
    if (it != typeIds.end()) return it->second;
    int id = types.size();
    typeIds[k] = id; types.push_back("");
    std::string o = "{\"s\":" + esc(q.getAsString(PP));
    bool cq = q.isConstQualified();
    if (cq) o += ",\"c\":1";
    QualType u = q.getUnqualifiedType();
    if (auto *b = dyn_cast<BuiltinType>(u)) {
      if (b->isInteger()) {
        o += ",\"k\":\"int\",\"w\":" + std::to_string(C.getTypeSize(u)) + ",\"sg\":" + (u->isSignedIntegerType() ? "1" : "0");
        if (b->getKind() == BuiltinType::Bool) o += ",\"bool\":1";
      } else if (b->isFloatingPoint()) o += ",\"k\":\"float\"";
      else if (b->getKind() == BuiltinType::Void) o += ",\"k\":\"void\"";
      else if (b->getKind() == BuiltinType::NullPtr) o += ",\"k\":\"nullptr\"";
      else o += ",\"k\":\"other\"";
    } else if (auto *p = dyn_cast<PointerType>(u)) {
      o += ",\"k\":\"ptr\",\"to\":" + std::to_string(ty(p->getPointeeType()));
    } else if (auto *r = dyn_cast<ReferenceType>(u)) {
      o += std::string(",\"k\":\"") + (isa<LValueReferenceType>(r) ? "lref" : "rref") + "\",\"to\":" + std::to_string(ty(r->getPointeeType()));
    } else if (auto *a = dyn_cast<ConstantArrayType>(u)) {
      o += ",\"k\":\"array\",\"n\":" + std::to_string(a->getSize().getZExtValue()) + ",\"to\":" + std::to_string(ty(a->getElementType()));
    } else if (auto *e = dyn_cast<EnumType>(u)) {
      QualType it = e->getDecl()->getIntegerType();
      o += ",\"k\":\"enum\",\"name\":" + esc(qname(e->getDecl()));
      if (!it.isNull()) o += ",\"w\":" + std::to_string(C.getTypeSize(it)) + ",\"sg\":" + (it->isSignedIntegerType() ? "1" : "0");
    } else if (auto *r = dyn_cast<RecordType>(u)) {
      auto *d = r->getDecl();
      o += ",\"k\":\"rec\",\"name\":" + esc(qname(d));
      if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
        o += ",\"tmpl\":" + esc(qname(s)) + ",\"targs\":[";
        bool f = true;
        for (auto &a : s->getTemplateArgs().asArray()) targ(a, o, f);
        o += "]";
      }
      if (auto *cd = dyn_cast<CXXRecordDecl>(d)) o += ",\"rec\":" + std::to_string(rec(cd));
    } else if (auto *f = dyn_cast<FunctionProtoType>(u)) {
      o += ",\"k\":\"fn\",\"ret\":" + std::to_string(ty(f->getReturnType())) + ",\"ps\":[";
      for (unsigned i = 0; i < f->getNumParams(); ++i) { if (i) o += ","; o += std::to_string(ty(f->getParamType(i))); }
      o += "]";
    } else o += ",\"k\":\"other\"";
    o += "}";
    types[id] = o;
    return id;
  }
  void targ(const TemplateArgument &a, std::string &o, bool &f) {
    if (a.getKind() == TemplateArgument::Pack) { for (auto &b : a.pack_elements()) targ(b, o, f); return; }
    if (!f) o += ","; f = false;
    if (a.getKind() == TemplateArgument::Type) o += std::to_string(ty(a.getAsType()));
    else if (a.getKind() == TemplateArgument::Integral) o += esc(llvm::toString(a.getAsIntegral(), 10));
    else o += "null";
  }
  std::string qname(const NamedDecl *d) {
    std::string s; llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, PP); os.flush(); return s;
  }
  std::string recName(const CXXRecordDecl *d) { return tstr(C.getTypeDeclType(d)); }
  int rec(const CXXRecordDecl *d) {
    d = d->getCanonicalDecl();
    auto it = recIds.find(d);
    if (it != recIds.end()) return it->second;
    int id = recs.size(); recIds[d] = id; recs.push_back(""); recQueue.push_back(d);
    return id;
  }
  void flushRecs() {
    while (!recQueue.empty()) {
      auto *d = recQueue.back(); recQueue.pop_back();
      int id = recIds[d];
      std::string o = "{\"name\":" + esc(recName(d)) + ",\"repo\":" + (inRoots(d->getLocation()) ? "1" : "0");
      auto *def = d->getDefinition();
      if (def && (inRoots(def->getLocation()) || true)) {
        o += ",\"loc\":" + esc(loc(def->getLocation())) + ",\"bases\":[";
        bool f = true;
        bool repo = inRoots(def->getLocation());
        for (auto &b : def->bases()) { if (!f) o += ","; f = false; o += std::to_string(ty(b.getType())); }
        o += "]";
        if (repo) {
          o += ",\"fields\":["; f = true;
          for (auto *fd : def->fields()) {
            if (!f) o += ","; f = false;
            o += "{\"n\":" + esc(fd->getName()) + ",\"t\":" + std::to_string(ty(fd->getType()));
            if (fd->hasInClassInitializer() && fd->getInClassInitializer()) o += ",\"i\":" + expr(fd->getInClassInitializer());
            o += "}";
          }
          o += "],\"methods\":["; f = true;
          for (auto *m : def->methods()) { if (!f) o += ","; f = false; o += std::to_string(fn(m)); }
          o += "]";
        }
        if (def->isPolymorphic()) o += ",\"poly\":1";
        if (def->isLambda()) o += ",\"lambda\":1";
      }
      o += "}";
      recs[id] = o;
    }
  }
  std::string fname(const FunctionDecl *f) {
    std::string n;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) n = recName(m->getParent()) + "::" + f->getDeclName().getAsString();
    else n = qname(f);
    if (isa<CXXConstructorDecl>(f)) n = recName(cast<CXXMethodDecl>(f)->getParent()) + "::" + cast<CXXMethodDecl>(f)->getParent()->getNameAsString();
    if (isa<CXXDestructorDecl>(f)) n = recName(cast<CXXMethodDecl>(f)->getParent()) + "::~" + cast<CXXMethodDecl>(f)->getParent()->getNameAsString();
    if (auto *cv = dyn_cast<CXXConversionDecl>(f)) n = recName(cv->getParent()) + "::operator " + tstr(cv->getConversionType());
    return n;
  }
  std::string fkey(const FunctionDecl *f) {
    std::string n = fname(f);
    if (auto *a = f->getTemplateSpecializationArgs()) {
      n += "<"; bool first = true;
      std::vector<TemplateArgument> v(a->asArray().begin(), a->asArray().end());
      for (size_t i = 0; i < v.size(); ++i) {
        if (v[i].getKind() == TemplateArgument::Pack) { auto p = v[i].pack_elements(); std::vector<TemplateArgument> w(p.begin(), p.end()); v.insert(v.end(), w.begin(), w.end()); continue; }
        if (!first) n += ", "; first = false;
        if (v[i].getKind() == TemplateArgument::Type) n += tstr(v[i].getAsType());
        else if (v[i].getKind() == TemplateArgument::Integral) n += llvm::toString(v[i].getAsIntegral(), 10);
        else n += "?";
      }
      n += ">";
    }
    n += "(";
    for (unsigned i = 0; i < f->getNumParams(); ++i) { if (i) n += ", "; n += tstr(f->getParamDecl(i)->getType()); }
    if (f->isVariadic()) n += ", ...";
    n += ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) n += " const";
    return n;
  }
  int fn(const FunctionDecl *f) {
    f = f->getCanonicalDecl();
    auto it = fnIds.find(f);
    if (it != fnIds.end()) return it->second;
    int id = fns.size(); fnIds[f] = id; fns.push_back("");
    std::string o = "{\"key\":" + esc(fkey(f)) + ",\"n\":" + esc(f->getDeclName().getAsString()) + ",\"q\":" + esc(fname(f));
    // generic (template) qualified name, without class template arguments
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o += ",\"cls\":" + std::to_string(ty(C.getTypeDeclType(m->getParent())));
      o += ",\"gq\":" + esc(m->getParent()->getQualifiedNameAsString() + "::" + f->getDeclName().getAsString());
      if (m->isStatic()) o += ",\"static\":1";
      if (m->isConst()) o += ",\"const\":1";
      if (m->isVirtual()) o += ",\"virtual\":1";
      if (m->isPureVirtual()) o += ",\"pure\":1";
      if (m->getParent()->isLambda()) o += ",\"lambda\":1";
      if (m->size_overridden_methods()) { o += ",\"over\":["; bool ff = true; for (auto *om : m->overridden_methods()) { if (!ff) o += ","; ff = false; o += std::to_string(fn(om)); } o += "]"; }
    } else o += ",\"gq\":" + esc(f->getQualifiedNameAsString());
    if (isa<CXXConstructorDecl>(f)) {
      auto *cd = cast<CXXConstructorDecl>(f);
      o += ",\"ctor\":" + std::string(cd->isCopyConstructor() ? "\"copy\"" : cd->isMoveConstructor() ? "\"move\"" : cd->isDefaultConstructor() ? "\"default\"" : "\"other\"");
    }
    if (isa<CXXDestructorDecl>(f)) o += ",\"dtor\":1";
    if (isa<CXXConversionDecl>(f)) o += ",\"conv\":1";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) { if (m->isCopyAssignmentOperator()) o += ",\"asg\":\"copy\""; else if (m->isMoveAssignmentOperator()) o += ",\"asg\":\"move\""; }
    if (f->isImplicit()) o += ",\"implicit\":1";
    if (f->isDefaulted()) o += ",\"defaulted\":1";
    if (f->isVariadic()) o += ",\"variadic\":1";
    if (auto b = f->getBuiltinID()) o += ",\"builtin\":" + std::to_string(b);
    o += ",\"ret\":" + std::to_string(ty(f->getReturnType())) + ",\"ps\":[";
    for (unsigned i = 0; i < f->getNumParams(); ++i) { if (i) o += ","; o += std::to_string(ty(f->getParamDecl(i)->getType())); }
    o += "],\"repo\":" + std::string(inRoots(f->getLocation()) ? "1" : "0");
    if (auto *a = f->getTemplateSpecializationArgs()) {
      o += ",\"targs\":["; bool ff = true; for (auto &x : a->asArray()) targ(x, o, ff); o += "]";
    }
    o += ",\"loc\":" + esc(loc(f->getLocation()));
    o += "}";
    fns[id] = o;
    return id;
  }
  int var(const VarDecl *v0) {
    const VarDecl *v = v0->getCanonicalDecl();
    auto it = varIds.find(v);
    if (it != varIds.end()) return it->second;
    int id = vars.size(); varIds[v] = id; vars.push_back("");
    std::string o = "{\"n\":" + esc(v->getName()) + ",\"t\":" + std::to_string(ty(v->getType()));
    if (isa<ParmVarDecl>(v)) o += ",\"param\":1";
    else if (v->isLocalVarDecl()) { if (v->isStaticLocal()) o += ",\"slocal\":1"; }
    else if (v->hasGlobalStorage()) {
      o += ",\"global\":" + esc(qname(v));
      const VarDecl *def = nullptr;
      const Expr *init = v->getAnyInitializer(def);
      if (init && inRoots(v->getLocation()) && !init->isValueDependent()) o += ",\"i\":" + expr(init);
    }
    o += "}";
    vars[id] = o;
    return id;
  }

  // ---- expressions
  std::string head(const char *k, const Expr *e) {
    const char *vc = e->isLValue() ? "l" : e->isXValue() ? "x" : "r";
    return std::string("[\"") + k + "\"," + std::to_string(ty(e->getType())) + ",\"" + vc + "\"," + std::to_string(line(e->getBeginLoc()));
  }
  std::string args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    std::string o = "["; bool f = true;
    for (auto *a : r) { if (!f) o += ","; f = false; o += expr(a); }
    return o + "]";
  }
  std::string expr(const Expr *e) {
    if (!e) return "null";
    // integral constants
    if (e->isPRValue() && !e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<CXXConstructExpr>(e)) {
      Expr::EvalResult R;
      if (e->isCXX11ConstantExpr(C) && e->EvaluateAsInt(R, C) && !R.HasSideEffects)
        return head("int", e) + "," + esc(llvm::toString(R.Val.getInt(), 10)) + "]";
    }
    if (auto *p = dyn_cast<ParenExpr>(e)) return expr(p->getSubExpr());
    if (auto *p = dyn_cast<ExprWithCleanups>(e)) return expr(p->getSubExpr());
    if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(p->getSubExpr());
    if (auto *p = dyn_cast<ConstantExpr>(e)) return expr(p->getSubExpr());
    if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(p->getReplacement());
    if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) return expr(p->getExpr());
    if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) return expr(p->getExpr());
    if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e)) return head("mat", e) + "," + expr(p->getSubExpr()) + "]";
    if (auto *p = dyn_cast<FloatingLiteral>(e)) return head("float", e) + "," + esc(std::to_string(p->getValueAsApproximateDouble())) + "]";
    if (auto *p = dyn_cast<StringLiteral>(e)) {
      std::string o = head("str", e) + ",[";
      for (unsigned i = 0; i < p->getLength(); ++i) { if (i) o += ","; int c = p->getCodeUnit(i); if (p->getCharByteWidth() == 1 && c > 127) c -= 256; o += std::to_string(c); }
      return o + "]]";
    }
    if (isa<CXXThisExpr>(e)) return head("this", e) + "]";
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return head("nullptr", e) + "]";
    if (auto *p = dyn_cast<DeclRefExpr>(e)) {
      if (auto *v = dyn_cast<VarDecl>(p->getDecl())) return head("var", e) + "," + std::to_string(var(v)) + "]";
      if (auto *f = dyn_cast<FunctionDecl>(p->getDecl())) return head("fn", e) + "," + std::to_string(fn(f)) + "]";
      if (auto *c = dyn_cast<EnumConstantDecl>(p->getDecl())) return head("int", e) + "," + esc(llvm::toString(c->getInitVal(), 10)) + "]";
      return head("unsup", e) + ",\"DeclRef\"]";
    }
    if (auto *p = dyn_cast<MemberExpr>(e)) {
      if (auto *f = dyn_cast<FieldDecl>(p->getMemberDecl()))
        return head("field", e) + "," + esc(f->getName()) + "," + (p->isArrow() ? "1" : "0") + "," + expr(p->getBase()) + "," + std::to_string(ty(C.getTypeDeclType(f->getParent()))) + "]";
      if (auto *v = dyn_cast<VarDecl>(p->getMemberDecl())) return head("var", e) + "," + std::to_string(var(v)) + "]";
      if (auto *f = dyn_cast<CXXMethodDecl>(p->getMemberDecl())) return head("method", e) + "," + std::to_string(fn(f)) + "," + (p->isArrow() ? "1" : "0") + "," + expr(p->getBase()) + "]";
      return head("unsup", e) + ",\"Member\"]";
    }
    if (auto *p = dyn_cast<ArraySubscriptExpr>(e)) return head("idx", e) + "," + expr(p->getBase()) + "," + expr(p->getIdx()) + "]";
    if (auto *p = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto *f = dyn_cast_or_null<FunctionDecl>(p->getCalleeDecl());
      if (!f) return head("unsup", e) + ",\"OpCall\"]";
      auto *m = dyn_cast<CXXMethodDecl>(f);
      if (m && !m->isStatic()) {
        std::string o = head("mcall", e) + "," + std::to_string(fn(f)) + "," + expr(p->getArg(0)) + ",0,[";
        for (unsigned i = 1; i < p->getNumArgs(); ++i) { if (i > 1) o += ","; o += expr(p->getArg(i)); }
        return o + "],0]";
      }
      return head("call", e) + "," + std::to_string(fn(f)) + "," + args(p->arguments()) + "]";
    }
    if (auto *p = dyn_cast<CXXMemberCallExpr>(e)) {
      auto *f = p->getMethodDecl();
      auto *me = dyn_cast<MemberExpr>(p->getCallee()->IgnoreParens());
      if (!f || !me) return head("unsup", e) + ",\"PtrMemCall\"]";
      bool qual = me->hasQualifier();
      return head("mcall", e) + "," + std::to_string(fn(f)) + "," + expr(me->getBase()) + "," + (me->isArrow() ? "1" : "0") + "," + args(p->arguments()) + "," + (qual ? "1" : "0") + "]";
    }
    if (auto *p = dyn_cast<UserDefinedLiteral>(e)) return head("unsup", e) + ",\"UDL\"]";
    if (auto *p = dyn_cast<CallExpr>(e)) {
      if (auto *pd = dyn_cast<CXXPseudoDestructorExpr>(p->getCallee()->IgnoreParens())) return head("int", e) + ",\"0\"]";
      auto *f = dyn_cast_or_null<FunctionDecl>(p->getCalleeDecl());
      if (f) return head("call", e) + "," + std::to_string(fn(f)) + "," + args(p->arguments()) + "]";
      return head("icall", e) + "," + expr(p->getCallee()) + "," + args(p->arguments()) + "]";
    }
    if (auto *p = dyn_cast<CXXConstructExpr>(e)) {
      std::string o = head("ctor", e) + "," + std::to_string(fn(p->getConstructor())) + ",[";
      bool f = true; for (auto *a : p->arguments()) { if (!f) o += ","; f = false; o += expr(a); }
      return o + "]," + (p->isElidable() ? "1" : "0") + "]";
    }
    if (auto *p = dyn_cast<UnaryOperator>(e)) return head("un", e) + "," + esc(UnaryOperator::getOpcodeStr(p->getOpcode())) + "," + (p->isPostfix() ? "1" : "0") + "," + expr(p->getSubExpr()) + "]";
    if (auto *p = dyn_cast<CompoundAssignOperator>(e)) return head("casg", e) + "," + esc(BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(p->getOpcode()))) + "," + expr(p->getLHS()) + "," + expr(p->getRHS()) + "," + std::to_string(ty(p->getComputationLHSType())) + "," + std::to_string(ty(p->getComputationResultType())) + "]";
    if (auto *p = dyn_cast<BinaryOperator>(e)) return head("bin", e) + "," + esc(p->getOpcodeStr()) + "," + expr(p->getLHS()) + "," + expr(p->getRHS()) + "]";
    if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(p->getSemanticForm());
    if (auto *p = dyn_cast<ConditionalOperator>(e)) return head("cond", e) + "," + expr(p->getCond()) + "," + expr(p->getTrueExpr()) + "," + expr(p->getFalseExpr()) + "]";
    if (auto *p = dyn_cast<CXXDynamicCastExpr>(e)) return head("dyncast", e) + "," + expr(p->getSubExpr()) + "]";
    if (auto *p = dyn_cast<CastExpr>(e)) {
      std::string o = head("cast", e) + "," + esc(p->getCastKindName()) + "," + expr(p->getSubExpr());
      if (p->getCastKind() == CK_DerivedToBase || p->getCastKind() == CK_UncheckedDerivedToBase) {
        o += ",[";
        bool f = true;
        for (auto *b : p->path()) { if (!f) o += ","; f = false; o += std::to_string(ty(b->getType())); }
        o += "]";
      }
      return o + "]";
    }
    if (auto *p = dyn_cast<CXXNewExpr>(e)) return head("new", e) + "," + std::to_string(ty(p->getAllocatedType())) + "," + expr(p->getInitializer()) + "," + (p->isArray() ? expr(p->getArraySize().value_or(nullptr)) : "null") + "]";
    if (auto *p = dyn_cast<CXXDeleteExpr>(e)) return head("delete", e) + "," + expr(p->getArgument()) + "," + (p->isArrayForm() ? "1" : "0") + "]";
    if (auto *p = dyn_cast<CXXThrowExpr>(e)) return head("throw", e) + "," + expr(p->getSubExpr()) + "]";
    if (auto *p = dyn_cast<InitListExpr>(e)) {
      std::string o = head("ilist", e) + ",["; bool f = true;
      for (auto *a : p->inits()) { if (!f) o += ","; f = false; o += expr(a); }
      return o + "]," + (p->hasArrayFiller() ? expr(p->getArrayFiller()) : "null") + "]";
    }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) return head("zero", e) + "]";
    if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e)) return head("stdil", e) + "," + expr(p->getSubExpr()) + "]";
    if (auto *p = dyn_cast<LambdaExpr>(e)) {
      std::string o = head("lambda", e) + ",[";
      bool f = true;
      auto fi = p->getLambdaClass()->field_begin();
      for (auto *ci : p->capture_inits()) { if (!f) o += ","; f = false; o += expr(ci); }
      o += "]]";
      return o;
    }
    if (auto *p = dyn_cast<CXXNoexceptExpr>(e)) return head("int", e) + "," + (p->getValue() ? "\"1\"" : "\"0\"") + "]";
    if (auto *p = dyn_cast<CXXInheritedCtorInitExpr>(e)) return head("unsup", e) + ",\"InheritedCtor\"]";
    return head("unsup", e) + "," + esc(e->getStmtClassName()) + "]";
  }

  // ---- statements
  std::string ln(const Stmt *s) { return std::to_string(line(s->getBeginLoc())); }
  std::string declVar(const VarDecl *v) {
    std::string o = "[" + std::to_string(var(v)) + "," + (v->hasInit() && v->getInit() ? expr(v->getInit()) : std::string("null")) + "]";
    return o;
  }
  std::string stmt(const Stmt *s) {
    if (!s) return "null";
    if (auto *p = dyn_cast<CompoundStmt>(s)) {
      std::string o = "[\"block\"," + ln(s) + ",["; bool f = true;
      for (auto *c : p->body()) { if (!f) o += ","; f = false; o += stmt(c); }
      return o + "]]";
    }
    if (auto *p = dyn_cast<DeclStmt>(s)) {
      std::string o = "[\"decl\"," + ln(s) + ",["; bool f = true;
      for (auto *d : p->decls()) if (auto *v = dyn_cast<VarDecl>(d)) { if (!f) o += ","; f = false; o += declVar(v); }
      return o + "]]";
    }
    if (auto *p = dyn_cast<IfStmt>(s)) {
      return "[\"if\"," + ln(s) + "," + stmt(p->getInit()) + "," + (p->getConditionVariable() ? declVar(p->getConditionVariable()) : std::string("null")) + "," + expr(p->getCond()) + "," + stmt(p->getThen()) + "," + stmt(p->getElse()) + "]";
    }
    if (auto *p = dyn_cast<WhileStmt>(s)) return "[\"while\"," + ln(s) + "," + (p->getConditionVariable() ? declVar(p->getConditionVariable()) : std::string("null")) + "," + expr(p->getCond()) + "," + stmt(p->getBody()) + "]";
    if (auto *p = dyn_cast<DoStmt>(s)) return "[\"do\"," + ln(s) + "," + expr(p->getCond()) + "," + stmt(p->getBody()) + "]";
    if (auto *p = dyn_cast<ForStmt>(s)) return "[\"for\"," + ln(s) + "," + stmt(p->getInit()) + "," + (p->getConditionVariable() ? declVar(p->getConditionVariable()) : std::string("null")) + "," + expr(p->getCond()) + "," + expr(p->getInc()) + "," + stmt(p->getBody()) + "]";
    if (auto *p = dyn_cast<CXXForRangeStmt>(s)) return "[\"forrange\"," + ln(s) + "," + stmt(p->getInit()) + "," + stmt(p->getRangeStmt()) + "," + stmt(p->getBeginStmt()) + "," + stmt(p->getEndStmt()) + "," + expr(p->getCond()) + "," + expr(p->getInc()) + "," + stmt(p->getLoopVarStmt()) + "," + stmt(p->getBody()) + "]";
    if (auto *p = dyn_cast<ReturnStmt>(s)) return "[\"return\"," + ln(s) + "," + expr(p->getRetValue()) + "]";
    if (isa<BreakStmt>(s)) return "[\"break\"," + ln(s) + "]";
    if (isa<ContinueStmt>(s)) return "[\"continue\"," + ln(s) + "]";
    if (isa<NullStmt>(s)) return "[\"null\"," + ln(s) + "]";
    if (auto *p = dyn_cast<SwitchStmt>(s)) return "[\"switch\"," + ln(s) + "," + stmt(p->getInit()) + "," + (p->getConditionVariable() ? declVar(p->getConditionVariable()) : std::string("null")) + "," + expr(p->getCond()) + "," + stmt(p->getBody()) + "]";
    if (auto *p = dyn_cast<CaseStmt>(s)) return "[\"case\"," + ln(s) + "," + expr(p->getLHS()) + "," + stmt(p->getSubStmt()) + "]";
    if (auto *p = dyn_cast<DefaultStmt>(s)) return "[\"default\"," + ln(s) + "," + stmt(p->getSubStmt()) + "]";
    if (auto *p = dyn_cast<GotoStmt>(s)) return "[\"goto\"," + ln(s) + "," + esc(p->getLabel()->getName()) + "]";
    if (auto *p = dyn_cast<LabelStmt>(s)) return "[\"label\"," + ln(s) + "," + esc(p->getName()) + "," + stmt(p->getSubStmt()) + "]";
    if (auto *p = dyn_cast<AttributedStmt>(s)) return stmt(p->getSubStmt());
    if (auto *p = dyn_cast<CXXTryStmt>(s)) {
      std::string o = "[\"try\"," + ln(s) + "," + stmt(p->getTryBlock()) + ",[";
      for (unsigned i = 0; i < p->getNumHandlers(); ++i) {
        if (i) o += ","; auto *h = p->getHandler(i);
        o += "[" + (h->getExceptionDecl() ? std::to_string(var(h->getExceptionDecl())) : std::string("null")) + "," + (h->getExceptionDecl() ? std::to_string(ty(h->getCaughtType())) : std::string("null")) + "," + stmt(h->getHandlerBlock()) + "]";
      }
      return o + "]]";
    }
    if (auto *p = dyn_cast<Expr>(s)) return "[\"expr\"," + ln(s) + "," + expr(p) + "]";
    return "[\"unsup\"," + ln(s) + "," + esc(s->getStmtClassName()) + "]";
  }

  void function(const FunctionDecl *f) {
    std::string o = "{\"fn\":" + std::to_string(fn(f)) + ",\"params\":[";
    for (unsigned i = 0; i < f->getNumParams(); ++i) { if (i) o += ","; o += std::to_string(var(f->getParamDecl(i))); }
    o += "],\"loc\":" + esc(loc(f->getBeginLoc())) + ",\"endline\":" + std::to_string(line(f->getEndLoc()));
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o += ",\"inits\":["; bool ff = true;
      for (auto *i : c->inits()) {
        if (!ff) o += ","; ff = false;
        if (i->isMemberInitializer()) o += "[\"m\"," + esc(i->getMember()->getName()) + "," + std::to_string(ty(i->getMember()->getType()));
        else if (i->isBaseInitializer()) o += "[\"b\"," + std::to_string(ty(QualType(i->getBaseClass(), 0))) + "," + std::to_string(ty(QualType(i->getBaseClass(), 0)));
        else if (i->isDelegatingInitializer()) o += "[\"d\",0,0";
        else o += "[\"?\",0,0";
        o += "," + expr(i->getInit()) + "]";
      }
      o += "]";
    }
    o += ",\"body\":" + stmt(f->getBody()) + "}";
    bodies.push_back(o);
  }
};

struct V : RecursiveASTVisitor<V> {
  X &x; std::set<const FunctionDecl*> seen;
  V(X &x) : x(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->isThisDeclarationADefinition() || f->isDependentContext() || f->isDeleted() || f->isDefaulted()) return true;
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (!x.inRoots(f->getLocation())) return true;
    if (!seen.insert(f).second) return true;
    x.function(f);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *l) {
    auto *f = l->getCallOperator();
    if (f && !f->isDependentContext() && f->hasBody() && x.inRoots(f->getLocation()) && seen.insert(f).second) x.function(f);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal() && x.inRoots(v->getLocation()) && !v->getDeclContext()->isDependentContext() && !v->getType()->isDependentType()) x.var(v);
    return true;
  }
};

static bool HadErr = false; static std::string Errs;
// Clang insists that an explicit specialisation of std::swap repeats the
// noexcept of the primary template; gcc, which builds the library, does not.
// That one diagnostic is ignored; any other error is reported.
struct Diags : DiagnosticConsumer {
  void HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic &d) override {
    if (l < DiagnosticsEngine::Error) return;
    llvm::SmallString<200> m; d.FormatDiagnostic(m);
    if (m.str().contains("missing exception specification")) return;
    HadErr = true;
    if (d.hasSourceManager() && d.getLocation().isValid()) Errs += d.getLocation().printToString(d.getSourceManager()) + ": ";
    Errs += m.str().str() + "\n";
  }
};
struct Cons : ASTConsumer {
  std::string file; Cons(std::string f) : file(f) {}
  void HandleTranslationUnit(ASTContext &C) override {
    X x(C); V v(x); v.TraverseDecl(C.getTranslationUnitDecl());
    x.flushRecs();
    auto &o = llvm::outs();
    o << "{\"file\":" << esc(file) << ",\"err\":" << (HadErr ? 1 : 0) << ",\"errs\":" << esc(Errs);
    auto dump = [&](const char *n, std::vector<std::string> &v) {
      o << ",\n\"" << n << "\":["; bool f = true; for (auto &s : v) { if (!f) o << ",\n"; f = false; o << s; } o << "]";
    };
    x.flushRecs();
    dump("bodies", x.bodies); dump("fns", x.fns); dump("vars", x.vars); dump("recs", x.recs); dump("types", x.types);
    o << "}\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef f) override { return std::make_unique<Cons>(f.str()); }
};
int main(int argc, const char **argv) {
  // extract --root DIR ... FILE -- clang args
  std::string file; std::vector<std::string> args; int i = 1;
  for (; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") { ++i; break; }
    if (a == "--root") { Roots.push_back(argv[++i]); continue; }
    file = a;
  }
  for (; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {file});
  tool.setPrintErrorMessage(false);
  Diags dc; tool.setDiagnosticConsumer(&dc);
  int r = tool.run(tooling::newFrontendActionFactory<Act>().get());
  (void)r;
  return HadErr ? 1 : 0;
}
