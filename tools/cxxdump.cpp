// cxxdump: mechanical extractor.  Parses a driver translation unit (which includes /repo's headers) with clang
// and writes every json:: function reachable from the driver's functions (template instantiations included) as a typed AST.
// Nothing is rewritten here; the verification-condition generator (vcg) consumes this AST.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace J = llvm::json;

static std::string g_out;

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, int> fids;
    std::deque<const FunctionDecl*> work;
    std::map<const ValueDecl*, int> vids;
    std::map<std::string, J::Value> records;
    std::map<std::string, J::Value> enums;
    std::map<std::string, J::Value> globals;
    std::set<const Decl*> gvisited;
    J::Array funcs;

    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.SuppressInlineNamespace = true;
        PP.SuppressUnwrittenScope = true;
        PP.PrintCanonicalTypes = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
    }

    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        os.flush();
        // printQualifiedName prints template args of enclosing specialisations; strip inline namespaces
        size_t p;
        while ((p = s.find("__cxx11::")) != std::string::npos) s.erase(p, 9);
        return s;
    }
    // qualified name without template arguments
    std::string plainname(const NamedDecl* d)
    {
        std::vector<std::string> parts;
        parts.push_back(d->getNameAsString());
        const DeclContext* dc = d->getDeclContext();
        while (dc && !dc->isTranslationUnit()) {
            if (auto* nd = dyn_cast<NamespaceDecl>(dc)) {
                if (!nd->isInline() && !nd->isAnonymousNamespace()) parts.push_back(nd->getNameAsString());
            }
            else if (auto* rd = dyn_cast<RecordDecl>(dc)) parts.push_back(rd->getNameAsString());
            else if (auto* ed = dyn_cast<EnumDecl>(dc)) { if (ed->isScoped()) parts.push_back(ed->getNameAsString()); }
            else if (auto* fd = dyn_cast<FunctionDecl>(dc)) parts.push_back(fd->getNameAsString());
            dc = dc->getParent();
        }
        std::string r;
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!r.empty()) r += "::"; r += *it; }
        return r;
    }
    std::string tstr(QualType t)
    {
        std::string s = t.getCanonicalType().getAsString(PP);
        size_t p;
        while ((p = s.find("__cxx11::")) != std::string::npos) s.erase(p, 9);
        return s;
    }
    void targs(J::Array& a, llvm::ArrayRef<TemplateArgument> args)
    {
        for (auto& x : args) {
            switch (x.getKind()) {
            case TemplateArgument::Type: a.push_back(type(x.getAsType())); break;
            case TemplateArgument::Integral: {
                llvm::SmallString<32> s; x.getAsIntegral().toString(s);
                a.push_back(J::Object { { "k", "const" }, { "v", std::string(s) } });
                break;
            }
            case TemplateArgument::Pack: targs(a, x.pack_elements()); break;
            case TemplateArgument::Template: a.push_back(J::Object { { "k", "tmpl" } }); break;
            default: a.push_back(J::Object { { "k", "other" } }); break;
            }
        }
    }
    J::Value type(QualType t0)
    {
        QualType t = t0.getCanonicalType();
        J::Object o;
        if (t.isConstQualified()) o["const"] = true;
        const Type* p = t.getTypePtr();
        if (p->isDependentType()) { o["k"] = "dep"; return o; }
        if (auto* b = dyn_cast<BuiltinType>(p)) {
            std::string n = tstr(t.getUnqualifiedType());
            if (b->getKind() == BuiltinType::Bool) { o["k"] = "bool"; }
            else if (b->isInteger()) {
                o["k"] = "int";
                o["bits"] = (int64_t)C.getTypeSize(t);
                o["signed"] = b->isSignedInteger();
                o["n"] = n;
            }
            else if (b->isFloatingPoint()) { o["k"] = "float"; o["n"] = n; }
            else if (b->isVoidType()) { o["k"] = "void"; }
            else if (b->isNullPtrType()) { o["k"] = "nullptr"; }
            else { o["k"] = "builtin"; o["n"] = n; }
        }
        else if (auto* r = dyn_cast<LValueReferenceType>(p)) { o["k"] = "ref"; o["to"] = type(r->getPointeeType()); }
        else if (auto* r = dyn_cast<RValueReferenceType>(p)) { o["k"] = "rref"; o["to"] = type(r->getPointeeType()); }
        else if (auto* r = dyn_cast<PointerType>(p)) { o["k"] = "ptr"; o["to"] = type(r->getPointeeType()); }
        else if (auto* r = dyn_cast<EnumType>(p)) {
            o["k"] = "enum"; o["n"] = plainname(r->getDecl());
            enumeration(r->getDecl());
            QualType u = r->getDecl()->getIntegerType();
            o["bits"] = (int64_t)C.getTypeSize(u);
            o["signed"] = u->isSignedIntegerType();
        }
        else if (auto* r = dyn_cast<RecordType>(p)) {
            auto* rd = r->getDecl();
            o["k"] = "rec";
            o["n"] = plainname(rd);
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                J::Array a; targs(a, sp->getTemplateArgs().asArray()); o["a"] = std::move(a);
            }
            if (auto* crd = dyn_cast<CXXRecordDecl>(rd); crd && crd->isLambda()) o["lambda"] = (int64_t)crd->getLambdaManglingNumber();
            record(rd);
        }
        else if (auto* r = dyn_cast<ConstantArrayType>(p)) {
            o["k"] = "arr"; o["to"] = type(r->getElementType()); o["size"] = (int64_t)r->getSize().getZExtValue();
        }
        else if (auto* v = dyn_cast<VectorType>(p)) {
            o["k"] = "vec"; o["bits"] = (int64_t)C.getTypeSize(t);
            o["n"] = (int64_t)v->getNumElements();
        }
        else if (p->isFunctionType()) { o["k"] = "fn"; }
        else { o["k"] = "unk"; o["n"] = tstr(t); }
        return o;
    }
    void enumeration(const EnumDecl* ed)
    {
        if (!ed->getDefinition()) return;
        ed = ed->getDefinition();
        std::string n = plainname(ed);
        if (n.rfind("json::", 0) != 0 && n.rfind("vd::", 0) != 0) return;
        if (enums.count(n)) return;
        J::Array cs;
        for (auto* c : ed->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s); cs.push_back(J::Array { c->getNameAsString(), std::string(s) }); }
        enums.emplace(n, J::Value(nullptr));
        J::Object o { { "consts", std::move(cs) }, { "fixed", ed->isFixed() } };
        o["u"] = type(ed->getIntegerType());
        enums.at(n) = J::Value(std::move(o));
    }
    void record(const RecordDecl* rd)
    {
        if (!rd->getDefinition()) return;
        rd = rd->getDefinition();
        std::string n = plainname(rd);
        if (n.rfind("json::", 0) != 0 && n.rfind("vd::", 0) != 0) return;
        std::string full = tstr(C.getTypeDeclType(rd));
        if (records.count(full)) return;
        records.emplace(full, J::Value(nullptr));
        J::Array fs;
        for (auto* f : rd->fields()) {
            J::Object fo { { "n", f->getNameAsString() }, { "t", type(f->getType()) } };
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        J::Object ro { { "n", n }, { "fields", std::move(fs) } };
        if (rd->isUnion()) ro["union"] = true;
        records.at(full) = J::Value(std::move(ro));
    }
    static const FunctionDecl* definition(const FunctionDecl* f)
    {
        const FunctionDecl* def = nullptr;
        if (f->isDefined(def)) return def;
        if (auto* pat = f->getTemplateInstantiationPattern()) { (void)pat; }
        return f;
    }
    bool wanted(const FunctionDecl* f)
    {
        std::string n = plainname(f);
        // instances whose template arguments are enumerators or long lists of numbers only compute constants: the constant is what is used
        if (auto* fa = n.rfind("json::_reflection::", 0) == 0 ? f->getTemplateSpecializationArgs() : nullptr) {
            unsigned k = 0;
            for (auto& x : fa->asArray()) {
                if (x.getKind() == TemplateArgument::Integral && x.getIntegralType()->isEnumeralType()) return false;
                if (x.getKind() == TemplateArgument::Pack) k += x.pack_size();
            }
            if (k > 32) return false;
        }
        return n.rfind("json::", 0) == 0 || n.rfind("vd::", 0) == 0;
    }
    int fid(const FunctionDecl* f0)
    {
        const FunctionDecl* f = definition(f0);
        auto it = fids.find(f->getCanonicalDecl());
        if (it != fids.end()) return it->second;
        int id = (int)fids.size();
        fids[f->getCanonicalDecl()] = id;
        if (wanted(f)) work.push_back(f);
        return id;
    }
    int vid(const ValueDecl* v)
    {
        v = cast<ValueDecl>(v->getCanonicalDecl());
        auto it = vids.find(v);
        if (it != vids.end()) return it->second;
        int id = (int)vids.size();
        vids[v] = id;
        return id;
    }
    void fnref(J::Object& o, const FunctionDecl* f)
    {
        o["fn"] = fid(f);
        o["q"] = plainname(f);
        J::Array ps;
        for (auto* p : f->parameters()) ps.push_back(type(p->getType()));
        o["pt"] = std::move(ps);
        o["rt"] = type(f->getReturnType());
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = type(C.getTypeDeclType(m->getParent()));
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["mconst"] = true;
            if (m->getRefQualifier() == RQ_RValue) o["mrval"] = true;
            if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
                if (cd->isCopyConstructor()) o["copy"] = true;
                if (cd->isMoveConstructor()) o["move"] = true;
                if (cd->isDefaultConstructor()) o["dflt"] = true;
            }
            if (m->isCopyAssignmentOperator()) o["copyassign"] = true;
            if (m->isMoveAssignmentOperator()) o["moveassign"] = true;
        }
        if (f->isDefaulted()) o["defaulted"] = true;
        if (auto* fa = f->getTemplateSpecializationArgs()) {
            J::Array a; targs(a, fa->asArray()); o["ta"] = std::move(a);
        }
        if (auto* fpt = f->getType()->getAs<FunctionProtoType>()) { if (fpt->isNothrow()) o["nothrow"] = true; }
    }
    void loc(J::Object& o, SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        if (l.isValid()) {
            o["l"] = (int64_t)SM.getExpansionLineNumber(l);
        }
    }
    J::Value kids(std::initializer_list<const Stmt*> xs)
    {
        J::Array a;
        for (auto* x : xs) a.push_back(stmt(x));
        return a;
    }
    J::Value var(const VarDecl* v)
    {
        J::Object o { { "id", vid(v) }, { "n", v->getNameAsString() }, { "t", type(v->getType()) } };
        loc(o, v->getLocation());
        if (v->isConstexpr()) o["constexpr"] = true;
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getInit()) o["init"] = stmt(v->getInit());
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            J::Array bs;
            for (auto* b : dd->bindings()) {
                J::Object bo { { "id", vid(b) }, { "n", b->getNameAsString() }, { "t", type(b->getType()) } };
                if (auto* hv = b->getHoldingVar()) { bo["hold"] = var(hv); }
                else if (b->getBinding()) bo["expr"] = stmt(b->getBinding());
                bs.push_back(std::move(bo));
            }
            o["bindings"] = std::move(bs);
        }
        return o;
    }
    void apval(J::Object& o, const APValue& v, QualType t, int depth = 0)
    {
        if (v.isInt()) { llvm::SmallString<32> s; v.getInt().toString(s); o["i"] = std::string(s); }
        else if (v.isStruct() && depth < 6) {
            J::Array a;
            for (unsigned i = 0; i < v.getStructNumBases(); i++) { J::Object x; apval(x, v.getStructBase(i), t, depth + 1); a.push_back(std::move(x)); }
            for (unsigned i = 0; i < v.getStructNumFields(); i++) { J::Object x; apval(x, v.getStructField(i), t, depth + 1); a.push_back(std::move(x)); }
            o["s"] = std::move(a);
        }
        else if (v.isArray() && depth < 6) {
            J::Array a;
            for (unsigned i = 0; i < v.getArraySize(); i++) {
                J::Object x;
                apval(x, i < v.getArrayInitializedElts() ? v.getArrayInitializedElt(i) : v.getArrayFiller(), t, depth + 1);
                a.push_back(std::move(x));
            }
            o["a"] = std::move(a);
        }
        else if (v.isLValue()) {
            if (auto* e = v.getLValueBase().dyn_cast<const Expr*>()) {
                if (auto* sl = dyn_cast<StringLiteral>(e)) { o["str"] = bytes(sl); }
                else if (auto* pe = dyn_cast<PredefinedExpr>(e)) { if (pe->getFunctionName()) o["str"] = bytes(pe->getFunctionName()); }
            }
            else if (v.isNullPointer()) o["null"] = true;
            o["off"] = (int64_t)v.getLValueOffset().getQuantity();
        }
        else o["opaque"] = true;
    }
    J::Value bytes(const StringLiteral* s)
    {
        J::Array a;
        for (unsigned i = 0; i < s->getLength(); i++) a.push_back((int64_t)s->getCodeUnit(i));
        return a;
    }
    J::Value expr(const Expr* e) { return stmt(e); }
    void constval(J::Object& o, const Expr* e)
    {
        if (e->isValueDependent() || e->isTypeDependent()) return;
        QualType t = e->getType();
        if (!t->isIntegralOrEnumerationType()) return;
        Expr::EvalResult r;
        if (e->isLValue()) {
            return;
        }
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
            llvm::SmallString<32> s; r.Val.getInt().toString(s);
            o["ce"] = std::string(s);
        }
    }
    void global(const VarDecl* v, J::Object& o)
    {
        std::string full = qname(v);
        o["gq"] = plainname(v);
        o["gfull"] = full + "@" + std::to_string(vid(v));
        if (!gvisited.insert(v->getCanonicalDecl()).second) return;
        J::Object g { { "q", plainname(v) }, { "t", type(v->getType()) } };
        const VarDecl* dv = v;
        const Expr* init = v->getAnyInitializer(dv);
        if (init && (v->isConstexpr() || v->getType().isConstQualified()) && !init->isValueDependent()) {
            if (const APValue* av = dv->evaluateValue()) { J::Object x; apval(x, *av, v->getType()); g["val"] = std::move(x); }
        }
        globals.emplace(full + "@" + std::to_string(vid(v)), J::Value(std::move(g)));
    }
    J::Value stmt(const Stmt* s)
    {
        if (!s) return nullptr;
        J::Object o;
        o["k"] = s->getStmtClassName();
        loc(o, s->getBeginLoc());
        if (auto* e = dyn_cast<Expr>(s)) {
            o["t"] = type(e->getType());
            o["vk"] = e->isLValue() ? "l" : e->isXValue() ? "x" : "r";
            constval(o, e);
        }
        if (auto* x = dyn_cast<DeclRefExpr>(s)) {
            const ValueDecl* d = x->getDecl();
            o["n"] = d->getNameAsString();
            if (auto* f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "fn"; fnref(o, f); }
            else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enumc"; llvm::SmallString<32> s2; ec->getInitVal().toString(s2); o["v"] = std::string(s2);
            }
            else if (auto* vd = dyn_cast<VarDecl>(d)) {
                o["id"] = vid(vd);
                if (vd->hasGlobalStorage() && !vd->isStaticLocal()) { o["dk"] = "global"; global(vd, o); }
                else if (vd->isStaticLocal()) { o["dk"] = "global"; global(vd, o); }
                else o["dk"] = isa<ParmVarDecl>(vd) ? "parm" : "var";
            }
            else if (auto* b = dyn_cast<BindingDecl>(d)) { o["dk"] = "binding"; o["id"] = vid(b); }
            else { o["dk"] = "other"; }
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(s)) {
            const ValueDecl* d = x->getMemberDecl();
            o["n"] = d->getNameAsString();
            o["arrow"] = x->isArrow();
            if (auto* f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "method"; fnref(o, f); }
            else if (auto* fd = dyn_cast<FieldDecl>(d)) {
                o["dk"] = "field"; o["fi"] = (int64_t)fd->getFieldIndex(); o["rec"] = type(C.getTypeDeclType(fd->getParent()));
            }
            else if (auto* vd = dyn_cast<VarDecl>(d)) { o["dk"] = "global"; o["id"] = vid(vd); global(vd, o); }
            else o["dk"] = "other";
            o["c"] = kids({ x->getBase() });
            return o;
        }
        if (auto* x = dyn_cast<IntegerLiteral>(s)) { llvm::SmallString<32> v; x->getValue().toString(v, 10, x->getType()->isSignedIntegerType()); o["v"] = std::string(v); return o; }
        if (auto* x = dyn_cast<CharacterLiteral>(s)) { o["v"] = std::to_string((int64_t)x->getValue()); return o; }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(s)) { o["v"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<StringLiteral>(s)) { if (x->getCharByteWidth() == 1) o["v"] = bytes(x); return o; }
        if (auto* x = dyn_cast<FloatingLiteral>(s)) { o["v"] = x->getValueAsApproximateDouble(); return o; }
        if (auto* x = dyn_cast<PredefinedExpr>(s)) { if (x->getFunctionName()) o["v"] = bytes(x->getFunctionName()); return o; }
        if (auto* x = dyn_cast<CastExpr>(s)) {
            o["ck"] = x->getCastKindName();
            if (auto* cf = dyn_cast_or_null<FunctionDecl>(x->getConversionFunction())) { (void)cf; }
            o["c"] = kids({ x->getSubExpr() });
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(s)) { o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["c"] = kids({ x->getSubExpr() }); return o; }
        if (auto* x = dyn_cast<CompoundAssignOperator>(s)) {
            o["op"] = x->getOpcodeStr().str(); o["ct"] = type(x->getComputationResultType()); o["clt"] = type(x->getComputationLHSType());
            o["c"] = kids({ x->getLHS(), x->getRHS() }); return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(s)) { o["op"] = x->getOpcodeStr().str(); o["c"] = kids({ x->getLHS(), x->getRHS() }); return o; }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(s)) {
            if (auto* f = x->getDirectCallee()) fnref(o, f);
            o["oo"] = getOperatorSpelling(x->getOperator());
            if (auto* f = x->getDirectCallee()) o["memop"] = isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
            J::Array a; for (auto* y : x->arguments()) a.push_back(stmt(y)); o["c"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(s)) {
            if (auto* f = x->getMethodDecl()) fnref(o, f);
            J::Array a; a.push_back(stmt(x->getImplicitObjectArgument()));
            auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
            o["arrow"] = me ? me->isArrow() : false;
            for (auto* y : x->arguments()) a.push_back(stmt(y));
            o["c"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(s)) {
            if (auto* f = x->getDirectCallee()) fnref(o, f);
            else o["callee"] = stmt(x->getCallee());
            J::Array a; for (auto* y : x->arguments()) a.push_back(stmt(y)); o["c"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(s)) {
            fnref(o, x->getConstructor());
            o["elidable"] = x->isElidable(); o["list"] = x->isListInitialization();
            o["stdinit"] = x->isStdInitListInitialization();
            J::Array a; for (auto* y : x->arguments()) a.push_back(stmt(y)); o["c"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(s)) { o["c"] = kids({ x->getExpr() }); return o; }
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(s)) { o["c"] = kids({ x->getExpr() }); return o; }
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(s)) { o["c"] = kids({ x->getSubExpr() }); return o; }
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) { o["c"] = kids({ x->getReplacement() }); return o; }
        if (auto* x = dyn_cast<InitListExpr>(s)) {
            const InitListExpr* sem = x->isSemanticForm() ? x : x->getSemanticForm() ? x->getSemanticForm() : x;
            J::Array a; for (unsigned i = 0; i < sem->getNumInits(); i++) a.push_back(stmt(sem->getInit(i))); o["c"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { (void)x; return o; }
        if (auto* x = dyn_cast<CXXNoexceptExpr>(s)) { o["v"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<TypeTraitExpr>(s)) { o["v"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<SizeOfPackExpr>(s)) { (void)x; return o; }
        if (auto* x = dyn_cast<LambdaExpr>(s)) {
            o["rec"] = type(x->getType());
            J::Array caps;
            unsigned i = 0;
            for (auto& c : x->captures()) {
                J::Object co;
                co["this"] = c.capturesThis();
                if (c.capturesVariable()) { co["id"] = vid(cast<ValueDecl>(c.getCapturedVar())); co["byref"] = c.getCaptureKind() == LCK_ByRef; }
                auto inits = x->capture_inits();
                auto itx = inits.begin(); std::advance(itx, i);
                if (itx != inits.end()) co["init"] = stmt(*itx);
                caps.push_back(std::move(co)); i++;
            }
            o["caps"] = std::move(caps);
            J::Array ops;
            if (auto* rd = x->getLambdaClass()) {
                if (auto* ft = rd->getDependentLambdaCallOperator()) {
                    for (auto* sp : ft->specializations()) { J::Object fo; fnref(fo, sp); ops.push_back(std::move(fo)); }
                }
                else if (auto* m = rd->getLambdaCallOperator()) { J::Object fo; fnref(fo, m); ops.push_back(std::move(fo)); }
            }
            o["ops"] = std::move(ops);
            return o;
        }
        // ---- statements
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            J::Array a;
            for (auto* d : x->decls()) {
                if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
            }
            o["vars"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            if (x->isConstexpr()) {
                o["constexpr"] = true;
                if (!x->getCond()->isValueDependent()) {
                    Expr::EvalResult r;
                    if (x->getCond()->EvaluateAsInt(r, C)) {
                        bool v = r.Val.getInt().getBoolValue();
                        o["k"] = "IfConst"; o["v"] = v;
                        o["c"] = kids({ x->getInit(), v ? x->getThen() : x->getElse() });
                        return o;
                    }
                }
            }
            o["init"] = stmt(x->getInit());
            if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
            o["cond"] = stmt(x->getCond()); o["then"] = stmt(x->getThen()); o["else"] = stmt(x->getElse());
            return o;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s)) {
            o["init"] = stmt(x->getInit());
            if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
            o["cond"] = stmt(x->getCond()); o["body"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CaseStmt>(s)) {
            Expr::EvalResult r;
            if (x->getLHS()->EvaluateAsInt(r, C)) { llvm::SmallString<32> v; r.Val.getInt().toString(v); o["v"] = std::string(v); }
            if (x->getRHS() && x->getRHS()->EvaluateAsInt(r, C)) { llvm::SmallString<32> v; r.Val.getInt().toString(v); o["v2"] = std::string(v); }
            o["body"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { o["body"] = stmt(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
            o["cond"] = stmt(x->getCond()); o["body"] = stmt(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) { o["cond"] = stmt(x->getCond()); o["body"] = stmt(x->getBody()); return o; }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            o["init"] = stmt(x->getInit());
            if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
            o["cond"] = stmt(x->getCond()); o["inc"] = stmt(x->getInc()); o["body"] = stmt(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["init"] = stmt(x->getInit());
            o["range"] = stmt(x->getRangeStmt()); o["begin"] = stmt(x->getBeginStmt()); o["end"] = stmt(x->getEndStmt());
            o["cond"] = stmt(x->getCond()); o["inc"] = stmt(x->getInc()); o["lv"] = stmt(x->getLoopVarStmt()); o["body"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["body"] = stmt(x->getTryBlock());
            J::Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); i++) {
                auto* h = x->getHandler(i);
                J::Object ho;
                if (h->getExceptionDecl()) ho["var"] = var(h->getExceptionDecl());
                ho["body"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["handlers"] = std::move(hs);
            return o;
        }
        // default: children in order (CompoundStmt, ReturnStmt, ParenExpr, ExprWithCleanups, ConditionalOperator, ...)
        J::Array a;
        for (auto* ch : s->children()) a.push_back(stmt(ch));
        o["c"] = std::move(a);
        return o;
    }
    void function(const FunctionDecl* f)
    {
        J::Object o;
        fnref(o, f);
        o["id"] = fid(f);
        o["full"] = qname(f);
        o["name"] = f->getNameAsString();
        SourceLocation l = SM.getExpansionLoc(f->getLocation());
        o["file"] = SM.getFilename(l).str();
        o["line"] = (int64_t)SM.getExpansionLineNumber(l);
        if (f->getBody()) o["endline"] = (int64_t)SM.getExpansionLineNumber(SM.getExpansionLoc(f->getEndLoc()));
        J::Array ps;
        for (auto* p : f->parameters()) ps.push_back(J::Object { { "id", vid(p) }, { "n", p->getNameAsString() }, { "t", type(p->getType()) } });
        o["params"] = std::move(ps);
        if (isa<CXXConstructorDecl>(f)) o["kind"] = "ctor";
        else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
        else if (isa<CXXConversionDecl>(f)) o["kind"] = "conv";
        else if (isa<CXXMethodDecl>(f)) o["kind"] = "method";
        else o["kind"] = "func";
        if (f->isDefaulted()) o["defaulted"] = true;
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
            J::Array is;
            for (auto* in : cd->inits()) {
                J::Object io;
                if (in->isAnyMemberInitializer()) { io["m"] = in->getAnyMember()->getNameAsString(); io["fi"] = (int64_t)in->getAnyMember()->getFieldIndex(); }
                else if (in->isDelegatingInitializer()) io["deleg"] = true;
                else io["base"] = true;
                io["written"] = in->isWritten();
                io["e"] = stmt(in->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (f->hasBody() && f->getBody()) o["body"] = stmt(f->getBody());
        funcs.push_back(std::move(o));
    }
    void run()
    {
        // roots: every non-dependent function with a body in namespace vd (the driver's) or, when explicitly
        // instantiated by it, any member of a class template specialisation in json::
        struct V : RecursiveASTVisitor<V> {
            Dumper& D;
            V(Dumper& d) : D(d) {}
            bool shouldVisitTemplateInstantiations() const { return true; }
            bool shouldVisitImplicitCode() const { return true; }
            bool VisitFunctionDecl(FunctionDecl* f)
            {
                if (f->isDependentContext() || !f->doesThisDeclarationHaveABody() || f->isDeleted()) return true;
                std::string n = D.plainname(f);
                if (n.rfind("vd::", 0) == 0) { D.fid(f); return true; }
                if (n.rfind("json::", 0) == 0) D.fid(f);
                return true;
            }
        } v(*this);
        v.TraverseDecl(C.getTranslationUnitDecl());
        while (!work.empty()) {
            const FunctionDecl* f = work.front();
            work.pop_front();
            if (f->isDependentContext()) continue;
            function(f);
        }
        J::Object recs;
        for (auto& r : records) recs[r.first] = r.second;
        J::Object gl;
        for (auto& r : globals) gl[r.first] = r.second;
        J::Object es;
        for (auto& r : enums) es[r.first] = r.second;
        J::Object top { { "funcs", std::move(funcs) }, { "enums", std::move(es) }, { "records", std::move(recs) }, { "globals", std::move(gl) } };
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << J::Value(std::move(top));
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& c) override
    {
        if (c.getDiagnostics().hasErrorOccurred()) return;
        Dumper(c).run();
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char** argv)
{
    // cxxdump OUT FILE -- flags...
    if (argc < 4) return 2;
    g_out = argv[1];
    std::vector<std::string> flags;
    int i = 3;
    if (std::string(argv[i]) == "--") i++;
    for (; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, { argv[2] });
    struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } f;
    return tool.run(&f);
}
