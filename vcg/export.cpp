// AST exporter: dumps the resolved bodies of the functions defined under a
// source root as JSON.  Nothing is abstracted away here except: parentheses,
// no-op/lvalue-to-rvalue casts, temporaries' materialisation nodes, source
// locations other than the line, and expressions that the compiler itself can
// evaluate to a constant (which are replaced by that constant).
//   export <root-prefix> <out.json> <file> -- <clang args>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecordLayout.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> gRoots;
static std::string gOut;

struct Ex
{
    ASTContext& C;
    std::map<const void*, int> typeIds;
    std::vector<J::Value> types;
    std::map<const Decl*, int> declIds;
    std::map<int, J::Value> records;
    std::set<const RecordDecl*> recDone;
    std::map<int, J::Value> globals;
    std::vector<J::Value> functions;
    std::set<const FunctionDecl*> fnDone;
    explicit Ex(ASTContext& c) : C(c) {}

    int declId(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end()) return it->second;
        int id = declIds.size() + 1;
        declIds[d] = id;
        return id;
    }
    bool userLoc(SourceLocation l)
    {
        auto& SM = C.getSourceManager();
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l);
        for (auto& r : gRoots)
            if (f.starts_with(r)) return true;
        // relative paths are inside the root (we run with absolute file names)
        return false;
    }
    bool sysLoc(SourceLocation l)
    {
        auto& SM = C.getSourceManager();
        auto f = SM.getFilename(SM.getExpansionLoc(l));
        return f.starts_with("/usr/");
    }
    int line(SourceLocation l)
    {
        return C.getSourceManager().getExpansionLineNumber(l);
    }
    int type(QualType q)
    {
        if (q.isNull()) return -1;
        bool cst = q.getNonReferenceType().isConstQualified();
        QualType c = q.getCanonicalType();
        const void* key = c.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = types.size();
        typeIds[key] = id;
        types.push_back(nullptr);
        J::Object o;
        if (cst || c.isConstQualified()) o["c"] = true;
        const Type* t = c.getTypePtr();
        PrintingPolicy pp(C.getLangOpts());
        o["s"] = c.getAsString(pp);
        if (auto b = dyn_cast<BuiltinType>(t))
        {
            o["k"] = "b";
            o["n"] = b->getName(pp).str();
            if (c->isIntegerType())
            {
                o["w"] = (int64_t)C.getTypeSize(c);
                o["u"] = c->isUnsignedIntegerType();
            }
        }
        else if (auto p = dyn_cast<PointerType>(t))
        {
            o["k"] = "ptr";
            o["e"] = type(p->getPointeeType());
        }
        else if (auto r = dyn_cast<ReferenceType>(t))
        {
            o["k"] = "ref";
            o["e"] = type(r->getPointeeType());
        }
        else if (auto r = dyn_cast<RecordType>(t))
        {
            o["k"] = "rec";
            auto rd = r->getDecl();
            o["q"] = rd->getQualifiedNameAsString();
            if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
            {
                J::Array a;
                targs(a, sp->getTemplateArgs().asArray());
                o["args"] = std::move(a);
            }
            o["id"] = declId(rd);
            if (auto cx = dyn_cast<CXXRecordDecl>(rd))
                if (cx->isLambda()) o["lambda"] = true;
            record(rd);
        }
        else if (auto e = dyn_cast<EnumType>(t))
        {
            o["k"] = "enum";
            o["q"] = e->getDecl()->getQualifiedNameAsString();
            o["u"] = c->isUnsignedIntegerOrEnumerationType();
            o["w"] = (int64_t)C.getTypeSize(c);
        }
        else if (auto a = dyn_cast<ConstantArrayType>(t))
        {
            o["k"] = "arr";
            o["e"] = type(a->getElementType());
            o["n"] = (int64_t)a->getSize().getZExtValue();
        }
        else if (auto a = dyn_cast<ArrayType>(t))
        {
            o["k"] = "arr";
            o["e"] = type(a->getElementType());
        }
        else if (auto m = dyn_cast<MemberPointerType>(t))
        {
            o["k"] = "mptr";
            o["e"] = type(m->getPointeeType());
        }
        else if (auto f = dyn_cast<FunctionProtoType>(t))
        {
            o["k"] = "fn";
            o["r"] = type(f->getReturnType());
        }
        else
        {
            o["k"] = "other";
            o["n"] = t->getTypeClassName();
        }
        types[id] = std::move(o);
        return id;
    }
    void targs(J::Array& a, llvm::ArrayRef<TemplateArgument> as)
    {
        for (auto& x : as)
        {
            if (x.getKind() == TemplateArgument::Type)
                a.push_back(J::Object{{"t", type(x.getAsType())}});
            else if (x.getKind() == TemplateArgument::Integral)
                a.push_back(J::Object{{"i", x.getAsIntegral().getExtValue()}});
            else if (x.getKind() == TemplateArgument::Pack)
                targs(a, x.pack_elements());
            else
                a.push_back(J::Object{{"x", (int)x.getKind()}});
        }
    }
    void record(const RecordDecl* rd)
    {
        rd = rd->getDefinition();
        if (!rd || recDone.count(rd)) return;
        recDone.insert(rd);
        bool isPtrLikeSys = sysLoc(rd->getLocation());
        if (isPtrLikeSys) return; // library types are modelled, not inlined
        auto cx = dyn_cast<CXXRecordDecl>(rd);
        if (cx && cx->isLambda()) return;
        J::Object o;
        o["q"] = rd->getQualifiedNameAsString();
        o["union"] = rd->isUnion();
        J::Array fs;
        for (auto f : rd->fields())
        {
            J::Object fo;
            fo["n"] = f->getNameAsString();
            fo["id"] = declId(f);
            fo["t"] = type(f->getType());
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        o["size"] = rd->isDependentType() || rd->isInvalidDecl() ? 0 : (int64_t)C.getASTRecordLayout(rd).getSize().getQuantity();
        J::Array bs;
        if (cx)
        {
            for (auto& b : cx->bases()) bs.push_back(type(b.getType()));
            o["poly"] = cx->isPolymorphic();
            o["abstract"] = cx->isAbstract();
            o["agg"] = cx->isAggregate();
            J::Array ms;
            for (auto m : cx->methods())
            {
                J::Object mo;
                mo["n"] = m->getNameAsString();
                mo["id"] = declId(m);
                mo["virt"] = m->isVirtual();
                mo["pure"] = m->isPureVirtual();
                mo["def"] = m->isDefaulted();
                J::Array ov;
                for (auto x : m->overridden_methods()) ov.push_back(declId(x));
                mo["over"] = std::move(ov);
                ms.push_back(std::move(mo));
            }
            o["methods"] = std::move(ms);
        }
        o["bases"] = std::move(bs);
        records.emplace(declId(rd), J::Value(std::move(o)));
    }

    // ---------------------------------------------------------------- exprs
    static std::string hexd(const llvm::APFloat& f)
    {
        bool li;
        llvm::APFloat g = f;
        g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
        if (g.isNaN()) return "nan";
        if (g.isInfinity()) return g.isNegative() ? "-inf" : "inf";
        char buf[64];
        snprintf(buf, sizeof buf, "%a", g.convertToDouble());
        return buf;
    }
    bool konst(const Expr* e, J::Value& out)
    {
        if (e->isValueDependent() || e->isTypeDependent()) return false;
        QualType t = e->getType().getCanonicalType();
        if (t.isNull()) return false;
        bool scalar = t->isIntegralOrEnumerationType() || t->isRealFloatingType();
        bool cptr = t->isPointerType() && t->getPointeeType()->isCharType();
        if (!scalar && !cptr) return false;
        if (isa<CXXThisExpr>(e) || isa<LambdaExpr>(e)) return false;
        if (e->isLValue() && !isa<DeclRefExpr>(e) && !isa<MemberExpr>(e) && !isa<StringLiteral>(e)) return false;
        if (e->isLValue() && !t.isConstQualified() && !isa<StringLiteral>(e)) return false;
        Expr::EvalResult r;
        if (!e->EvaluateAsRValue(r, C, true) || r.HasSideEffects) return false;
        if (scalar)
        {
            if (r.Val.isInt())
            {
                llvm::SmallString<32> s;
                r.Val.getInt().toString(s, 10);
                if (t->isBooleanType())
                    out = J::Object{{"k", "bool"}, {"v", r.Val.getInt() != 0}, {"t", type(e->getType())}};
                else
                    out = J::Object{{"k", "int"}, {"v", std::string(s)}, {"t", type(e->getType())}};
                return true;
            }
            if (r.Val.isFloat())
            {
                out = J::Object{{"k", "dbl"}, {"v", hexd(r.Val.getFloat())}, {"t", type(e->getType())}};
                return true;
            }
            return false;
        }
        if (r.Val.isLValue())
        {
            if (r.Val.isNullPointer())
            {
                out = J::Object{{"k", "null"}, {"t", type(e->getType())}};
                return true;
            }
            auto base = r.Val.getLValueBase();
            if (auto be = base.dyn_cast<const Expr*>())
                if (auto sl = dyn_cast<StringLiteral>(be))
                    if (r.Val.getLValueOffset().isZero())
                    {
                        out = strlit(sl, e->getType());
                        return true;
                    }
        }
        return false;
    }
    J::Value strlit(const StringLiteral* sl, QualType t)
    {
        std::string s;
        if (sl->getCharByteWidth() == 1) s = sl->getBytes().str();
        return J::Object{{"k", "str"}, {"v", llvm::json::fixUTF8(s)}, {"t", type(t)}};
    }
    J::Value fnref(const FunctionDecl* f)
    {
        J::Object o;
        o["q"] = f->getQualifiedNameAsString();
        o["id"] = declId(f);
        o["nr"] = f->isNoReturn();
        if (auto a = f->getTemplateSpecializationArgs())
        {
            J::Array ar;
            targs(ar, a->asArray());
            o["ta"] = std::move(ar);
        }
        if (auto m = dyn_cast<CXXMethodDecl>(f))
        {
            o["m"] = true;
            o["static"] = m->isStatic();
            o["virt"] = m->isVirtual();
            o["const"] = m->isConst();
            o["cls"] = type(C.getRecordType(m->getParent()));
            if (m->isCopyAssignmentOperator()) o["casg"] = true;
            if (m->isMoveAssignmentOperator()) o["masg"] = true;
            o["defd"] = m->isDefaulted();
        }
        J::Array pt;
        for (auto p : f->parameters()) pt.push_back(type(p->getType()));
        o["pt"] = std::move(pt);
        o["rt"] = type(f->getReturnType());
        maybeFn(f);
        return o;
    }
    void maybeFn(const FunctionDecl* f)
    {
        const FunctionDecl* def = nullptr;
        if (!f->hasBody(def)) 
        {
            return;
        }
        if (fnDone.count(def)) return;
        if (!userLoc(def->getLocation())) return;
        fnDone.insert(def);
        pending.push_back(def);
    }
    std::vector<const FunctionDecl*> pending;

    J::Value args(const Expr* const* b, unsigned n)
    {
        J::Array a;
        for (unsigned i = 0; i < n; ++i) a.push_back(expr(b[i]));
        return a;
    }
    J::Value E(const char* k, const Expr* e, J::Object o)
    {
        o["k"] = k;
        o["t"] = type(e->getType());
        o["l"] = line(e->getBeginLoc());
        if (e->isGLValue()) o["lv"] = true;
        return o;
    }
    J::Value varref(const ValueDecl* v, const Expr* e)
    {
        J::Object o;
        o["d"] = declId(v);
        o["n"] = v->getNameAsString();
        if (auto f = dyn_cast<FunctionDecl>(v))
        {
            o["fn"] = fnref(f);
            return E("fref", e, std::move(o));
        }
        if (auto vd = dyn_cast<VarDecl>(v))
        {
            if (vd->hasGlobalStorage())
            {
                o["g"] = true;
                o["q"] = vd->getQualifiedNameAsString();
                global(vd);
            }
        }
        return E("var", e, std::move(o));
    }
    void global(const VarDecl* vd)
    {
        int id = declId(vd);
        if (globals.count(id)) return;
        globals.emplace(id, nullptr);
        J::Object g;
        g["q"] = vd->getQualifiedNameAsString();
        g["t"] = type(vd->getType());
        g["const"] = vd->getType().isConstQualified() || vd->isConstexpr();
        g["local"] = vd->isStaticLocal();
        if (auto d = vd->getAnyInitializer())
            if (!sysLoc(vd->getLocation())) g["init"] = expr(d);
        globals.find(id)->second = std::move(g);
    }
    J::Value expr(const Expr* e)
    {
        if (!e) return nullptr;
        // strip
        for (;;)
        {
            if (auto p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto p = dyn_cast<FullExpr>(e)) { if (isa<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; } }
            if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
            if (auto p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
            break;
        }
        if (auto p = dyn_cast<CXXDefaultInitExpr>(e)) return J::Object{{"k", "dfi"}, {"t", type(e->getType())}, {"e", expr(p->getExpr())}};
        J::Value kv = nullptr;
        if (konst(e, kv)) return kv;
        if (auto p = dyn_cast<ConstantExpr>(e)) return expr(p->getSubExpr());
        if (auto c = dyn_cast<CastExpr>(e))
        {
            switch (c->getCastKind())
            {
                case CK_LValueToRValue:
                case CK_NoOp:
                case CK_FunctionToPointerDecay:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                    return expr(c->getSubExpr());
                default:
                    return E("cast", e, J::Object{{"ck", c->getCastKindName()}, {"e", expr(c->getSubExpr())}});
            }
        }
        if (auto s = dyn_cast<StringLiteral>(e)) return strlit(s, e->getType());
        if (auto d = dyn_cast<DeclRefExpr>(e)) return varref(d->getDecl(), e);
        if (isa<CXXThisExpr>(e)) return E("this", e, J::Object{});
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return E("null", e, J::Object{});
        if (auto m = dyn_cast<MemberExpr>(e))
        {
            if (auto vd = dyn_cast<VarDecl>(m->getMemberDecl())) return varref(vd, e);
            if (auto fd = dyn_cast<FunctionDecl>(m->getMemberDecl()))
                return E("mfref", e, J::Object{{"b", expr(m->getBase())}, {"arrow", m->isArrow()}, {"fn", fnref(fd)}});
            return E("mem", e, J::Object{{"b", expr(m->getBase())}, {"arrow", m->isArrow()}, {"n", m->getMemberDecl()->getNameAsString()}, {"d", declId(m->getMemberDecl())}});
        }
        if (auto o = dyn_cast<CXXOperatorCallExpr>(e))
        {
            auto f = o->getDirectCallee();
            J::Object x{{"op", getOperatorSpelling(o->getOperator())}, {"args", args(o->getArgs(), o->getNumArgs())}};
            if (f) x["fn"] = fnref(f);
            return E("ocall", e, std::move(x));
        }
        if (auto m = dyn_cast<CXXMemberCallExpr>(e))
        {
            J::Object x;
            auto f = m->getMethodDecl();
            if (f) x["fn"] = fnref(f);
            auto me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParens());
            if (me)
            {
                x["obj"] = expr(me->getBase());
                x["arrow"] = me->isArrow();
                x["qual"] = me->hasQualifier();
            }
            x["args"] = args(m->getArgs(), m->getNumArgs());
            return E("mcall", e, std::move(x));
        }
        if (auto c = dyn_cast<CallExpr>(e))
        {
            J::Object x;
            if (auto f = c->getDirectCallee()) x["fn"] = fnref(f);
            else x["f"] = expr(c->getCallee());
            x["args"] = args(c->getArgs(), c->getNumArgs());
            return E("call", e, std::move(x));
        }
        if (auto c = dyn_cast<CXXConstructExpr>(e))
        {
            auto k = c->getConstructor();
            return E("ctor", e, J::Object{{"fn", fnref(k)}, {"args", args(c->getArgs(), c->getNumArgs())},
                 {"copy", k->isCopyOrMoveConstructor()}, {"def", k->isDefaultConstructor()}, {"trivial", k->isTrivial()},
                 {"user", k->isUserProvided()}, {"zero", c->requiresZeroInitialization()}, {"list", c->isListInitialization()}, {"silist", c->isStdInitListInitialization()}});
        }
        if (auto c = dyn_cast<CXXInheritedCtorInitExpr>(e)) return E("unsup", e, J::Object{{"n", "CXXInheritedCtorInitExpr"}});
        if (auto b = dyn_cast<CompoundAssignOperator>(e))
            return E("casg", e, J::Object{{"op", b->getOpcodeStr().drop_back(1).str()}, {"a", expr(b->getLHS())}, {"b", expr(b->getRHS())}, {"ct", type(b->getComputationResultType())}, {"clt", type(b->getComputationLHSType())}});
        if (auto b = dyn_cast<BinaryOperator>(e))
        {
            J::Object x{{"op", b->getOpcodeStr().str()}, {"a", expr(b->getLHS())}, {"b", expr(b->getRHS())}};
            return E("bin", e, std::move(x));
        }
        if (auto r = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(r->getSemanticForm());
        if (auto u = dyn_cast<UnaryOperator>(e))
            return E("un", e, J::Object{{"op", UnaryOperator::getOpcodeStr(u->getOpcode()).str()}, {"post", u->isPostfix()}, {"e", expr(u->getSubExpr())}});
        if (auto c = dyn_cast<ConditionalOperator>(e))
            return E("cond", e, J::Object{{"c", expr(c->getCond())}, {"a", expr(c->getTrueExpr())}, {"b", expr(c->getFalseExpr())}});
        if (auto a = dyn_cast<ArraySubscriptExpr>(e))
            return E("sub", e, J::Object{{"b", expr(a->getBase())}, {"i", expr(a->getIdx())}});
        if (auto i = dyn_cast<InitListExpr>(e))
        {
            if (i->isSemanticForm() == false && i->getSemanticForm()) i = i->getSemanticForm();
            J::Array a;
            for (auto x : i->inits()) a.push_back(expr(x));
            J::Object o{{"a", std::move(a)}};
            if (i->hasArrayFiller()) o["fill"] = expr(i->getArrayFiller());
            return E("ilist", e, std::move(o));
        }
        if (auto s = dyn_cast<CXXStdInitializerListExpr>(e)) return E("silist", e, J::Object{{"e", expr(s->getSubExpr())}});
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return E("zero", e, J::Object{});
        if (auto l = dyn_cast<LambdaExpr>(e))
        {
            J::Array caps;
            auto ii = l->capture_init_begin();
            for (auto& c : l->captures())
            {
                J::Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable())
                {
                    co["d"] = declId(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    co["t"] = type(c.getCapturedVar()->getType());
                }
                co["init"] = expr(*ii);
                ++ii;
                caps.push_back(std::move(co));
            }
            J::Object o{{"caps", std::move(caps)}};
            auto rec = l->getLambdaClass();
            if (rec->isGenericLambda())
            {
                // export every instantiated call operator
                J::Array ops;
                if (auto ft = l->getDependentCallOperator())
                    for (auto s : ft->specializations())
                        ops.push_back(fnbody(s));
                o["ops"] = std::move(ops);
            }
            else
            {
                J::Array ops;
                ops.push_back(fnbody(l->getCallOperator()));
                o["ops"] = std::move(ops);
            }
            o["mut"] = l->isMutable();
            return E("lam", e, std::move(o));
        }
        if (auto n = dyn_cast<CXXNewExpr>(e)) return E("new", e, J::Object{{"at", type(n->getAllocatedType())}, {"init", n->getInitializer() ? expr(n->getInitializer()) : J::Value(nullptr)}});
        if (auto n = dyn_cast<CXXDeleteExpr>(e)) return E("delete", e, J::Object{{"e", expr(n->getArgument())}});
        if (auto t = dyn_cast<CXXThrowExpr>(e)) return E("throw", e, J::Object{{"e", t->getSubExpr() ? expr(t->getSubExpr()) : J::Value(nullptr)}});
        if (auto r = dyn_cast<CXXNoexceptExpr>(e)) return E("unsup", e, J::Object{{"n", "noexcept"}});
        return E("unsup", e, J::Object{{"n", e->getStmtClassName()}});
    }

    // ---------------------------------------------------------------- stmts
    J::Value var(const VarDecl* v)
    {
        J::Object o;
        o["d"] = declId(v);
        o["n"] = v->getNameAsString();
        o["t"] = type(v->getType());
        if (v->isStaticLocal())
        {
            o["static"] = true;
            global(v);
        }
        o["init"] = v->getInit() ? expr(v->getInit()) : J::Value(nullptr);
        if (auto dd = dyn_cast<DecompositionDecl>(v))
        {
            J::Array b;
            for (auto x : dd->bindings()) b.push_back(J::Object{{"d", declId(x)}, {"n", x->getNameAsString()}, {"t", type(x->getType())}});
            o["bind"] = std::move(b);
        }
        return o;
    }
    J::Value S(const char* k, const Stmt* s, J::Object o)
    {
        o["k"] = k;
        o["l"] = line(s->getBeginLoc());
        return o;
    }
    J::Value stmt(const Stmt* s)
    {
        if (!s) return nullptr;
        if (auto e = dyn_cast<Expr>(s)) return S("expr", s, J::Object{{"e", expr(e)}});
        if (auto c = dyn_cast<CompoundStmt>(s))
        {
            J::Array a;
            for (auto x : c->body()) a.push_back(stmt(x));
            return S("block", s, J::Object{{"b", std::move(a)}});
        }
        if (auto d = dyn_cast<DeclStmt>(s))
        {
            J::Array a;
            for (auto x : d->decls())
                if (auto v = dyn_cast<VarDecl>(x)) a.push_back(var(v));
            return S("decl", s, J::Object{{"v", std::move(a)}});
        }
        if (auto i = dyn_cast<IfStmt>(s))
        {
            J::Object o;
            if (i->getInit()) o["init"] = stmt(i->getInit());
            if (i->getConditionVariable()) o["var"] = var(i->getConditionVariable());
            o["c"] = expr(i->getCond());
            o["then"] = stmt(i->getThen());
            o["else"] = stmt(i->getElse());
            o["constexpr"] = i->isConstexpr();
            return S("if", s, std::move(o));
        }
        if (auto f = dyn_cast<ForStmt>(s))
            return S("for", s, J::Object{{"init", stmt(f->getInit())}, {"c", expr(f->getCond())}, {"inc", expr(f->getInc())}, {"body", stmt(f->getBody())}});
        if (auto w = dyn_cast<WhileStmt>(s))
        {
            J::Object o;
            if (w->getConditionVariable()) o["var"] = var(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            return S("while", s, std::move(o));
        }
        if (auto w = dyn_cast<DoStmt>(s)) return S("do", s, J::Object{{"c", expr(w->getCond())}, {"body", stmt(w->getBody())}});
        if (auto r = dyn_cast<CXXForRangeStmt>(s))
        {
            J::Object o;
            if (r->getInit()) o["init"] = stmt(r->getInit());
            o["var"] = var(r->getLoopVariable());
            o["range"] = expr(r->getRangeInit());
            o["body"] = stmt(r->getBody());
            return S("rfor", s, std::move(o));
        }
        if (auto w = dyn_cast<SwitchStmt>(s))
        {
            J::Object o;
            o["c"] = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            return S("switch", s, std::move(o));
        }
        if (auto c = dyn_cast<CaseStmt>(s)) return S("case", s, J::Object{{"v", expr(c->getLHS())}, {"s", stmt(c->getSubStmt())}});
        if (auto c = dyn_cast<DefaultStmt>(s)) return S("default", s, J::Object{{"s", stmt(c->getSubStmt())}});
        if (isa<BreakStmt>(s)) return S("break", s, J::Object{});
        if (isa<ContinueStmt>(s)) return S("continue", s, J::Object{});
        if (auto r = dyn_cast<ReturnStmt>(s)) return S("return", s, J::Object{{"e", expr(r->getRetValue())}});
        if (auto t = dyn_cast<CXXTryStmt>(s))
        {
            J::Array h;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i)
            {
                auto c = t->getHandler(i);
                J::Object o;
                if (c->getExceptionDecl()) { o["var"] = var(c->getExceptionDecl()); }
                if (!c->getCaughtType().isNull()) o["t"] = type(c->getCaughtType().getNonReferenceType());
                o["body"] = stmt(c->getHandlerBlock());
                h.push_back(std::move(o));
            }
            return S("try", s, J::Object{{"body", stmt(t->getTryBlock())}, {"h", std::move(h)}});
        }
        if (isa<NullStmt>(s)) return S("null", s, J::Object{});
        if (auto a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
        if (auto l = dyn_cast<LabelStmt>(s)) return stmt(l->getSubStmt());
        return S("unsup", s, J::Object{{"n", s->getStmtClassName()}});
    }
    J::Value fnbody(const FunctionDecl* f)
    {
        J::Object o;
        o["q"] = f->getQualifiedNameAsString();
        o["id"] = declId(f);
        o["l"] = line(f->getLocation());
        auto& SM = C.getSourceManager();
        o["file"] = SM.getFilename(SM.getExpansionLoc(f->getLocation())).str();
        J::Array ps;
        for (auto p : f->parameters()) ps.push_back(var(p));
        o["params"] = std::move(ps);
        o["rt"] = type(f->getReturnType());
        if (auto a = f->getTemplateSpecializationArgs())
        {
            J::Array ar;
            targs(ar, a->asArray());
            o["ta"] = std::move(ar);
        }
        if (auto m = dyn_cast<CXXMethodDecl>(f))
        {
            o["m"] = true;
            o["static"] = m->isStatic();
            o["const"] = m->isConst();
            o["cls"] = type(C.getRecordType(m->getParent()));
            J::Array ov;
            for (auto x : m->overridden_methods()) ov.push_back(declId(x));
            o["over"] = std::move(ov);
        }
        o["defaulted"] = f->isDefaulted();
        if (auto k = dyn_cast<CXXConstructorDecl>(f))
        {
            o["ctor"] = true;
            J::Array is;
            for (auto i : k->inits())
            {
                J::Object x;
                if (i->isAnyMemberInitializer()) { x["f"] = i->getAnyMember()->getNameAsString(); x["d"] = declId(i->getAnyMember()); }
                else if (i->isBaseInitializer()) x["base"] = type(QualType(i->getBaseClass(), 0));
                else x["deleg"] = true;
                x["written"] = i->isWritten();
                x["e"] = expr(i->getInit());
                is.push_back(std::move(x));
            }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        o["static_linkage"] = f->getStorageClass() == SC_Static;
        o["body"] = stmt(f->getBody());
        return o;
    }
};

struct V : RecursiveASTVisitor<V>
{
    Ex& x;
    explicit V(Ex& e) : x(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (f->isDependentContext() || f->isTemplated() && f->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
        if (auto m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda()) return true;
        x.maybeFn(f);
        return true;
    }
};
struct Cons : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Ex x(C);
        V v(x);
        v.TraverseDecl(C.getTranslationUnitDecl());
        J::Array fs;
        for (size_t i = 0; i < x.pending.size(); ++i) fs.push_back(x.fnbody(x.pending[i]));
        J::Object recs, gl;
        for (auto& [k, r] : x.records) recs[std::to_string(k)] = std::move(r);
        for (auto& [k, r] : x.globals) gl[std::to_string(k)] = std::move(r);
        J::Array ty;
        for (auto& t : x.types) ty.push_back(std::move(t));
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << J::Value(J::Object{{"functions", std::move(fs)}, {"records", std::move(recs)}, {"globals", std::move(gl)}, {"types", std::move(ty)}});
    }
};
struct Act : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char** argv)
{
    if (argc < 5) { llvm::errs() << "usage: export roots out file -- args\n"; return 2; }
    std::string r = argv[1];
    size_t p = 0;
    while (p <= r.size()) { auto q = r.find(':', p); if (q == std::string::npos) q = r.size(); gRoots.push_back(r.substr(p, q - p)); p = q + 1; }
    gOut = argv[2];
    std::string file = argv[3];
    std::vector<std::string> a;
    for (int i = 5; i < argc; ++i) a.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", a);
    tooling::ClangTool tool(db, {file});
    tool.clearArgumentsAdjusters();
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
