// hsmfacts: extracts a resolved-program model (typed expression graph + CFG) from C++ sources.
// Output: one JSON document per translation unit on stdout.
// Only functions/classes whose definition lies below one of the --root directories are emitted.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Comment.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gRoots;

namespace {

class Extractor : public RecursiveASTVisitor<Extractor> {
public:
    Extractor(ASTContext& ctx) : C(ctx), SM(ctx.getSourceManager()), PP(ctx.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation l) {
        if (l.isInvalid()) return "";
        l = SM.getExpansionLoc(l);
        FileID f = SM.getFileID(l);
        auto e = SM.getFileEntryRefForID(f);
        if (!e) return "";
        return std::string(e->getFileEntry().tryGetRealPathName());
    }
    int lineOf(SourceLocation l) { return l.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(l); }
    int colOf(SourceLocation l) { return l.isInvalid() ? 0 : (int)SM.getExpansionColumnNumber(l); }
    bool inRoots(const std::string& f) {
        for (auto& r : gRoots)
            if (f.rfind(r, 0) == 0) return true;
        return false;
    }
    std::string typeStr(QualType t) {
        if (t.isNull()) return "";
        return t.getCanonicalType().getAsString(PP);
    }
    std::string recOf(QualType t) {
        if (t.isNull()) return "";
        t = t.getCanonicalType();
        while (true) {
            if (t->isReferenceType() || t->isPointerType()) t = t->getPointeeType();
            else break;
        }
        if (auto* r = t->getAsCXXRecordDecl()) return qname(r);
        return "";
    }
    std::string qname(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        os.flush();
        return s;
    }
    std::string lambdaKey(const CXXRecordDecl* r) {
        SourceLocation l = r->getBeginLoc();
        std::string k = "lambda@" + fileOf(l) + ":" + std::to_string(lineOf(l)) + ":" + std::to_string(colOf(l));
        // one closure per instantiation of the enclosing template
        for (const DeclContext* c = r->getDeclContext(); c; c = c->getParent())
            if (auto* f = dyn_cast<FunctionDecl>(c)) {
                auto* m = dyn_cast<CXXMethodDecl>(f);
                if (m && m->getParent()->isLambda()) continue;
                if (f->isTemplateInstantiation() && f->getTemplateSpecializationArgs()) k += "@" + fkey(f);
                break;
            }
        return k;
    }
    std::string fkey(const FunctionDecl* f) {
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda()) {
                if (isa<CXXConversionDecl>(m)) return lambdaKey(m->getParent()) + "#conv";
                if (m->getOverloadedOperator() == OO_Call) return lambdaKey(m->getParent());
                return lambdaKey(m->getParent()) + "#" + m->getNameAsString();
            }
        std::string s = qname(f);
        if (auto* args = f->getTemplateSpecializationArgs()) {
            s += "<";
            for (unsigned i = 0; i < args->size(); ++i) {
                if (i) s += ",";
                std::string t;
                llvm::raw_string_ostream os(t);
                args->get(i).print(PP, os, true);
                os.flush();
                s += t;
            }
            s += ">";
        }
        s += "(";
        bool first = true;
        for (auto* p : f->parameters()) {
            if (!first) s += ",";
            first = false;
            s += typeStr(p->getType());
        }
        s += ")";
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (m->isConst()) s += "const";
        return s;
    }
    int declId(const ValueDecl* d) {
        d = cast<ValueDecl>(d->getCanonicalDecl());
        auto it = declIds.find(d);
        if (it != declIds.end()) return it->second;
        int id = (int)declIds.size() + 1;
        declIds[d] = id;
        return id;
    }

    // ---------- classes, enums
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext()) return true;
        if (!inRoots(fileOf(r->getLocation()))) return true;
        std::string key = r->isLambda() ? lambdaKey(r) : qname(r);
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) { (void)sp; key = typeStr(C.getRecordType(r)); }
        if (!seenClasses.insert(key).second) return true;
        json::Object o;
        o["name"] = key;
        o["file"] = fileOf(r->getLocation());
        o["line"] = lineOf(r->getLocation());
        o["lambda"] = r->isLambda();
        o["abstract"] = r->isAbstract();
        json::Array bases;
        for (auto& b : r->bases()) bases.push_back(typeStr(b.getType()));
        o["bases"] = std::move(bases);
        json::Array fields;
        for (auto* f : r->fields()) {
            json::Object fo;
            fo["name"] = f->getNameAsString();
            fo["type"] = typeStr(f->getType());
            fo["rec"] = recOf(f->getType());
            fo["line"] = lineOf(f->getLocation());
            fo["access"] = accessStr(f->getAccess());
            fo["const"] = f->getType().isConstQualified();
            fo["mutable"] = f->isMutable();
            if (f->isBitField()) fo["bitfield"] = true;
            fields.push_back(std::move(fo));
        }
        for (auto* d : r->decls())
            if (auto* v = dyn_cast<VarDecl>(d)) {
                json::Object fo;
                fo["name"] = v->getNameAsString();
                fo["type"] = typeStr(v->getType());
                fo["rec"] = recOf(v->getType());
                fo["line"] = lineOf(v->getLocation());
                fo["static"] = true;
                fo["const"] = v->getType().isConstQualified();
                fields.push_back(std::move(fo));
            }
        o["fields"] = std::move(fields);
        json::Array methods;
        for (auto* m : r->methods()) {
            json::Object mo;
            mo["key"] = fkey(m);
            mo["name"] = m->getNameAsString();
            mo["virtual"] = m->isVirtual();
            mo["pure"] = m->isPureVirtual();
            mo["static"] = m->isStatic();
            mo["implicit"] = m->isImplicit();
            mo["deleted"] = m->isDeleted();
            mo["defaulted"] = m->isDefaulted();
            mo["access"] = accessStr(m->getAccess());
            json::Array ov;
            for (auto* x : m->overridden_methods()) ov.push_back(fkey(x));
            mo["overrides"] = std::move(ov);
            if (const RawComment* rc = C.getRawCommentForDeclNoCache(m)) mo["doc"] = rc->getRawText(SM).str();
            json::Array ps;
            for (auto* p : m->parameters()) {
                json::Object po;
                po["name"] = p->getNameAsString();
                po["type"] = typeStr(p->getType());
                ps.push_back(std::move(po));
            }
            mo["params"] = std::move(ps);
            mo["line"] = lineOf(m->getLocation());
            methods.push_back(std::move(mo));
        }
        o["methods"] = std::move(methods);
        classes.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->isThisDeclarationADefinition()) return true;
        if (!inRoots(fileOf(e->getLocation()))) return true;
        json::Object o;
        o["name"] = qname(e);
        o["line"] = lineOf(e->getLocation());
        o["file"] = fileOf(e->getLocation());
        json::Array vals;
        for (auto* c : e->enumerators()) vals.push_back(json::Object{{"name", c->getNameAsString()}, {"value", c->getInitVal().getExtValue()}});
        o["values"] = std::move(vals);
        enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (!v->hasGlobalStorage() || v->isStaticLocal() || v->getDeclContext()->isDependentContext()) return true;
        if (!inRoots(fileOf(v->getLocation()))) return true;
        json::Object o;
        o["name"] = qname(v);
        o["type"] = typeStr(v->getType());
        o["line"] = lineOf(v->getLocation());
        o["file"] = fileOf(v->getLocation());
        o["const"] = v->getType().isConstQualified();
        globals.push_back(std::move(o));
        return true;
    }
    static const char* accessStr(AccessSpecifier a) {
        switch (a) {
            case AS_public: return "public";
            case AS_protected: return "protected";
            case AS_private: return "private";
            default: return "none";
        }
    }

    // ---------- functions
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() || !f->hasBody()) return true;
        if (f->isDependentContext()) return true;
        if (f->isDeleted()) return true;
        if (!inRoots(fileOf(f->getLocation()))) return true;
        emitFunction(f);
        return true;
    }

    void emitFunction(const FunctionDecl* f) {
        std::string key = fkey(f);
        if (!seenFns.insert(key).second) return;
        const Stmt* body = f->getBody();
        if (!body) return;

        nodes = json::Array();
        nodeIds.clear();
        json::Object o;
        o["key"] = key;
        o["name"] = f->getNameAsString();
        o["qname"] = qname(f);
        o["file"] = fileOf(f->getLocation());
        o["line"] = lineOf(f->getLocation());
        o["endline"] = lineOf(body->getEndLoc());
        o["ret"] = typeStr(f->getReturnType());
        o["implicit"] = f->isImplicit();
        o["defaulted"] = f->isDefaulted();
        o["internal"] = !f->isExternallyVisible();
        std::string kind = "function";
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            kind = isa<CXXConstructorDecl>(m) ? "ctor" : isa<CXXDestructorDecl>(m) ? "dtor" : "method";
            if (m->getParent()->isLambda()) {
                kind = m->getOverloadedOperator() == OO_Call ? "lambda" : "lambdaaux";
                const DeclContext* dc = m->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
                if (dc) o["parentFn"] = fkey(cast<FunctionDecl>(dc));
            }
            o["cls"] = m->getParent()->isLambda() ? lambdaKey(m->getParent()) : qname(m->getParent());
            o["access"] = accessStr(m->getAccess());
            o["static"] = m->isStatic();
            o["virtual"] = m->isVirtual();
            o["const"] = m->isConst();
            json::Array ov;
            for (auto* x : m->overridden_methods()) ov.push_back(fkey(x));
            o["overrides"] = std::move(ov);
            if (auto* ct = dyn_cast<CXXConstructorDecl>(m)) {
                o["copyctor"] = ct->isCopyConstructor();
                o["movector"] = ct->isMoveConstructor();
            }
        }
        if (const auto* fpt = f->getType()->getAs<FunctionProtoType>()) {
            auto est = fpt->getExceptionSpecType();
            o["noexcept"] = (est == EST_BasicNoexcept || est == EST_NoexceptTrue);
        }
        o["kind"] = kind;
        json::Array ps;
        for (auto* p : f->parameters()) {
            json::Object po;
            po["name"] = p->getNameAsString();
            po["type"] = typeStr(p->getType());
            po["rec"] = recOf(p->getType());
            po["id"] = declId(p);
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);

        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors = true;
        bo.AddTemporaryDtors = true;
        bo.AddInitializers = true;
        bo.AddEHEdges = false;
        bo.AddCXXNewAllocator = false;
        bo.AddCXXDefaultInitExprInCtors = true;
        bo.AddStaticInitBranches = false;
        bo.PruneTriviallyFalseEdges = false;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(f, const_cast<Stmt*>(body), &C, bo);
        if (!cfg) {
            o["nocfg"] = true;
            fns.push_back(std::move(o));
            return;
        }
        json::Array blocks;
        for (const CFGBlock* b : *cfg) {
            json::Object bobj;
            bobj["id"] = (int)b->getBlockID();
            json::Array el;
            for (const CFGElement& e : *b) {
                if (auto s = e.getAs<CFGStmt>()) {
                    const Stmt* st = strip(s->getStmt());
                    if (!st) continue;
                    // skip wrappers: only emit when the CFG statement itself is not transparent
                    if (st != s->getStmt()) continue;
                    int id = emit(st);
                    el.push_back(json::Array{"s", id});
                } else if (auto i = e.getAs<CFGInitializer>()) {
                    const CXXCtorInitializer* ci = i->getInitializer();
                    json::Object io;
                    if (ci->isAnyMemberInitializer()) {
                        io["field"] = ci->getAnyMember()->getNameAsString();
                        io["ftype"] = typeStr(ci->getAnyMember()->getType());
                    } else if (ci->isBaseInitializer()) io["base"] = typeStr(QualType(ci->getBaseClass(), 0));
                    else io["delegating"] = true;
                    if (ci->getInit()) io["init"] = emit(ci->getInit());
                    io["written"] = ci->isWritten();
                    io["line"] = lineOf(ci->getSourceLocation());
                    el.push_back(json::Array{"i", std::move(io)});
                } else if (auto d = e.getAs<CFGAutomaticObjDtor>()) {
                    const VarDecl* v = d->getVarDecl();
                    el.push_back(json::Array{"d", declId(v), recOf(v->getType()), lineOf(d->getTriggerStmt() ? d->getTriggerStmt()->getEndLoc() : v->getLocation())});
                } else if (auto t = e.getAs<CFGTemporaryDtor>()) {
                    const Expr* sub = t->getBindTemporaryExpr()->getSubExpr();
                    el.push_back(json::Array{"t", emit(sub), recOf(sub->getType())});
                } else if (auto m = e.getAs<CFGMemberDtor>()) {
                    el.push_back(json::Array{"m", m->getFieldDecl()->getNameAsString(), recOf(m->getFieldDecl()->getType())});
                } else if (auto bd = e.getAs<CFGBaseDtor>()) {
                    el.push_back(json::Array{"b", typeStr(bd->getBaseSpecifier()->getType())});
                } else if (auto dd = e.getAs<CFGDeleteDtor>()) {
                    el.push_back(json::Array{"x", emit(dd->getDeleteExpr()->getArgument()), recOf(dd->getDeleteExpr()->getDestroyedType())});
                }
            }
            bobj["e"] = std::move(el);
            json::Array su;
            for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
                if (const CFGBlock* r = it->getReachableBlock()) su.push_back((int)r->getBlockID());
                else if (const CFGBlock* u = it->getPossiblyUnreachableBlock()) su.push_back((int)u->getBlockID());
                else su.push_back(nullptr);
            }
            bobj["s"] = std::move(su);
            if (const Stmt* t = b->getTerminatorStmt()) {
                json::Object to;
                to["k"] = std::string(t->getStmtClassName());
                to["line"] = lineOf(t->getBeginLoc());
                if (b->getTerminator().isTemporaryDtorsBranch()) to["tempdtor"] = true;
                if (const Stmt* c = b->getTerminatorCondition(true)) to["cond"] = emit(c);
                if (auto* bo2 = dyn_cast<BinaryOperator>(t)) to["op"] = bo2->getOpcodeStr().str();
                bobj["t"] = std::move(to);
            }
            if (b->hasNoReturnElement()) bobj["noreturn"] = true;
            if (const Stmt* l = b->getLabel()) {
                json::Object lo;
                lo["k"] = std::string(l->getStmtClassName());
                if (auto* cs = dyn_cast<CaseStmt>(l)) {
                    Expr::EvalResult er;
                    if (cs->getLHS()->EvaluateAsInt(er, C)) lo["val"] = er.Val.getInt().getExtValue();
                    lo["lhs"] = emit(cs->getLHS());
                }
                bobj["l"] = std::move(lo);
            }
            if (const Stmt* lt = b->getLoopTarget()) bobj["loop"] = lineOf(lt->getBeginLoc());
            blocks.push_back(std::move(bobj));
        }
        o["blocks"] = std::move(blocks);
        o["entry"] = (int)cfg->getEntry().getBlockID();
        o["exit"] = (int)cfg->getExit().getBlockID();
        o["nodes"] = std::move(nodes);
        fns.push_back(std::move(o));
        nodes = json::Array();
        nodeIds.clear();
    }

    const Stmt* strip(const Stmt* s) {
        while (s) {
            if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<ExprWithCleanups>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<ConstantExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<ImplicitCastExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<CXXFunctionalCastExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
            else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) s = e->getExpr();
            else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) s = e->getExpr();
            else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<OpaqueValueExpr>(s)) { if (!e->getSourceExpr()) break; s = e->getSourceExpr(); }
            else if (auto* e = dyn_cast<AttributedStmt>(s)) s = e->getSubStmt();
            else break;
        }
        return s;
    }

    int emit(const Stmt* s0) {
        const Stmt* s = strip(s0);
        if (!s) return -1;
        auto it = nodeIds.find(s);
        if (it != nodeIds.end()) return it->second;
        json::Object o;
        bool defarg = false;
        {   // remember whether a default argument was stripped
            const Stmt* p = s0;
            if (p && isa<CXXDefaultArgExpr>(p)) defarg = true;
        }
        o["line"] = lineOf(s->getBeginLoc());
        o["col"] = colOf(s->getBeginLoc());
        if (SM.isMacroBodyExpansion(s->getBeginLoc())) o["mac"] = Lexer::getImmediateMacroName(s->getBeginLoc(), SM, C.getLangOpts()).str();
        if (auto* e = dyn_cast<Expr>(s)) {
            o["ty"] = typeStr(e->getType());
            std::string r = recOf(e->getType());
            if (!r.empty()) o["rec"] = r;
            if (e->isLValue()) o["lv"] = true;
        }
        if (defarg) o["defarg"] = true;
        auto kids = [&](std::initializer_list<const Stmt*> l) {
            json::Array a;
            for (auto* x : l) a.push_back(x ? emit(x) : -1);
            return a;
        };
        if (auto* e = dyn_cast<DeclRefExpr>(s)) {
            const ValueDecl* d = e->getDecl();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["k"] = "EnumC";
                o["name"] = qname(ec);
                o["val"] = ec->getInitVal().getExtValue();
            } else if (auto* fd = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "FnRef";
                o["fn"] = fkey(fd);
                o["qn"] = qname(fd);
            } else {
                o["k"] = "Ref";
                o["id"] = declId(d);
                o["name"] = d->getNameAsString();
                if (auto* v = dyn_cast<VarDecl>(d)) {
                    if (v->hasGlobalStorage()) { o["global"] = qname(v); if (v->isStaticLocal()) o["staticlocal"] = true; if (v->isStaticDataMember()) o["staticmember"] = true; }
                    if (isa<ParmVarDecl>(v)) o["param"] = (int)cast<ParmVarDecl>(v)->getFunctionScopeIndex();
                    if (v->getType()->isReferenceType()) o["isref"] = true;
                    const VarDecl* def = nullptr;
                    if (!isa<ParmVarDecl>(v) && v->getType().isConstQualified() && v->getAnyInitializer(def) && v->getType()->isIntegralOrEnumerationType() && !cast<Expr>(v->getAnyInitializer())->isValueDependent()) {
                        Expr::EvalResult er;
                        if (v->getAnyInitializer()->EvaluateAsInt(er, C)) o["cv"] = er.Val.getInt().getExtValue();
                    }
                }
            }
            if (auto* v = dyn_cast<VarDecl>(d)) o["vty"] = typeStr(v->getType());
        } else if (auto* e = dyn_cast<MemberExpr>(s)) {
            if (auto* fd = dyn_cast<FieldDecl>(e->getMemberDecl())) {
                o["k"] = "Field";
                o["name"] = fd->getNameAsString();
                o["owner"] = qname(fd->getParent());
                o["fty"] = typeStr(fd->getType());
                o["base"] = emit(e->getBase());
                o["arrow"] = e->isArrow();
            } else if (auto* md = dyn_cast<CXXMethodDecl>(e->getMemberDecl())) {
                o["k"] = "Method";
                o["fn"] = fkey(md);
                o["base"] = emit(e->getBase());
                o["arrow"] = e->isArrow();
            } else if (auto* v = dyn_cast<VarDecl>(e->getMemberDecl())) {
                o["k"] = "Ref";
                o["id"] = declId(v);
                o["name"] = v->getNameAsString();
                o["global"] = qname(v);
                o["staticmember"] = true;
            } else {
                o["k"] = "OtherMember";
                o["name"] = e->getMemberDecl()->getNameAsString();
            }
        } else if (isa<CXXThisExpr>(s)) {
            o["k"] = "This";
        } else if (auto* e = dyn_cast<CallExpr>(s)) {
            o["k"] = "Call";
            const FunctionDecl* fd = e->getDirectCallee();
            json::Array args;
            const Expr* obj = nullptr;
            unsigned start = 0;
            if (auto* mc = dyn_cast<CXXMemberCallExpr>(e)) {
                obj = mc->getImplicitObjectArgument();
                if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) {
                    o["arrow"] = me->isArrow();
                    // virtual dispatch happens unless the name is qualified
                    if (auto* md = dyn_cast<CXXMethodDecl>(me->getMemberDecl())) o["virt"] = md->isVirtual() && !me->hasQualifier();
                }
            } else if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e)) {
                o["op"] = std::string(getOperatorSpelling(oc->getOperator()));
                if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic() && oc->getNumArgs() > 0) {
                    obj = oc->getArg(0);
                    start = 1;
                }
            }
            if (fd) {
                o["fn"] = fkey(fd);
                o["qn"] = qname(fd);
                o["name"] = fd->getNameAsString();
                if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
                    o["cls"] = md->getParent()->isLambda() ? lambdaKey(md->getParent()) : qname(md->getParent());
                    o["cconst"] = md->isConst();
                    if (md->isStatic()) o["cstatic"] = true;
                }
                json::Array pt;
                for (auto* p : fd->parameters()) pt.push_back(typeStr(p->getType()));
                o["ptys"] = std::move(pt);
                json::Array pn;
                for (auto* p : fd->parameters()) pn.push_back(p->getNameAsString());
                o["pnames"] = std::move(pn);
                if (fd->isNoReturn()) o["noreturn"] = true;
                if (const auto* fpt = fd->getType()->getAs<FunctionProtoType>()) {
                    auto est = fpt->getExceptionSpecType();
                    if (est == EST_BasicNoexcept || est == EST_NoexceptTrue) o["nothrow"] = true;
                }
            } else {
                o["callee"] = emit(e->getCallee());
            }
            if (obj) o["obj"] = emit(obj);
            for (unsigned i = start; i < e->getNumArgs(); ++i) args.push_back(emit(e->getArg(i)));
            o["args"] = std::move(args);
        } else if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
            o["k"] = "Construct";
            o["fn"] = fkey(e->getConstructor());
            o["cls"] = qname(e->getConstructor()->getParent());
            o["copy"] = e->getConstructor()->isCopyConstructor();
            o["move"] = e->getConstructor()->isMoveConstructor();
            json::Array args, pt;
            for (unsigned i = 0; i < e->getNumArgs(); ++i) args.push_back(emit(e->getArg(i)));
            for (auto* p : e->getConstructor()->parameters()) pt.push_back(typeStr(p->getType()));
            o["args"] = std::move(args);
            o["ptys"] = std::move(pt);
            o["elidable"] = e->isElidable();
        } else if (auto* e = dyn_cast<BinaryOperator>(s)) {
            o["k"] = e->isAssignmentOp() ? "Assign" : "Bin";
            o["op"] = e->getOpcodeStr().str();
            o["c"] = kids({e->getLHS(), e->getRHS()});
        } else if (auto* e = dyn_cast<UnaryOperator>(s)) {
            o["k"] = "Un";
            o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix()) o["post"] = true;
            o["c"] = kids({e->getSubExpr()});
        } else if (auto* e = dyn_cast<ConditionalOperator>(s)) {
            o["k"] = "Cond";
            o["c"] = kids({e->getCond(), e->getTrueExpr(), e->getFalseExpr()});
        } else if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) {
            o["k"] = "Lit";
            o["val"] = e->getValue() ? 1 : 0;
        } else if (auto* e = dyn_cast<IntegerLiteral>(s)) {
            o["k"] = "Lit";
            o["val"] = (int64_t)e->getValue().getLimitedValue(INT64_MAX);
        } else if (auto* e = dyn_cast<CharacterLiteral>(s)) {
            o["k"] = "Lit";
            o["val"] = (int64_t)e->getValue();
        } else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
            o["k"] = "Null";
        } else if (auto* e = dyn_cast<StringLiteral>(s)) {
            o["k"] = "Str";
            if (e->isOrdinary()) o["val"] = json::fixUTF8(e->getString());
        } else if (isa<FloatingLiteral>(s)) {
            o["k"] = "FloatLit";
        } else if (auto* e = dyn_cast<LambdaExpr>(s)) {
            o["k"] = "Lambda";
            o["fn"] = lambdaKey(e->getLambdaClass());
            json::Array caps;
            auto ii = e->capture_init_begin();
            for (auto c = e->capture_begin(); c != e->capture_end(); ++c, ++ii) {
                json::Object co;
                if (c->capturesThis()) co["this"] = true;
                else if (c->capturesVariable()) {
                    co["id"] = declId(c->getCapturedVar());
                    co["name"] = c->getCapturedVar()->getNameAsString();
                    co["ty"] = typeStr(c->getCapturedVar()->getType());
                    if (*ii) co["init"] = emit(*ii);
                }
                co["byref"] = (c->getCaptureKind() == LCK_ByRef);
                co["implicit"] = c->isImplicit();
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
        } else if (auto* e = dyn_cast<ExplicitCastExpr>(s)) {
            o["k"] = "Cast";
            o["ck"] = std::string(e->getStmtClassName());
            o["c"] = kids({e->getSubExpr()});
        } else if (auto* e = dyn_cast<CXXNewExpr>(s)) {
            o["k"] = "New";
            o["alloc"] = typeStr(e->getAllocatedType());
            o["arec"] = recOf(e->getAllocatedType());
            o["array"] = e->isArray();
            if (e->getNumPlacementArgs()) o["placement"] = true;
            o["init"] = e->getInitializer() ? emit(e->getInitializer()) : -1;
        } else if (auto* e = dyn_cast<CXXDeleteExpr>(s)) {
            o["k"] = "Delete";
            o["c"] = kids({e->getArgument()});
        } else if (auto* e = dyn_cast<CXXThrowExpr>(s)) {
            o["k"] = "Throw";
            o["c"] = kids({e->getSubExpr()});
        } else if (auto* e = dyn_cast<InitListExpr>(s)) {
            o["k"] = "InitList";
            json::Array a;
            for (unsigned i = 0; i < e->getNumInits(); ++i) a.push_back(emit(e->getInit(i)));
            o["c"] = std::move(a);
        } else if (auto* e = dyn_cast<ArraySubscriptExpr>(s)) {
            o["k"] = "Index";
            o["c"] = kids({e->getBase(), e->getIdx()});
        } else if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            o["k"] = "SizeOf";
            Expr::EvalResult er;
            if (!e->isValueDependent() && e->EvaluateAsInt(er, C)) o["val"] = er.Val.getInt().getExtValue();
            o["of"] = typeStr(e->getTypeOfArgument());
        } else if (auto* d = dyn_cast<DeclStmt>(s)) {
            o["k"] = "Decl";
            json::Array a;
            for (auto* x : d->decls())
                if (auto* v = dyn_cast<VarDecl>(x)) {
                    json::Object vo;
                    vo["id"] = declId(v);
                    vo["name"] = v->getNameAsString();
                    vo["ty"] = typeStr(v->getType());
                    vo["rec"] = recOf(v->getType());
                    vo["isref"] = v->getType()->isReferenceType();
                    vo["init"] = v->getInit() ? emit(v->getInit()) : -1;
                    if (v->isStaticLocal()) vo["static"] = true;
                    a.push_back(std::move(vo));
                }
            o["vars"] = std::move(a);
        } else if (auto* r = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "Return";
            o["c"] = kids({r->getRetValue()});
        } else if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s)) {
            o["k"] = "Lit";
            o["val"] = 0;
            o["valueinit"] = true;
        } else if (auto* e = dyn_cast<CXXTypeidExpr>(s)) {
            (void)e;
            o["k"] = "TypeId";
        } else {
            o["k"] = std::string(s->getStmtClassName());
            json::Array a;
            if (isa<Expr>(s))
                for (auto* ch : s->children())
                    if (ch) a.push_back(emit(ch));
            o["c"] = std::move(a);
        }
        // children were appended first; allocate own id last
        int id = (int)nodes.size();
        nodeIds[s] = id;
        nodes.push_back(std::move(o));
        return id;
    }

    json::Object result() {
        json::Object o;
        o["functions"] = std::move(fns);
        o["classes"] = std::move(classes);
        o["enums"] = std::move(enums);
        o["globals"] = std::move(globals);
        return o;
    }

private:
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const ValueDecl*, int> declIds;
    std::map<const Stmt*, int> nodeIds;
    std::set<std::string> seenFns, seenClasses;
    json::Array nodes, fns, classes, enums, globals;
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& ctx) override {
        if (ctx.getDiagnostics().hasErrorOccurred()) return;
        Extractor ex(ctx);
        ex.TraverseDecl(ctx.getTranslationUnitDecl());
        llvm::outs() << json::Value(ex.result()) << "\n";
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
}  // namespace

int main(int argc, const char** argv) {
    std::vector<std::string> args;
    std::string file;
    bool inFlags = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (inFlags) args.push_back(a);
        else if (a == "--root") gRoots.push_back(argv[++i]);
        else if (a == "--") inFlags = true;
        else file = a;
    }
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {file});
    tool.setPrintErrorMessage(true);
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
