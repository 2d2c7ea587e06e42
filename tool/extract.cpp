// Extracts the resolved program (CFG, expressions, callees, types) of nzbget's translation units as JSON.
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::OStream;

static std::string Root, OutDir;

struct Extractor : RecursiveASTVisitor<Extractor>
{
	ASTContext& C; SourceManager& SM; OStream& J; PrintingPolicy PP;
	std::map<std::string, int> types; std::vector<std::string> typeList;
	std::set<std::string> seenFn;
	std::map<const Decl*, int> varIds;
	struct Rec { std::string name; const CXXRecordDecl* d; };
	std::vector<const CXXRecordDecl*> recs; std::vector<const EnumDecl*> enums; std::vector<const VarDecl*> globals;
	std::set<const Decl*> seenDecl;

	Extractor(ASTContext& c, OStream& j) : C(c), SM(c.getSourceManager()), J(j), PP(c.getPrintingPolicy())
	{
		PP.SuppressTagKeyword = true; PP.SuppressUnwrittenScope = true; PP.Bool = true; PP.SplitTemplateClosers = false;
	}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool shouldVisitLambdaBody() const { return true; }

	std::string file(SourceLocation l)
	{
		l = SM.getExpansionLoc(l);
		std::string f = SM.getFilename(l).str();
		if (f.compare(0, Root.size(), Root) == 0) return f.substr(Root.size() + 1);
		return "";
	}
	int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
	int ty(QualType t)
	{
		if (t.isNull()) return -1;
		std::string s = t.getCanonicalType().getAsString(PP);
		auto it = types.find(s);
		if (it != types.end()) return it->second;
		int i = typeList.size(); typeList.push_back(s); types[s] = i; return i;
	}
	std::string qn(const NamedDecl* d)
	{
		std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os, PP); os.flush();
		// instantiated class templates: use the printed record type as scope
		if (auto* m = dyn_cast<CXXMethodDecl>(d))
			if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent()))
				(void)sp;
		return s;
	}
	std::string usr(const FunctionDecl* f)
	{
		llvm::SmallString<128> b;
		index::generateUSRForDecl(f, b);
		std::string s = b.str().str();
		if (auto* m = dyn_cast<CXXMethodDecl>(f))
			if (m->getParent()->isLambda())
			{
				SourceLocation l = SM.getExpansionLoc(m->getParent()->getBeginLoc());
				s = "lambda@" + file(l) + ":" + std::to_string(line(l)) + ":" + std::to_string(SM.getExpansionColumnNumber(l));
			}
		if (s.empty()) s = qn(f);
		return s;
	}
	std::string cls(const CXXRecordDecl* r) { return C.getRecordType(r).getCanonicalType().getAsString(PP); }
	int vid(const Decl* d)
	{
		d = d->getCanonicalDecl();
		auto it = varIds.find(d);
		if (it != varIds.end()) return it->second;
		int i = varIds.size() + 1; varIds[d] = i; return i;
	}

	// ---------------------------------------------------------------- nodes of one function
	std::map<const Stmt*, int> ids; std::vector<const Stmt*> nodes;
	const Stmt* strip(const Stmt* s)
	{
		while (s)
		{
			if (auto* e = dyn_cast<ImplicitCastExpr>(s)) s = e->getSubExpr();
			else if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
			else if (auto* e = dyn_cast<ExprWithCleanups>(s)) s = e->getSubExpr();
			else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
			else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
			else if (auto* e = dyn_cast<ConstantExpr>(s)) s = e->getSubExpr();
			else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
			else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) s = e->getExpr();
			else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) s = e->getExpr();
			else if (auto* e = dyn_cast<OpaqueValueExpr>(s)) { if (!e->getSourceExpr()) break; s = e->getSourceExpr(); }
			else if (auto* e = dyn_cast<CXXFunctionalCastExpr>(s)) {
				if (isa<CXXConstructExpr>(strip(e->getSubExpr()))) s = e->getSubExpr(); else break; }
			else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
			else break;
		}
		return s;
	}
	int id(const Stmt* s)
	{
		s = strip(s);
		if (!s) return -1;
		auto it = ids.find(s);
		if (it != ids.end()) return it->second;
		int i = nodes.size(); nodes.push_back(s); ids[s] = i; return i;
	}
	void kid(const char* k, const Stmt* s) { if (s) J.attribute(k, id(s)); }
	template<class R> void args(const R& r) { J.attributeArray("a", [&]{ for (const Expr* a : r) J.value(id(a)); }); }
	void callee(const FunctionDecl* f)
	{
		if (auto* m = dyn_cast<CXXMethodDecl>(f)) { J.attribute("cl", cls(m->getParent())); if (m->isVirtual()) J.attribute("vm", 1); if (m->isConst()) J.attribute("cm", 1); }
		if (const FunctionDecl* pat = f->getTemplateInstantiationPattern()) (void)pat;
		J.attribute("f", usr(f)); J.attribute("fn", qn(f));
	}
	void declref(const ValueDecl* d)
	{
		if (auto* e = dyn_cast<EnumConstantDecl>(d))
		{
			J.attribute("dk", "enum"); J.attribute("d", qn(e)); J.attribute("v", e->getInitVal().getExtValue());
			if (auto* ed = dyn_cast<EnumDecl>(e->getDeclContext())) J.attribute("en", qn(ed));
		}
		else if (auto* f = dyn_cast<FunctionDecl>(d)) { J.attribute("dk", "fn"); callee(f); }
		else if (auto* v = dyn_cast<VarDecl>(d))
		{
			if (isa<ParmVarDecl>(v)) { J.attribute("dk", "par"); J.attribute("d", v->getName()); J.attribute("vi", vid(v)); }
			else if (v->isLocalVarDecl()) { J.attribute("dk", v->isStaticLocal() ? "slocal" : "loc"); J.attribute("d", v->getName()); J.attribute("vi", vid(v)); }
			else { J.attribute("dk", "glob"); J.attribute("d", qn(v)); }
		}
		else { J.attribute("dk", "oth"); J.attribute("d", qn(d)); }
	}
	void emitNode(const Stmt* s)
	{
		J.objectBegin();
		J.attribute("l", line(s->getBeginLoc()));
		if (auto* e = dyn_cast<Expr>(s))
		{
			J.attribute("t", ty(e->getType()));
			if (e->isLValue()) J.attribute("lv", 1);
			if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() &&
				(isa<BinaryOperator>(e) || isa<DeclRefExpr>(e) || isa<UnaryOperator>(e) || isa<UnaryExprOrTypeTraitExpr>(e) || isa<CStyleCastExpr>(e) || isa<ConditionalOperator>(e)))
			{
				Expr::EvalResult r;
				if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) J.attribute("cv", r.Val.getInt().isSigned() ? r.Val.getInt().getExtValue() : (int64_t)r.Val.getInt().getZExtValue());
			}
		}
		if (auto* e = dyn_cast<CXXMemberCallExpr>(s))
		{
			J.attribute("k", "call");
			if (auto* m = e->getMethodDecl()) callee(m);
			if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) { kid("o", me->getBase()); if (me->isArrow()) J.attribute("ar", 1); if (me->hasQualifier()) J.attribute("qual", 1); }
			else kid("fx", e->getCallee());
			args(e->arguments());
		}
		else if (auto* e = dyn_cast<CXXOperatorCallExpr>(s))
		{
			J.attribute("k", "call"); J.attribute("op", getOperatorSpelling(e->getOperator()));
			const FunctionDecl* f = e->getDirectCallee();
			if (f) callee(f);
			if (f && isa<CXXMethodDecl>(f) && e->getNumArgs() > 0)
			{
				kid("o", e->getArg(0));
				J.attributeArray("a", [&]{ for (unsigned i = 1; i < e->getNumArgs(); i++) J.value(id(e->getArg(i))); });
			}
			else args(e->arguments());
		}
		else if (auto* e = dyn_cast<CallExpr>(s))
		{
			J.attribute("k", "call");
			if (const FunctionDecl* f = e->getDirectCallee()) callee(f);
			else kid("fx", e->getCallee());
			args(e->arguments());
		}
		else if (auto* e = dyn_cast<CXXConstructExpr>(s))
		{
			J.attribute("k", "ctor"); callee(e->getConstructor()); args(e->arguments());
			if (e->isElidable() || e->getConstructor()->isCopyOrMoveConstructor()) J.attribute("cp", 1);
		}
		else if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s)) { J.attribute("k", "ctor"); callee(e->getConstructor()); J.attributeArray("a", [&]{}); }
		else if (auto* e = dyn_cast<MemberExpr>(s))
		{
			if (auto* f = dyn_cast<FieldDecl>(e->getMemberDecl()))
			{
				J.attribute("k", "mem"); J.attribute("m", f->getName());
				J.attribute("cl", f->getParent()->isLambda() ? "lambda" : C.getRecordType(f->getParent()).getCanonicalType().getAsString(PP));
			}
			else { J.attribute("k", "ref"); declref(e->getMemberDecl()); }
			kid("o", e->getBase()); if (e->isArrow()) J.attribute("ar", 1);
		}
		else if (auto* e = dyn_cast<DeclRefExpr>(s)) { J.attribute("k", "ref"); declref(e->getDecl()); }
		else if (isa<CXXThisExpr>(s)) J.attribute("k", "this");
		else if (auto* e = dyn_cast<IntegerLiteral>(s)) { J.attribute("k", "int"); J.attribute("v", e->getValue().getSExtValue()); }
		else if (auto* e = dyn_cast<CharacterLiteral>(s)) { J.attribute("k", "int"); J.attribute("v", (int64_t)e->getValue()); J.attribute("chr", 1); }
		else if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) { J.attribute("k", "int"); J.attribute("v", e->getValue() ? 1 : 0); J.attribute("bool", 1); }
		else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { J.attribute("k", "null"); }
		else if (auto* e = dyn_cast<FloatingLiteral>(s)) { J.attribute("k", "flt"); J.attribute("v", e->getValueAsApproximateDouble()); }
		else if (auto* e = dyn_cast<StringLiteral>(s))
		{
			J.attribute("k", "str");
			std::string v = e->getCharByteWidth() == 1 ? e->getString().str() : "";
			if (!llvm::json::isUTF8(v)) v = llvm::json::fixUTF8(v);
			J.attribute("v", v);
		}
		else if (auto* e = dyn_cast<BinaryOperator>(s))
		{
			J.attribute("k", "bin"); J.attribute("op", e->getOpcodeStr()); kid("x", e->getLHS()); kid("y", e->getRHS());
		}
		else if (auto* e = dyn_cast<UnaryOperator>(s))
		{
			J.attribute("k", "un"); J.attribute("op", UnaryOperator::getOpcodeStr(e->getOpcode())); if (e->isPostfix()) J.attribute("post", 1);
			kid("x", e->getSubExpr());
		}
		else if (auto* e = dyn_cast<BinaryConditionalOperator>(s)) { J.attribute("k", "cond"); kid("x", e->getCond()); kid("y", e->getTrueExpr()); kid("z", e->getFalseExpr()); }
		else if (auto* e = dyn_cast<ConditionalOperator>(s)) { J.attribute("k", "cond"); kid("x", e->getCond()); kid("y", e->getTrueExpr()); kid("z", e->getFalseExpr()); }
		else if (auto* e = dyn_cast<ExplicitCastExpr>(s)) { J.attribute("k", "cast"); kid("x", e->getSubExpr()); }
		else if (auto* e = dyn_cast<ArraySubscriptExpr>(s)) { J.attribute("k", "idx"); kid("x", e->getBase()); kid("y", e->getIdx()); }
		else if (auto* e = dyn_cast<InitListExpr>(s)) { J.attribute("k", "ilist"); const InitListExpr* se = e->isSemanticForm() ? e : (e->getSemanticForm() ? e->getSemanticForm() : e); J.attributeArray("a", [&]{ for (const Expr* a : se->inits()) J.value(id(a)); }); }
		else if (auto* e = dyn_cast<LambdaExpr>(s))
		{
			J.attribute("k", "lam"); J.attribute("f", usr(e->getCallOperator()));
			J.attributeArray("caps", [&]{ for (const LambdaCapture& c : e->captures()) {
				J.objectBegin();
				if (c.capturesThis()) J.attribute("this", 1);
				else if (c.capturesVariable()) { J.attribute("vi", vid(c.getCapturedVar())); J.attribute("d", c.getCapturedVar()->getName());
					if (auto* v = dyn_cast<VarDecl>(c.getCapturedVar())) if (v->isInitCapture()) kid("i", v->getInit()); }
				if (c.getCaptureKind() == LCK_ByRef) J.attribute("ref", 1);
				J.objectEnd(); } });
			J.attributeArray("a", [&]{ for (const Expr* i : e->capture_inits()) if (i) J.value(id(i)); });
		}
		else if (auto* e = dyn_cast<CXXNewExpr>(s))
		{
			J.attribute("k", "new"); J.attribute("nt", ty(e->getAllocatedType())); if (e->hasInitializer()) kid("x", e->getInitializer());
			if (e->isArray() && e->getArraySize()) kid("y", *e->getArraySize());
		}
		else if (auto* e = dyn_cast<CXXDeleteExpr>(s)) { J.attribute("k", "del"); kid("x", e->getArgument()); }
		else if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s))
		{
			J.attribute("k", "szof"); J.attribute("st", ty(e->getTypeOfArgument())); if (!e->isArgumentType()) kid("x", e->getArgumentExpr());
		}
		else if (auto* e = dyn_cast<DeclStmt>(s))
		{
			J.attribute("k", "decl");
			J.attributeArray("vars", [&]{ for (const Decl* d : e->decls()) if (auto* v = dyn_cast<VarDecl>(d)) {
				J.objectBegin(); J.attribute("vi", vid(v)); J.attribute("d", v->getName()); J.attribute("t", ty(v->getType()));
				if (v->isStaticLocal()) J.attribute("st", 1);
				if (v->getInit()) J.attribute("i", id(v->getInit()));
				J.objectEnd(); } });
		}
		else if (auto* e = dyn_cast<ReturnStmt>(s)) { J.attribute("k", "ret"); kid("x", e->getRetValue()); }
		else if (auto* e = dyn_cast<CXXThrowExpr>(s)) { J.attribute("k", "throw"); kid("x", e->getSubExpr()); }
		else if (isa<ImplicitValueInitExpr>(s) || isa<CXXScalarValueInitExpr>(s)) { J.attribute("k", "int"); J.attribute("v", 0); J.attribute("zi", 1); }
		else if (isa<IfStmt>(s) || isa<WhileStmt>(s) || isa<ForStmt>(s) || isa<CXXForRangeStmt>(s) || isa<DoStmt>(s) || isa<SwitchStmt>(s) || isa<GotoStmt>(s) || isa<BreakStmt>(s) || isa<ContinueStmt>(s)) J.attribute("k", s->getStmtClassName());
		else
		{
			J.attribute("k", "oth"); J.attribute("sc", s->getStmtClassName());
			J.attributeArray("a", [&]{ for (const Stmt* c : s->children()) if (c) J.value(id(c)); });
		}
		J.objectEnd();
	}
	bool transparent(const Stmt* s) { return strip(s) != s; }

	void emitFunction(const FunctionDecl* f)
	{
		std::string u = usr(f);
		if (!seenFn.insert(u).second) return;
		ids.clear(); nodes.clear();
		CFG::BuildOptions o; o.setAllAlwaysAdd(); o.AddImplicitDtors = true; o.AddTemporaryDtors = true; o.AddInitializers = true;
		o.AddEHEdges = false; o.PruneTriviallyFalseEdges = true;
		std::unique_ptr<CFG> g = CFG::buildCFG(f, f->getBody(), &C, o);
		J.objectBegin();
		J.attribute("u", u); J.attribute("n", qn(f)); J.attribute("file", file(f->getLocation())); J.attribute("l", line(f->getLocation()));
		J.attribute("le", line(f->getEndLoc()));
		J.attribute("rt", ty(f->getReturnType()));
		if (auto* m = dyn_cast<CXXMethodDecl>(f))
		{
			J.attribute("cl", m->getParent()->isLambda() ? "lambda" : cls(m->getParent()));
			if (m->isVirtual()) J.attribute("vm", 1);
			if (m->isStatic()) J.attribute("st", 1);
			if (isa<CXXConstructorDecl>(f)) J.attribute("kind", "ctor");
			if (isa<CXXDestructorDecl>(f)) J.attribute("kind", "dtor");
			if (m->getParent()->isLambda()) { J.attribute("kind", "lambda");
				const DeclContext* dc = m->getParent()->getDeclContext(); while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
				if (dc) J.attribute("encl", usr(cast<FunctionDecl>(dc))); }
			J.attributeArray("ov", [&]{ for (auto* b : m->overridden_methods()) J.value(usr(b)); });
		}
		if (f->isImplicit() || f->isDefaulted()) J.attribute("impl", 1);
		J.attributeArray("p", [&]{ for (auto* p : f->parameters()) { J.objectBegin(); J.attribute("d", p->getName()); J.attribute("vi", vid(p)); J.attribute("t", ty(p->getType())); J.objectEnd(); } });
		if (f->isVariadic()) J.attribute("va", 1);
		if (g)
		{
			J.attribute("entry", (int)g->getEntry().getBlockID()); J.attribute("exit", (int)g->getExit().getBlockID());
			J.attributeArray("B", [&]{
				for (const CFGBlock* b : *g)
				{
					J.objectBegin(); J.attribute("i", (int)b->getBlockID());
					J.attributeArray("e", [&]{
						for (const CFGElement& el : *b)
						{
							if (auto st = el.getAs<CFGStmt>()) { const Stmt* s = st->getStmt(); if (!transparent(s)) J.value(id(s)); }
							else if (auto in = el.getAs<CFGInitializer>())
							{
								const CXXCtorInitializer* ci = in->getInitializer();
								J.objectBegin(); J.attribute("k", "init");
								if (ci->isAnyMemberInitializer()) J.attribute("m", ci->getAnyMember()->getName());
								else if (ci->isBaseInitializer()) J.attribute("base", ty(QualType(ci->getBaseClass(), 0)));
								kid("x", ci->getInit()); J.objectEnd();
							}
							else if (auto d = el.getAs<CFGAutomaticObjDtor>())
							{ J.objectBegin(); J.attribute("k", "dtor"); J.attribute("vi", vid(d->getVarDecl())); J.attribute("t", ty(d->getVarDecl()->getType())); J.objectEnd(); }
							else if (auto d = el.getAs<CFGTemporaryDtor>())
							{ J.objectBegin(); J.attribute("k", "tdtor"); J.attribute("x", id(d->getBindTemporaryExpr())); J.attribute("t", ty(d->getBindTemporaryExpr()->getType())); J.objectEnd(); }
							else if (auto d = el.getAs<CFGMemberDtor>())
							{ J.objectBegin(); J.attribute("k", "mdtor"); J.attribute("m", d->getFieldDecl()->getName()); J.objectEnd(); }
						}
					});
					if (const Stmt* t = b->getTerminatorStmt()) { J.attribute("t", t->getStmtClassName()); if (b->getTerminator().isTemporaryDtorsBranch()) J.attribute("tdb", 1);
						if (const Stmt* c = b->getTerminatorCondition()) J.attribute("tc", id(c)); if (auto* bo = dyn_cast<BinaryOperator>(t)) J.attribute("top", bo->getOpcodeStr()); J.attribute("tl", line(t->getBeginLoc())); }
					if (const Stmt* l = b->getLabel())
					{
						if (auto* cs = dyn_cast<CaseStmt>(l)) { Expr::EvalResult r; if (cs->getLHS()->EvaluateAsInt(r, C)) J.attribute("case", r.Val.getInt().getExtValue()); J.attribute("casen", id(cs->getLHS())); }
						else if (isa<DefaultStmt>(l)) J.attribute("default", 1);
					}
					J.attributeArray("s", [&]{ for (auto it = b->succ_begin(); it != b->succ_end(); ++it) { const CFGBlock* s = it->getReachableBlock(); J.value(s ? (int)s->getBlockID() : -1); } });
					if (b->hasNoReturnElement()) J.attribute("nr", 1);
					J.objectEnd();
				}
			});
		}
		J.attributeArray("N", [&]{ for (size_t i = 0; i < nodes.size(); i++) emitNode(nodes[i]); });
		J.objectEnd();
	}
	std::vector<const FunctionDecl*> fns;
	bool VisitFunctionDecl(FunctionDecl* f)
	{
		if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return true;
		if (file(f->getLocation()).empty()) return true;
		if (f->isDeleted()) return true;
		fns.push_back(f); return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* r)
	{
		if (r->isThisDeclarationADefinition() && !r->isDependentContext() && !r->isLambda() && !file(r->getLocation()).empty() && seenDecl.insert(r).second) recs.push_back(r);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* e)
	{
		if (e->isThisDeclarationADefinition() && !e->isDependentContext() && !file(e->getLocation()).empty() && seenDecl.insert(e).second) enums.push_back(e);
		return true;
	}
	bool VisitVarDecl(VarDecl* v)
	{
		if (v->hasGlobalStorage() && !v->isStaticLocal() && !v->isTemplated() && !file(v->getLocation()).empty() && v->hasInit() && seenDecl.insert(v).second) globals.push_back(v);
		return true;
	}
	void run()
	{
		TraverseDecl(C.getTranslationUnitDecl());
		J.attributeArray("functions", [&]{ for (auto* f : fns) emitFunction(f); });
		J.attributeArray("globals", [&]{
			for (auto* v : globals)
			{
				ids.clear(); nodes.clear();
				J.objectBegin(); J.attribute("n", qn(v)); J.attribute("file", file(v->getLocation())); J.attribute("l", line(v->getLocation())); J.attribute("t", ty(v->getType()));
				J.attribute("i", id(v->getInit()));
				J.attributeArray("N", [&]{ for (size_t i = 0; i < nodes.size(); i++) emitNode(nodes[i]); });
				J.objectEnd();
			}
		});
		J.attributeArray("records", [&]{
			for (auto* r : recs)
			{
				J.objectBegin(); J.attribute("n", cls(r)); J.attribute("file", file(r->getLocation())); J.attribute("l", line(r->getLocation()));
				if (r->isPolymorphic()) J.attribute("poly", 1);
				J.attributeArray("bases", [&]{ for (auto& b : r->bases()) J.value(b.getType().getCanonicalType().getAsString(PP)); });
				J.attributeArray("fields", [&]{ for (auto* f : r->fields()) { J.objectBegin(); J.attribute("m", f->getName()); J.attribute("t", ty(f->getType()));
					if (f->getType()->isConstantArrayType()) J.attribute("sz", (int64_t)C.getTypeSizeInChars(f->getType()).getQuantity()); J.objectEnd(); } });
				J.attributeArray("methods", [&]{ for (auto* m : r->methods()) if (!m->isImplicit()) { J.objectBegin(); J.attribute("u", usr(m)); J.attribute("n", m->getNameAsString()); if (m->isVirtual()) J.attribute("vm", 1); if (m->isPureVirtual()) J.attribute("pure", 1); if (m->isStatic()) J.attribute("st", 1);
					J.attributeArray("ov", [&]{ for (auto* b : m->overridden_methods()) J.value(usr(b)); }); J.objectEnd(); } });
				J.objectEnd();
			}
		});
		J.attributeArray("enums", [&]{
			for (auto* e : enums)
			{
				J.objectBegin(); J.attribute("n", qn(e)); J.attribute("file", file(e->getLocation())); J.attribute("l", line(e->getLocation()));
				J.attributeArray("v", [&]{ for (auto* c : e->enumerators()) { J.arrayBegin(); J.value(qn(c)); J.value(c->getInitVal().getExtValue()); J.arrayEnd(); } });
				J.objectEnd();
			}
		});
		J.attributeArray("types", [&]{ for (auto& s : typeList) J.value(s); });
	}
};
struct Consumer : ASTConsumer
{
	std::string in; CompilerInstance& CI;
	Consumer(std::string i, CompilerInstance& ci) : in(i), CI(ci) {}
	void HandleTranslationUnit(ASTContext& c) override
	{
		if (c.getDiagnostics().hasErrorOccurred()) return;
		std::string o = in.substr(Root.size() + 1);
		for (char& ch : o) if (ch == '/') ch = '_';
		std::error_code ec; llvm::raw_fd_ostream os(OutDir + "/" + o + ".json", ec);
		OStream j(os);
		j.objectBegin(); j.attribute("tu", in.substr(Root.size() + 1));
		Extractor e(c, j); e.run();
		j.objectEnd();
	}
};
struct Action : ASTFrontendAction
{
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef f) override { return std::make_unique<Consumer>(f.str(), ci); }
};
struct Factory : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };

// extract ROOT OUTDIR file... -- flags
int main(int argc, char** argv)
{
	Root = argv[1]; OutDir = argv[2];
	std::vector<std::string> files, flags; int i = 3;
	for (; i < argc && std::string(argv[i]) != "--"; i++) files.push_back(argv[i]);
	for (i++; i < argc; i++) flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(Root, flags);
	tooling::ClangTool t(db, files);
	t.setPrintErrorMessage(false);
	Factory f; return t.run(&f);
}
