// zkx: dumps the type-checked program of one translation unit as compact JSON.
// One JSON object per line:
//   {"t":"F", ...}  function definition     {"t":"R", ...} record
//   {"t":"E", ...}  enum                    {"t":"G", ...} namespace-scope / static variable
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> g_roots;
static llvm::raw_ostream* g_out = nullptr;
static std::string g_tu;

namespace {
class Dumper {
public:
	explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), Names(c) {
		PP = PrintingPolicy(c.getLangOpts());
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
		PP.SuppressInlineNamespace = true;
		PP.SuppressUnwrittenScope = true;
		PP.Bool = true;
		PP.AnonymousTagLocations = true;
	}
	ASTContext& C;
	SourceManager& SM;
	ASTNameGenerator Names;
	PrintingPolicy PP {LangOptions()};
	std::map<Decl const*, int> ids;
	std::set<std::string> seenRec, seenEnum, seenFn, seenVar;

	int vid(Decl const* d) {
		d = d->getCanonicalDecl();
		auto it = ids.find(d);
		if (it != ids.end()) return it->second;
		int n = (int) ids.size() + 1;
		ids[d] = n;
		return n;
	}

	std::string file(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		auto f = SM.getFilename(l);
		return f.str();
	}
	std::string loc(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		if (l.isInvalid()) return "?";
		return SM.getFilename(l).str() + ":" + std::to_string(SM.getExpansionLineNumber(l));
	}
	std::string lc(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		if (l.isInvalid()) return "?";
		return std::to_string(SM.getExpansionLineNumber(l));
	}
	bool inRepo(SourceLocation l) {
		auto f = file(l);
		for (auto& r : g_roots)
			if (f.rfind(r, 0) == 0) return true;
		return false;
	}

	std::string ty(QualType t) {
		if (t.isNull()) return "?";
		return t.getCanonicalType().getAsString(PP);
	}

	// type descriptor: compact string
	//  i32 u8 f32 f64 bool void  E<name>:<under>  P<..> (pointer) &<..> (lref) &&  R<name>  A<n>x<..>  F(function) ?
	std::string td(QualType q) {
		if (q.isNull()) return "?";
		q = q.getCanonicalType();
		bool cst = q.isConstQualified();
		Type const* t = q.getTypePtr();
		std::string s;
		if (auto* b = dyn_cast<BuiltinType>(t)) {
			if (b->isVoidType()) s = "void";
			else if (b->getKind() == BuiltinType::Bool)
				s = "bool";
			else if (b->isInteger())
				s = (b->isSignedInteger() ? "i" : "u") + std::to_string(C.getTypeSize(q));
			else if (b->isFloatingPoint())
				s = "f" + std::to_string(C.getTypeSize(q));
			else if (b->isNullPtrType())
				s = "nullptr";
			else
				s = "?" + q.getAsString(PP);
			if (b->getKind() == BuiltinType::Char_S) s = "c8";
		} else if (auto* e = dyn_cast<EnumType>(t)) {
			noteEnum(e->getDecl());
			s = "E" + ty(q.getUnqualifiedType());
		} else if (auto* p = dyn_cast<PointerType>(t)) {
			s = "P" + td(p->getPointeeType());
		} else if (auto* p = dyn_cast<LValueReferenceType>(t)) {
			s = "&" + td(p->getPointeeType());
		} else if (auto* p = dyn_cast<RValueReferenceType>(t)) {
			s = "&&" + td(p->getPointeeType());
		} else if (auto* r = dyn_cast<RecordType>(t)) {
			noteRecord(r->getDecl());
			s = "R" + recName(r->getDecl());
		} else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
			s = "A" + std::to_string(a->getSize().getZExtValue()) + "x" + td(a->getElementType());
		} else if (t->isFunctionType()) {
			s = "Fn";
		} else if (t->isMemberPointerType()) {
			s = "MP";
		} else {
			s = "?" + q.getAsString(PP);
		}
		return (cst ? "K" : "") + s;
	}

	/// fields of packed file layouts (bit-fields of records private to a source file) carry their position
	std::string fieldName(FieldDecl const* f) {
		auto n = f->getNameAsString();
		if (f->isBitField() && !f->getParent()->isDependentType() && inRepo(f->getLocation()) &&
		    SM.getFilename(SM.getExpansionLoc(f->getLocation())).ends_with(".cc"))
			n += "#" + std::to_string(C.getFieldOffset(f)) + ":" + std::to_string(f->getBitWidthValue(C));
		return n;
	}
	std::string recName(RecordDecl const* d) {
		if (auto* cd = dyn_cast<CXXRecordDecl>(d))
			if (cd->isLambda()) return "lambda#" + fnKey(cd->getLambdaCallOperator());
		return ty(C.getRecordType(d).getUnqualifiedType());
	}

	std::string fnKey(FunctionDecl const* f) {
		if (!f) return "";
		FunctionDecl const* def = nullptr;
		f->hasBody(def);
		FunctionDecl const* k = def ? def : f->getCanonicalDecl();
		std::string key = k->getQualifiedNameAsString() + "|" + ty(k->getType());
		if (auto* md = dyn_cast<CXXMethodDecl>(k)) {
			if (md->getParent()->isLambda())
			{
				std::string outer;
				for (DeclContext const* dc = md->getParent()->getDeclContext(); dc; dc = dc->getParent())
					if (auto* of = dyn_cast<FunctionDecl>(dc)) {
						outer = fnKey(of);
						break;
					}
				key = "lambda@" + outer + "@" + g_tu + ":" + std::to_string(SM.getFileOffset(SM.getExpansionLoc(k->getLocation()))) + "|" + ty(k->getType());
			}
			else
				key = recName(md->getParent()) + "::" + k->getNameAsString() + "|" + ty(k->getType());
		}
		if (auto* ta = k->getTemplateSpecializationArgs()) {
			std::string s;
			for (auto const& a : ta->asArray()) {
				llvm::raw_string_ostream os(s);
				a.print(PP, os, true);
				os.flush();
				s += ",";
			}
			key += "<" + s + ">";
		}
		if (k->getFormalLinkage() == Linkage::Internal && !isa<CXXMethodDecl>(k)) key += "@" + file(k->getLocation());
		return key;
	}

	void noteEnum(EnumDecl const* d) {
		d = d->getDefinition() ? d->getDefinition() : d;
		std::string n = ty(C.getEnumType(d));
		if (!seenEnum.insert(n).second) return;
		Array cs;
		for (auto* c : d->enumerators()) cs.push_back(Array {c->getNameAsString(), apint(c->getInitVal())});
		emit(Object {{"t", "E"},
		             {"name", n},
		             {"under", d->getIntegerType().isNull() ? "i32" : td(d->getIntegerType())},
		             {"loc", loc(d->getLocation())},
		             {"cs", std::move(cs)}});
	}

	void noteRecord(RecordDecl const* d) {
		RecordDecl const* def = d->getDefinition();
		if (!def) return;
		d = def;
		std::string n = recName(d);
		if (!seenRec.insert(n).second) return;
		bool repo = inRepo(d->getLocation());
		auto* cd = dyn_cast<CXXRecordDecl>(d);
		if (d->isDependentType()) return;
		Array fs, bases, ms;
		if (repo) {
			for (auto* f : d->fields()) {
				Object fo {{"n", fieldName(f)}, {"ty", td(f->getType())}, {"l", lc(f->getLocation())}};
				if (f->isBitField()) fo["bits"] = (int64_t) f->getBitWidthValue(C);
				if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
				if (f->isMutable()) fo["mut"] = true;
				fs.push_back(std::move(fo));
			}
			if (cd) {
				for (auto& b : cd->bases()) bases.push_back(td(b.getType()));
				for (auto* m : cd->methods()) {
					Object mo {{"n", m->getNameAsString()}, {"key", fnKey(m)}};
					if (m->isVirtual()) mo["virt"] = true;
					if (m->isPureVirtual()) mo["pure"] = true;
					if (m->isDeleted()) mo["del"] = true;
					if (m->isImplicit()) mo["implicit"] = true;
					if (m->isDefaulted()) mo["defaulted"] = true;
					if (m->isUserProvided()) mo["user"] = true;
					if (m->isStatic()) mo["static"] = true;
					if (isa<CXXConstructorDecl>(m)) {
						auto* k = cast<CXXConstructorDecl>(m);
						mo["kind"] = k->isCopyConstructor() ? "copyctor" : k->isMoveConstructor() ? "movector" : "ctor";
					} else if (isa<CXXDestructorDecl>(m))
						mo["kind"] = "dtor";
					else if (m->isCopyAssignmentOperator())
						mo["kind"] = "copyassign";
					else if (m->isMoveAssignmentOperator())
						mo["kind"] = "moveassign";
					Array ov;
					for (auto* o : m->overridden_methods()) ov.push_back(fnKey(o));
					if (!ov.empty()) mo["over"] = std::move(ov);
					ms.push_back(std::move(mo));
				}
			}
		} else if (cd) {
			for (auto& b : cd->bases()) bases.push_back(td(b.getType()));
		}
		Object o {{"t", "R"}, {"name", n}, {"loc", loc(d->getLocation())}, {"repo", repo}, {"bases", std::move(bases)}, {"fs", std::move(fs)}, {"ms", std::move(ms)}};
		if (!d->isInvalidDecl() && !d->isDependentType()) o["size"] = (int64_t) C.getASTRecordLayout(d).getSize().getQuantity();
		if (cd) {
			o["qn"] = cd->getQualifiedNameAsString();
			o["lambda"] = cd->isLambda();
			o["trivcopy"] = cd->isTriviallyCopyable();
			if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(cd)) {
				Array ta;
				for (auto& a : sp->getTemplateArgs().asArray()) targ(ta, a);
				o["targs"] = std::move(ta);
			}
		}
		emit(std::move(o));
	}
	static Value apint(llvm::APSInt const& v) {
		if (v.isRepresentableByInt64()) return Value((int64_t) v.getExtValue());
		return Value("u:" + llvm::toString(v, 10));
	}
	void targ(Array& ta, TemplateArgument const& a) {
		switch (a.getKind()) {
		case TemplateArgument::Type: ta.push_back(td(a.getAsType())); break;
		case TemplateArgument::Integral: ta.push_back(apint(a.getAsIntegral())); break;
		case TemplateArgument::Pack:
			for (auto& x : a.pack_elements()) targ(ta, x);
			break;
		default: ta.push_back("?");
		}
	}

	void emit(Object o) {
		*g_out << Value(std::move(o)) << "\n";
	}

	Value jlist(llvm::iterator_range<ConstStmtIterator> r) {
		Array a;
		for (auto* s : r) a.push_back(stmt(s));
		return a;
	}

	// ---- variables -------------------------------------------------------------------------------------------
	Object varDecl(VarDecl const* v) {
		Object o {{"k", "var"}, {"id", vid(v)}, {"n", v->getNameAsString()}, {"ty", td(v->getType())}, {"l", lc(v->getLocation())}};
		if (v->isStaticLocal()) o["static"] = true;
		if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
		if (v->hasInit()) {
			o["init"] = expr(v->getInit());
			o["style"] = (int) v->getInitStyle();
		}
		if (auto* d = dyn_cast<DecompositionDecl>(v)) {
			Array bs;
			for (auto* b : d->bindings()) {
				Object bo {{"id", vid(b)}, {"n", b->getNameAsString()}};
				if (auto* hv = b->getHoldingVar()) {
					bo["hold"] = varDecl(hv);
				} else if (b->getBinding())
					bo["e"] = expr(b->getBinding());
				bs.push_back(std::move(bo));
			}
			o["bind"] = std::move(bs);
		}
		return o;
	}

	void globalVar(VarDecl const* v) {
		std::string n = v->getQualifiedNameAsString();
		if (v->isStaticLocal()) return;
		VarDecl const* def = v->getDefinition();
		if (def) v = def;
		if (!v->hasInit() && !v->isThisDeclarationADefinition()) return;
		std::string key = n + (v->getFormalLinkage() == Linkage::Internal ? "@" + file(v->getLocation()) : "");
		if (!seenVar.insert(key).second) return;
		if (v->getType()->isDependentType()) return;
		Object o {{"t", "G"}, {"name", n}, {"key", key}, {"ty", td(v->getType())}, {"loc", loc(v->getLocation())},
		          {"const", v->getType().isConstQualified() || v->isConstexpr()}, {"tls", v->getTLSKind() != VarDecl::TLS_None}};
		if (v->hasInit() && inRepo(v->getLocation())) o["init"] = expr(v->getInit());
		emit(std::move(o));
	}

	// ---- statements ------------------------------------------------------------------------------------------
	Value stmt(Stmt const* s) {
		if (!s) return nullptr;
		if (auto* e = dyn_cast<Expr>(s)) return Object {{"k", "expr"}, {"l", lc(e->getExprLoc())}, {"e", expr(e)}};
		std::string l = lc(s->getBeginLoc());
		switch (s->getStmtClass()) {
		case Stmt::CompoundStmtClass: {
			Array a;
			for (auto* c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c));
			return Object {{"k", "block"}, {"b", std::move(a)}};
		}
		case Stmt::DeclStmtClass: {
			Array a;
			for (auto* d : cast<DeclStmt>(s)->decls()) {
				if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
			}
			return Object {{"k", "decl"}, {"l", l}, {"d", std::move(a)}};
		}
		case Stmt::IfStmtClass: {
			auto* i = cast<IfStmt>(s);
			Object o {{"k", "if"}, {"l", l}};
			if (i->getInit()) o["init"] = stmt(i->getInit());
			if (i->getConditionVariable()) o["cv"] = varDecl(i->getConditionVariable());
			if (i->isConstexpr()) {
				o["cx"] = true;
			}
			o["c"] = expr(i->getCond());
			o["th"] = stmt(i->getThen());
			if (i->getElse()) o["el"] = stmt(i->getElse());
			return o;
		}
		case Stmt::ForStmtClass: {
			auto* f = cast<ForStmt>(s);
			Object o {{"k", "for"}, {"l", l}};
			if (f->getInit()) o["init"] = stmt(f->getInit());
			if (f->getConditionVariable()) o["cv"] = varDecl(f->getConditionVariable());
			if (f->getCond()) o["c"] = expr(f->getCond());
			if (f->getInc()) o["inc"] = expr(f->getInc());
			o["b"] = stmt(f->getBody());
			return o;
		}
		case Stmt::WhileStmtClass: {
			auto* f = cast<WhileStmt>(s);
			Object o {{"k", "while"}, {"l", l}};
			if (f->getConditionVariable()) o["cv"] = varDecl(f->getConditionVariable());
			o["c"] = expr(f->getCond());
			o["b"] = stmt(f->getBody());
			return o;
		}
		case Stmt::DoStmtClass: {
			auto* f = cast<DoStmt>(s);
			return Object {{"k", "do"}, {"l", l}, {"c", expr(f->getCond())}, {"b", stmt(f->getBody())}};
		}
		case Stmt::CXXForRangeStmtClass: {
			auto* f = cast<CXXForRangeStmt>(s);
			Object o {{"k", "rfor"}, {"l", l}};
			if (f->getInit()) o["init"] = stmt(f->getInit());
			o["r"] = expr(f->getRangeInit());
			o["v"] = varDecl(f->getLoopVariable());
			o["b"] = stmt(f->getBody());
			return o;
		}
		case Stmt::SwitchStmtClass: {
			auto* w = cast<SwitchStmt>(s);
			Object o {{"k", "switch"}, {"l", l}};
			if (w->getInit()) o["init"] = stmt(w->getInit());
			if (w->getConditionVariable()) o["cv"] = varDecl(w->getConditionVariable());
			o["c"] = expr(w->getCond());
			o["b"] = stmt(w->getBody());
			o["allenum"] = w->isAllEnumCasesCovered();
			return o;
		}
		case Stmt::CaseStmtClass: {
			auto* c = cast<CaseStmt>(s);
			return Object {{"k", "case"}, {"l", l}, {"v", expr(c->getLHS())}, {"s", stmt(c->getSubStmt())}};
		}
		case Stmt::DefaultStmtClass: {
			auto* c = cast<DefaultStmt>(s);
			return Object {{"k", "default"}, {"l", l}, {"s", stmt(c->getSubStmt())}};
		}
		case Stmt::BreakStmtClass: return Object {{"k", "break"}, {"l", l}};
		case Stmt::ContinueStmtClass: return Object {{"k", "continue"}, {"l", l}};
		case Stmt::NullStmtClass: return Object {{"k", "null"}};
		case Stmt::ReturnStmtClass: {
			auto* r = cast<ReturnStmt>(s);
			Object o {{"k", "return"}, {"l", l}};
			if (r->getRetValue()) o["e"] = expr(r->getRetValue());
			return o;
		}
		case Stmt::CXXTryStmtClass: {
			auto* t = cast<CXXTryStmt>(s);
			Array hs;
			for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
				auto* h = t->getHandler(i);
				Object ho {{"l", lc(h->getBeginLoc())}, {"b", stmt(h->getHandlerBlock())}};
				if (h->getExceptionDecl()) {
					ho["v"] = varDecl(h->getExceptionDecl());
					ho["ty"] = td(h->getCaughtType());
				}
				hs.push_back(std::move(ho));
			}
			return Object {{"k", "try"}, {"l", l}, {"b", stmt(t->getTryBlock())}, {"h", std::move(hs)}};
		}
		case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
		case Stmt::LabelStmtClass: return Object {{"k", "label"}, {"n", cast<LabelStmt>(s)->getName()}, {"s", stmt(cast<LabelStmt>(s)->getSubStmt())}};
		case Stmt::GotoStmtClass: return Object {{"k", "goto"}, {"l", l}, {"n", cast<GotoStmt>(s)->getLabel()->getNameAsString()}};
		default: break;
		}
		return Object {{"k", "ustmt"}, {"l", l}, {"cls", s->getStmtClassName()}};
	}

	// ---- expressions -----------------------------------------------------------------------------------------
	Value constVal(Expr const* e, bool& ok) {
		ok = false;
		if (e->isValueDependent() || e->isTypeDependent()) return nullptr;
		QualType t = e->getType().getCanonicalType();
		if (e->isGLValue()) return nullptr;
		if (t->isIntegralOrEnumerationType()) {
			Expr::EvalResult r;
			if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
				ok = true;
				auto v = r.Val.getInt();
				return apint(v);
			}
		}
		return nullptr;
	}

	Value expr(Expr const* e) {
		if (!e) return nullptr;
		bool ok = false;
		if (!isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e) && !isa<CharacterLiteral>(e)) {
			Value cv = constVal(e, ok);
			if (ok) {
				Object o {{"k", "int"}, {"v", std::move(cv)}, {"ty", td(e->getType())}};
				// keep which global/enum it names (for reports only)
				Expr const* b = e->IgnoreParenImpCasts();
				if (auto* dr = dyn_cast<DeclRefExpr>(b)) o["n"] = dr->getDecl()->getNameAsString();
				return o;
			}
		}
		Object o = expr1(e);
		return o;
	}

	Object ex(char const* k, Expr const* e) {
		return Object {{"k", k}, {"ty", td(e->getType())}, {"l", lc(e->getExprLoc())}};
	}

	Array args(Expr const* const* a, unsigned n) {
		Array r;
		for (unsigned i = 0; i < n; ++i) r.push_back(expr(a[i]));
		return r;
	}

	void callee(Object& o, FunctionDecl const* f) {
		o["f"] = fnKey(f);
		o["fn"] = f->getQualifiedNameAsString();
		if (inRepo(f->getLocation())) o["repo"] = true;
		if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
			if (m->isVirtual()) o["virt"] = true;
			if (m->isConst()) o["cm"] = true;
			if (m->isStatic()) o["st"] = true;
		}
		if (auto* fpt = f->getType()->getAs<FunctionProtoType>()) {
			if (fpt->isNothrow()) o["ne"] = true;
		}
		if (auto* ta = f->getTemplateSpecializationArgs()) {
			Array t;
			for (auto& a : ta->asArray()) targ(t, a);
			o["ta"] = std::move(t);
		}
		if (f->isNoReturn() || f->hasAttr<NoReturnAttr>()) o["nr"] = true;
		// parameter types (for by-ref knowledge)
		Array pt;
		for (auto* p : f->parameters()) pt.push_back(td(p->getType()));
		o["pt"] = std::move(pt);
	}

	Object expr1(Expr const* e) {
		switch (e->getStmtClass()) {
		case Stmt::ParenExprClass: return expr1u(cast<ParenExpr>(e)->getSubExpr());
		case Stmt::ExprWithCleanupsClass: return expr1u(cast<ExprWithCleanups>(e)->getSubExpr());
		case Stmt::MaterializeTemporaryExprClass: return expr1u(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
		case Stmt::CXXBindTemporaryExprClass: return expr1u(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
		case Stmt::ConstantExprClass: return expr1u(cast<ConstantExpr>(e)->getSubExpr());
		case Stmt::SubstNonTypeTemplateParmExprClass: return expr1u(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
		case Stmt::CXXDefaultArgExprClass: return expr1u(cast<CXXDefaultArgExpr>(e)->getExpr());
		case Stmt::CXXDefaultInitExprClass: return expr1u(cast<CXXDefaultInitExpr>(e)->getExpr());
		case Stmt::CXXStdInitializerListExprClass: return expr1u(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
		case Stmt::CXXRewrittenBinaryOperatorClass: return expr1u(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
		case Stmt::OpaqueValueExprClass: if (cast<OpaqueValueExpr>(e)->getSourceExpr()) return expr1u(cast<OpaqueValueExpr>(e)->getSourceExpr()); break;
		case Stmt::IntegerLiteralClass: {
			auto v = cast<IntegerLiteral>(e)->getValue();
			Object o {{"k", "int"}, {"ty", td(e->getType())}};
			if (e->getType()->isUnsignedIntegerType()) {
				if (v.getActiveBits() > 63) o["v"] = "u:" + llvm::toString(v, 10, false);
				else o["v"] = (int64_t) v.getZExtValue();
			} else
				o["v"] = (int64_t) v.getSExtValue();
			return o;
		}
		case Stmt::CXXBoolLiteralExprClass: return Object {{"k", "int"}, {"v", cast<CXXBoolLiteralExpr>(e)->getValue() ? 1 : 0}, {"ty", "bool"}};
		case Stmt::CharacterLiteralClass: return Object {{"k", "int"}, {"v", (int64_t) cast<CharacterLiteral>(e)->getValue()}, {"ty", td(e->getType())}};
		case Stmt::FloatingLiteralClass: {
			return Object {{"k", "flt"}, {"v", cast<FloatingLiteral>(e)->getValueAsApproximateDouble()}, {"ty", td(e->getType())}};
		}
		case Stmt::StringLiteralClass: {
			auto* s = cast<StringLiteral>(e);
			std::string b = s->getCharByteWidth() == 1 ? s->getString().str() : std::string("?wide");
			if (!llvm::json::isUTF8(b)) b = llvm::json::fixUTF8(b);
			return Object {{"k", "str"}, {"v", b}, {"n", (int64_t) s->getLength()}, {"ty", td(e->getType())}};
		}
		case Stmt::CXXNullPtrLiteralExprClass:
		case Stmt::GNUNullExprClass: return Object {{"k", "null"}, {"ty", "nullptr"}};
		case Stmt::CXXThisExprClass: return ex("this", e);
		case Stmt::DeclRefExprClass: {
			auto* d = cast<DeclRefExpr>(e)->getDecl();
			if (auto* b = dyn_cast<BindingDecl>(d)) {
				Object o = ex("ref", e);
				o["id"] = vid(b);
				o["n"] = d->getNameAsString();
				o["bd"] = true;
				return o;
			}
			if (auto* v = dyn_cast<VarDecl>(d)) {
				Object o = ex("ref", e);
				o["n"] = d->getNameAsString();
				if (v->hasGlobalStorage() && !v->isStaticLocal()) {
					VarDecl const* def = v->getDefinition();
					VarDecl const* k = def ? def : v;
					o["g"] = k->getQualifiedNameAsString() + (k->getFormalLinkage() == Linkage::Internal ? "@" + file(k->getLocation()) : "");
					globalVar(v);
				} else
					o["id"] = vid(v);
				if (v->isStaticLocal()) o["static"] = true;
				return o;
			}
			if (auto* f = dyn_cast<FunctionDecl>(d)) {
				Object o = ex("fref", e);
				callee(o, f);
				return o;
			}
			Object o = ex("ref", e);
			o["n"] = d->getNameAsString();
			o["id"] = vid(d);
			return o;
		}
		case Stmt::MemberExprClass: {
			auto* m = cast<MemberExpr>(e);
			auto* d = m->getMemberDecl();
			if (auto* f = dyn_cast<FieldDecl>(d)) {
				Object o = ex("mem", e);
				o["b"] = expr(m->getBase());
				o["n"] = fieldName(f);
				if (f->isBitField() && !f->getParent()->isDependentType()) o["bits"] = (int64_t) f->getBitWidthValue(C);
				o["cls"] = recName(f->getParent());
				if (m->isArrow()) o["arrow"] = true;
				return o;
			}
			if (auto* v = dyn_cast<VarDecl>(d)) {
				Object o = ex("ref", e);
				o["n"] = v->getNameAsString();
				o["g"] = v->getQualifiedNameAsString();
				globalVar(v);
				return o;
			}
			Object o = ex("mfn", e);
			o["b"] = expr(m->getBase());
			if (auto* f = dyn_cast<FunctionDecl>(d)) callee(o, f);
			if (m->isArrow()) o["arrow"] = true;
			return o;
		}
		case Stmt::CXXMemberCallExprClass: {
			auto* c = cast<CXXMemberCallExpr>(e);
			Object o = ex("mcall", e);
			if (auto* f = c->getMethodDecl()) {
				callee(o, f);
				o["m"] = f->getNameAsString();
				o["cls"] = recName(f->getParent());
				if (f->isVirtual()) {
					if (auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens()))
						if (me->hasQualifier()) o["nonvirt"] = true;
				}
			}
			o["o"] = expr(c->getImplicitObjectArgument());
			if (auto* io = c->getImplicitObjectArgument())
				if (io->getType()->isPointerType()) o["arrow"] = true;
			o["a"] = args(c->getArgs(), c->getNumArgs());
			return o;
		}
		case Stmt::CXXOperatorCallExprClass: {
			auto* c = cast<CXXOperatorCallExpr>(e);
			Object o = ex("ocall", e);
			o["op"] = getOperatorSpelling(c->getOperator());
			if (auto* f = c->getDirectCallee()) {
				callee(o, f);
				if (auto* md = dyn_cast<CXXMethodDecl>(f)) {
					o["cls"] = recName(md->getParent());
					o["memop"] = true;
				}
			}
			o["a"] = args(c->getArgs(), c->getNumArgs());
			return o;
		}
		case Stmt::UserDefinedLiteralClass:
		case Stmt::CallExprClass: {
			auto* c = cast<CallExpr>(e);
			Object o = ex("call", e);
			if (auto* f = c->getDirectCallee())
				callee(o, f);
			else
				o["fe"] = expr(c->getCallee());
			o["a"] = args(c->getArgs(), c->getNumArgs());
			return o;
		}
		case Stmt::CXXTemporaryObjectExprClass:
		case Stmt::CXXConstructExprClass: {
			auto* c = cast<CXXConstructExpr>(e);
			Object o = ex("ctor", e);
			auto* k = c->getConstructor();
			callee(o, k);
			o["cls"] = recName(k->getParent());
			if (k->isCopyConstructor()) o["copy"] = true;
			if (k->isMoveConstructor()) o["move"] = true;
			if (k->isDefaultConstructor()) o["dflt"] = true;
			if (k->isTrivial()) o["triv"] = true;
			if (c->isListInitialization()) o["list"] = true;
			if (c->isStdInitListInitialization()) o["ilist"] = true;
			if (c->requiresZeroInitialization()) o["zero"] = true;
			if (c->isElidable()) o["elide"] = true;
			o["a"] = args(c->getArgs(), c->getNumArgs());
			return o;
		}
		case Stmt::CXXInheritedCtorInitExprClass: return ex("ictor", e);
		case Stmt::CXXScalarValueInitExprClass:
		case Stmt::ImplicitValueInitExprClass: return ex("zero", e);
		case Stmt::InitListExprClass: {
			auto* il = cast<InitListExpr>(e);
			if (il->isSyntacticForm() && il->getSemanticForm()) il = il->getSemanticForm();
			if (il->isTransparent() && il->getNumInits() == 1) return expr1u(il->getInit(0));
			Object o = ex("ilist", e);
			Array a;
			for (unsigned i = 0; i < il->getNumInits(); ++i) a.push_back(expr(il->getInit(i)));
			if (il->hasArrayFiller() ) o["fill"] = expr(il->getArrayFiller());
			if (il->getInitializedFieldInUnion()) o["uf"] = il->getInitializedFieldInUnion()->getNameAsString();
			o["a"] = std::move(a);
			return o;
		}
		case Stmt::CXXNewExprClass: {
			auto* n = cast<CXXNewExpr>(e);
			Object o = ex("new", e);
			if (n->isArray() && n->getArraySize()) o["n"] = expr(*n->getArraySize());
			if (n->getInitializer()) o["i"] = expr(n->getInitializer());
			o["at"] = td(n->getAllocatedType());
			return o;
		}
		case Stmt::CXXDeleteExprClass: {
			auto* n = cast<CXXDeleteExpr>(e);
			Object o = ex("delete", e);
			o["e"] = expr(n->getArgument());
			if (n->isArrayForm()) o["arr"] = true;
			return o;
		}
		case Stmt::BinaryOperatorClass: {
			auto* b = cast<BinaryOperator>(e);
			Object o = ex(b->isAssignmentOp() ? "asg" : "bin", e);
			o["op"] = b->getOpcodeStr();
			o["a"] = expr(b->getLHS());
			o["b"] = expr(b->getRHS());
			return o;
		}
		case Stmt::CompoundAssignOperatorClass: {
			auto* b = cast<CompoundAssignOperator>(e);
			Object o = ex("casg", e);
			o["op"] = b->getOpcodeStr();
			o["ct"] = td(b->getComputationResultType());
			o["a"] = expr(b->getLHS());
			o["b"] = expr(b->getRHS());
			return o;
		}
		case Stmt::UnaryOperatorClass: {
			auto* u = cast<UnaryOperator>(e);
			Object o = ex("un", e);
			o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode());
			if (u->getOpcode() == UO_AddrOf && e->getType()->isMemberPointerType()) {
				if (auto* d = dyn_cast<DeclRefExpr>(u->getSubExpr()->IgnoreParens())) o["mem"] = d->getDecl()->getQualifiedNameAsString();
			}
			if (u->isPostfix()) o["post"] = true;
			o["e"] = expr(u->getSubExpr());
			return o;
		}
		case Stmt::ConditionalOperatorClass: {
			auto* c = cast<ConditionalOperator>(e);
			Object o = ex("cond", e);
			o["c"] = expr(c->getCond());
			o["a"] = expr(c->getTrueExpr());
			o["b"] = expr(c->getFalseExpr());
			return o;
		}
		case Stmt::ArraySubscriptExprClass: {
			auto* a = cast<ArraySubscriptExpr>(e);
			Object o = ex("sub", e);
			o["a"] = expr(a->getBase());
			o["b"] = expr(a->getIdx());
			return o;
		}
		case Stmt::CXXThrowExprClass: {
			Object o = ex("throw", e);
			if (auto* s = cast<CXXThrowExpr>(e)->getSubExpr()) {
				o["e"] = expr(s);
				o["ety"] = td(s->getType());
			}
			return o;
		}
		case Stmt::LambdaExprClass: {
			auto* lx = cast<LambdaExpr>(e);
			Object o = ex("lambda", e);
			Array caps;
			auto ci = lx->capture_init_begin();
			for (auto const& c : lx->captures()) {
				Object co;
				if (c.capturesThis()) co["this"] = true;
				else if (c.capturesVariable()) {
					co["id"] = vid(c.getCapturedVar());
					co["n"] = c.getCapturedVar()->getNameAsString();
					co["ref"] = c.getCaptureKind() == LCK_ByRef;
					if (c.getCaptureKind() == LCK_ByCopy && *ci) co["init"] = expr(*ci);
					if (lx->isInitCapture(&c)) co["ic"] = true;
				}
				caps.push_back(std::move(co));
				++ci;
			}
			o["caps"] = std::move(caps);
			if (auto* tpl = lx->getLambdaClass()->getDependentLambdaCallOperator()) {
				Array fs;
				for (auto* sp : tpl->specializations()) {
					function(sp, true);
					if (sp->hasBody()) fs.push_back(fnKey(sp));
				}
				o["fs"] = std::move(fs);
				o["generic"] = true;
			}
			auto* op = lx->getCallOperator();
			if (!op->isDependentContext()) {
				o["f"] = fnKey(op);
				function(op, true);
			}
			return o;
		}
		case Stmt::ImplicitCastExprClass:
		case Stmt::CStyleCastExprClass:
		case Stmt::CXXStaticCastExprClass:
		case Stmt::CXXFunctionalCastExprClass:
		case Stmt::CXXReinterpretCastExprClass:
		case Stmt::CXXConstCastExprClass:
		case Stmt::CXXDynamicCastExprClass: {
			auto* c = cast<CastExpr>(e);
			switch (c->getCastKind()) {
			case CK_LValueToRValue:
			case CK_NoOp:
			case CK_FunctionToPointerDecay:
			case CK_UserDefinedConversion:
			case CK_ConstructorConversion:
				return expr1u(c->getSubExpr());
			default: break;
			}
			Object o = ex("cast", e);
			o["ck"] = c->getCastKindName();
			if (isa<CXXReinterpretCastExpr>(e)) o["rc"] = true;
			if (!isa<ImplicitCastExpr>(e)) o["x"] = true;
			o["e"] = expr(c->getSubExpr());
			o["from"] = td(c->getSubExpr()->getType());
			return o;
		}
		case Stmt::CXXTypeidExprClass: {
			auto* t = cast<CXXTypeidExpr>(e);
			Object o = ex("typeid", e);
			if (t->isTypeOperand()) o["of"] = td(t->getTypeOperand(C));
			else o["e"] = expr(t->getExprOperand());
			return o;
		}
		case Stmt::CXXPseudoDestructorExprClass: return ex("void", e);
		case Stmt::ArrayInitLoopExprClass: {
			Object o = ex("ailoop", e);
			o["e"] = expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr()->getSourceExpr());
			return o;
		}
		default: break;
		}
		Object o = ex("uexpr", e);
		o["cls"] = e->getStmtClassName();
		Array a;
		for (auto* c : e->children())
			if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
		o["a"] = std::move(a);
		return o;
	}
	Object expr1u(Expr const* e) {
		Value v = expr(e);
		if (auto* o = v.getAsObject()) return std::move(*o);
		return Object {{"k", "null"}};
	}

	// ---- functions -------------------------------------------------------------------------------------------
	void function(FunctionDecl const* f, bool force = false) {
		FunctionDecl const* def = nullptr;
		if (!f->hasBody(def)) {
			return;
		}
		f = def;
		if (f->isDependentContext() || f->getType()->isDependentType()) return;
		if (!force && !inRepo(f->getLocation())) return;
		std::string key = fnKey(f);
		if (!seenFn.insert(key).second) return;
		Object o {{"t", "F"}, {"key", key}, {"name", f->getQualifiedNameAsString()}, {"loc", loc(f->getLocation())}, {"ret", td(f->getReturnType())}};
		Array ps;
		for (auto* p : f->parameters()) ps.push_back(Object {{"id", vid(p)}, {"n", p->getNameAsString()}, {"ty", td(p->getType())}});
		o["ps"] = std::move(ps);
		if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = recName(m->getParent());
			o["m"] = m->getNameAsString();
			if (m->isStatic()) o["static"] = true;
			if (m->isVirtual()) o["virt"] = true;
			if (m->isConst()) o["cm"] = true;
			if (m->isDefaulted()) o["defaulted"] = true;
			Array ov;
			for (auto* x : m->overridden_methods()) ov.push_back(fnKey(x));
			if (!ov.empty()) o["over"] = std::move(ov);
		}
		if (auto* fpt = f->getType()->getAs<FunctionProtoType>()) {
			if (fpt->isNothrow()) o["ne"] = true;
		}
		if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
		o["access"] = (int) f->getAccess();
		o["linkage"] = (int) f->getFormalLinkage();
		if (auto* ta = f->getTemplateSpecializationArgs()) {
			Array t;
			for (auto& a : ta->asArray()) targ(t, a);
			o["ta"] = std::move(t);
		}
		if (auto* k = dyn_cast<CXXConstructorDecl>(f)) {
			o["ctor"] = true;
			Array is;
			for (auto* i : k->inits()) {
				Object io;
				if (i->isAnyMemberInitializer()) io["m"] = i->getMember() ? fieldName(i->getMember()) : i->getAnyMember()->getNameAsString();
				else if (i->isBaseInitializer())
					io["base"] = td(QualType(i->getBaseClass(), 0));
				else if (i->isDelegatingInitializer())
					io["deleg"] = true;
				io["e"] = expr(i->getInit());
				io["w"] = i->isWritten();
				is.push_back(std::move(io));
			}
			o["inits"] = std::move(is);
		}
		o["endl"] = lc(f->getEndLoc());
		o["b"] = stmt(f->getBody());
		emit(std::move(o));
	}
};

class V : public RecursiveASTVisitor<V> {
public:
	explicit V(ASTContext& c) : D(c) {}
	Dumper D;
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool TraverseDecl(Decl* d) {
		if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d)) {
			if (!D.inRepo(d->getLocation())) return true;
		}
		return RecursiveASTVisitor<V>::TraverseDecl(d);
	}
	bool VisitFunctionDecl(FunctionDecl* f) {
		if (f->isThisDeclarationADefinition() && D.inRepo(f->getLocation())) {
			if (auto* m = dyn_cast<CXXMethodDecl>(f))
				if (m->getParent()->isLambda()) return true;
			D.function(f);
		}
		return true;
	}
	bool VisitRecordDecl(RecordDecl* r) {
		if (r->isCompleteDefinition() && !r->isDependentType() && D.inRepo(r->getLocation()))
			if (auto* c = dyn_cast<CXXRecordDecl>(r))
				if (!c->isLambda() && !c->isDependentContext()) D.noteRecord(r);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* r) {
		if (D.inRepo(r->getLocation()) && !r->isDependentType()) D.noteEnum(r);
		return true;
	}
	bool VisitVarDecl(VarDecl* v) {
		if (v->hasGlobalStorage() && !v->isStaticLocal() && D.inRepo(v->getLocation()) && !v->getType()->isDependentType() && !v->getDeclContext()->isDependentContext()) D.globalVar(v);
		return true;
	}
};

class Cons : public ASTConsumer {
public:
	void HandleTranslationUnit(ASTContext& c) override {
		V v(c);
		v.TraverseDecl(c.getTranslationUnitDecl());
	}
};
class Act : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};
} // namespace

// usage: zkx OUT ROOT[,ROOT...] FILE -- flags
int main(int argc, char const** argv) {
	if (argc < 5) return 2;
	std::string out = argv[1], roots = argv[2], file = argv[3];
	size_t p = 0;
	while (p != std::string::npos) {
		size_t q = roots.find(',', p);
		g_roots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
		p = q == std::string::npos ? q : q + 1;
	}
	g_tu = file;
	std::vector<std::string> flags(argv + 5, argv + argc);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {file});
	std::error_code ec;
	llvm::raw_fd_ostream os(out, ec);
	if (ec) return 2;
	g_out = &os;
	int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
	os.flush();
	return rc;
}
