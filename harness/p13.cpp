// P13: compile time macros: the expanded program compared with a reference expansion; run time macros: evaluation compared with a reference interpreter.
#include "interp.h"
struct Exp
{
	RInterp ri; std::map<std::string, RMacro> ct; int steps = 0;
	bool Expand(const RV & x, RV & r)	// false: removed
	{
		if (++steps > 3000) throw ROver();
		if (x.k != 'L' || x.l->empty() || x.s == "data") { r = x; return true; }	// quoted actual arguments are data
		auto & l = *x.l;
		if (l[0].k == 'Y' && l[0].s == "define-macro-expand")
		{
			if (l.size() != 4) throw RErr{ "macro" };
			RV b; if (!Expand(l[3], b)) throw RErr{ "macro" };
			ct[l[1].s] = RMacro{ RInterp::Formals(l[2]), b }; return false;
		}
		if (l[0].k == 'Y' && ct.count(l[0].s))
		{
			RMacro ma = ct[l[0].s]; std::vector<RV> a = l;
			for (size_t i = 1; i < a.size() && i <= ma.formals.size(); i++) { RV v; a[i] = Expand(a[i], v) ? v : RV::Nil(); }
			auto m = RInterp::Actuals(ma, a); RV q = RV::L(std::vector<RV>(l.begin() + 1, l.end())); q.s = "data"; m["quoted-macro-args"] = RV::L({ Sy("quote"), q });
			RV code = ri.Eval(RInterp::Subst(ma.body, m), ri.global); if (code.k == 'L') code.s = "";
			return Expand(code, r);
		}
		std::vector<RV> o; for (auto & e : l) { RV v; if (Expand(e, v)) o.push_back(v); }
		r = RV::L(o); return true;
	}
};
struct G
{
	Ctx & c; std::vector<std::pair<std::string, int>> ms; std::vector<std::string> formals; bool quoted, calls = true;	// quoted: macros which yield their quoted arguments as data; their calls are not nested in other calls
	explicit G(Ctx & x) : c(x), quoted(x.rng.Chance(50)) {}
	RV Atom() { switch (c.rng.Below(8)) { case 0: return RV::S(c.rng.Pick(std::vector<std::string>{ "x", "y", "z", "foo", "quoted-macro-args" })); case 1: return RV::Nil(); case 2: case 3: case 4: return Sy(c.rng.Pick(std::vector<std::string>{ "x", "y", "z", "x", "foo", "+", "list" })); case 5: if (!formals.empty()) return Sy(c.rng.Pick(formals)); default: return RV::I((int)c.rng.Below(10)); } }
	RV Code(int d)
	{
		if (d <= 0 || c.rng.Chance(30)) return Atom();
		if (calls && !ms.empty() && c.rng.Chance(35)) { calls = !quoted; auto m = c.rng.Pick(ms); std::vector<RV> a; int n = m.second + (c.rng.Chance(10) ? 1 : 0) - (c.rng.Chance(2) ? 1 : 0); for (int i = 0; i < n; i++) a.push_back(Code(d - 1)); calls = true; return Call(m.first, a); }
		std::vector<RV> r; size_t n = c.rng.Below(5); for (size_t i = 0; i < n; i++) r.push_back(Code(d - 1));
		if (!r.empty() && r[0].k == 'S') r[0] = Sy("foo");
		return Ls(r);
	}
	RV Macro(std::string name)
	{
		int n = (int)c.rng.Below(4); formals.clear(); std::vector<std::string> pool{ "x", "y", "z", "foo" }; std::vector<RV> fo; for (int i = 0; i < n; i++) { size_t k = c.rng.Below(pool.size()); formals.push_back(pool[k]); fo.push_back(Sy(pool[k])); pool.erase(pool.begin() + k); }
		RV body;
		switch (c.rng.Below(6))
		{
			case 0: { std::vector<RV> a{ Call("quote", { Sy("+") }) }; for (auto & f : formals) a.push_back(Call("quote", { Sy(f) })); body = Call("list", a); break; }
			case 1: body = Call("cons", { Call("quote", { Sy("do") }), Call("quoted-macro-args") }); break;
			case 2: { RV t = Code(2); if (t.k != 'L') t = Ls({ t }); t.l->push_back(Call("_unquote", { Call("+", { RV::I(1), RV::I(2) }) })); t.l->push_back(Call("_unquotesplicing", { Call("quoted-macro-args") })); if (t.l->size() == 2) t.l->insert(t.l->begin(), Sy("foo")); body = Call("quasiquote", { t }); break; }
			default: { RV t = Code(3); if (quoted && c.rng.Chance(30) && t.k == 'L') t.l->push_back(Call("quoted-macro-args")); body = Call("quote", { t }); }
		}
		formals.clear(); for (size_t i = 0; i < ms.size(); i++) if (ms[i].first == name) ms.erase(ms.begin() + i--); ms.push_back({ name, n });
		return Call("define-macro-expand", { Sy(name), Ls(fo), body });
	}
};
static void ExpandCase(Ctx & c)
{
	for (int rep = 0; rep < 4; rep++)
	{
		Exp x; G g(c); ScopeP sc = CppLisp::LispEnvironment::CreateDefaultScope();
		for (int part = 0; part < 3; part++)
		{
			std::vector<RV> p; size_t n = 1 + c.rng.Below(5);
			for (size_t i = 0; i < n; i++) p.push_back(c.rng.Chance(45) ? g.Macro(!g.ms.empty() && c.rng.Chance(20) ? c.rng.Pick(g.ms).first : "m" + std::to_string(part) + std::to_string(i)) : g.Code(4));
			std::string text = ProgText(p), should; std::vector<RV> all{ Sy("do") }; all.insert(all.end(), p.begin(), p.end());
			try { RV r; should = x.Expand(Ls(all), r) ? Show(r) : "<removed>"; }
			catch (RErr &) { should = ErrText(); } catch (ROver &) { break; }
			if (should.size() > 4000) break;
			c.Case(text); std::string is, msg;
			try { auto r = CppLisp::Lisp::Eval(text, sc, "main", false, std::make_shared<CppLisp::TextWriter>(true), std::shared_ptr<CppLisp::TextReader>(), true); is = Show(FromVariant(*r)); c.Value(); }
			catch (CppLisp::LispExceptionBase & e) { is = ErrText(); msg = e.Message; }
			if (is != should) c.Fail("expanded program is " + is + msg.substr(0, 150) + " should be " + should);
			if (is == ErrText()) break;
		}
	}
}
static void RunCase(Ctx & c)
{
	RInterp ri; ScopeP sc = CppLisp::LispEnvironment::CreateDefaultScope();
	int parts = 1 + (int)c.rng.Below(6);
	PGen g(c, c.rng.Chance(30)); g.macros = true;
	for (int i = 0; i < parts; i++)
	{
		std::vector<RV> p = g.Program(2, 3, i == 0);
		for (int k = 0; k < 3; k++) { g.budget = 25; p.push_back(g.Macro(4)); g.budget = 25; auto m = c.rng.Pick(g.macroNames); std::vector<RV> a; for (int j = 0; j < m.second; j++) a.push_back(g.Int(2)); p.push_back(Call("println", { Call(m.first, a), Sy("a"), Sy("b"), Sy("x"), Sy("y"), Sy("n") })); p.push_back(g.Stmt(3)); }
		if (!Compare(c, p, ProgText(p), ri, sc)) break;
	}
}
void Run(Ctx & c) { while (c.Time()) { ExpandCase(c); if (c.rng.Chance(60)) RunCase(c); } }
