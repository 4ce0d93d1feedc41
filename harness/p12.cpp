// P12: quoted expressions and quasiquote templates of every shape, evaluated once and repeatedly, compared with a reference.
#include "interp.h"
struct G : PGen
{
	G(Ctx & x) : PGen(x, false) {}
	RV Atom() { switch (c.rng.Below(8)) { case 0: return RV::Nil(); case 1: return RV::B(c.rng.Chance(50)); case 2: return RV::S(GenStr(c)); case 3: return RV::F(c.rng.Pick(std::vector<double>{ 0.5, -2.25, 1e10 })); case 4: case 5: return Name(c.rng.Chance(50) ? ints : std::vector<std::string>{ "foo", "if", "+", "quote", "do", "l", "nil2" }); default: return Lit(); } }
	RV Data(int d) { if (d <= 0 || c.rng.Chance(45)) return Atom(); std::vector<RV> r; size_t n = c.rng.Below(5); for (size_t i = 0; i < n; i++) r.push_back(Data(d - 1)); if (n == 2 && r[0].k == 'Y' && r[0].s[0] == '_') r.pop_back(); return Ls(r); }
	RV Val(int d) { switch (c.rng.Below(6)) { case 0: return Call("quote", { Data(2) }); case 1: return Int(d); case 2: return List(d); case 3: { RV a = Atom(); return a.k == 'Y' ? Call("quote", { a }) : a; } case 4: return Name(c.rng.Chance(50) ? ints : lists); default: return Call("quasiquote", { Ls({ Lit(), Sy("foo"), Call("_unquote", { Int(d - 1) }) }) }); } }
	RV Seq(int d) { switch (c.rng.Below(5)) { case 0: return Call("quote", { Ls({}) }); case 1: { RV v = Data(2); return v.k == 'L' ? Call("quote", { v }) : RV::Nil(); } case 2: return Name(lists); default: return List(d); } }
	RV Tmpl(int d)
	{
		std::vector<RV> r; size_t n = c.rng.Below(6);
		for (size_t i = 0; i < n; i++)
			switch (c.rng.Below(7))
			{
				case 0: case 1: r.push_back(Call("_unquote", { Val(2) })); break;
				case 2: r.push_back(Call("_unquotesplicing", { Seq(2) })); break;
				case 3: case 4: if (d > 0) { r.push_back(Tmpl(d - 1)); break; }
				default: r.push_back(Data(1)); break;
			}
		return Ls(r);
	}
};
// text with the short forms
static std::string Short(Ctx & c, const RV & v)
{
	if (v.k != 'L') return QSrc(v);
	auto & l = *v.l;
	if (l.size() == 2 && l[0].k == 'Y')
	{
		std::string p = l[0].s == "_unquote" ? "," : l[0].s == "_unquotesplicing" ? ",@" : l[0].s == "quasiquote" && c.rng.Chance(60) ? "`" : l[0].s == "quote" && c.rng.Chance(60) ? "'" : "";
		if (p == "," && l[1].k == 'Y' && l[1].s[0] == '@') p = "";
		if (!p.empty()) return p + Short(c, l[1]);
	}
	std::string r = "("; for (auto & e : l) r += (r.size() > 1 ? " " : "") + Short(c, e); return r + ")";
}
// a quoted expression and a template yield the same value again after the top level list of an earlier value was changed
static void Again(Ctx & c, ScopeP sc)
{
	G g(c); g.budget = 60; RV d = g.Data(3); if (d.k != 'L') d = Ls({ d });
	std::string text = Short(c, Call("defn", { Sy("tt"), Ls({}), Call(c.rng.Chance(50) ? "quote" : "quasiquote", { d }) })); c.Case(text);
	Out o = Ev(c, text, sc); if (o.err) return;
	std::string first, prog = "(do (def v (tt))";
	for (size_t n = 1 + c.rng.Below(4); n; n--) { size_t i = c.rng.Below(d.l->size() + 1); prog += c.rng.Chance(60) ? " (push 99 v" + (c.rng.Chance(50) ? " " + std::to_string(i) : std::string()) + ")" : " (pop v" + (c.rng.Chance(50) ? " " + std::to_string(i) : std::string()) + ")"; }
	prog += ")";
	for (int k = 0; k < 2; k++)
	{
		Out a = Ev(c, "(tt)", sc); std::string is = a.err ? ErrText() : Show(a.v); if (k == 0) first = is;
		if (is != first) { c.Case(text + "\n" + prog); c.Fail("the value is " + is + " the second time and was " + first); }
		Ev(c, prog, sc);
	}
}
void Run(Ctx & c)
{
	while (c.Time())
	{
		RInterp ri; ScopeP sc = CppLisp::LispEnvironment::CreateDefaultScope();
		G g0(c); auto p0 = g0.Program(0, 2); if (!Compare(c, p0, ProgText(p0), ri, sc)) continue;
		for (int i = 0; i < 60; i++)
		{
			if (c.rng.Chance(15)) { Again(c, sc); continue; }
			G g(c); std::vector<RV> p; g.budget = 60;
			if (c.rng.Chance(20)) p.push_back(Call("quote", { g.Data(4) }));
			else if (c.rng.Chance(50)) p.push_back(Call("quasiquote", { c.rng.Chance(90) ? g.Tmpl(3) : c.rng.Chance(50) ? g.Data(2) : Call("_unquote", { g.Val(2) }) }));
			else
			{
				// the same template several times
				p.push_back(Call("defn", { Sy("t"), Ls({ Sy("x"), Sy("l") }), c.rng.Chance(50) ? Call("quasiquote", { g.Tmpl(2) }) : Call("quote", { g.Data(2) }) }));
				std::vector<RV> a; int n = 1 + (int)c.rng.Below(3); for (int k = 0; k < n; k++) a.push_back(Call("t", { g.Lit(), g.Seq(1) }));
				p.push_back(Call("list", a));
			}
			std::string text; for (auto & e : p) text += Short(c, e) + "\n";
			if (!Compare(c, p, text, ri, sc)) break;
		}
	}
}
