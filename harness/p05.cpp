// P05: comparison and equality against the reference, with the laws (symmetry, reflexivity, trichotomy, negation) checked on the results.
#include "ref.h"
static void Pair(Ctx & c, const RV & a, const RV & b)
{
	std::string x = Src(a), y = Src(b);
	auto skip = [](const RV & v) { return v.k == 'N' || v.k == 'L' || v.k == 'Y'; };
	// the order of a string and a value of another kind follows the printed forms and is not specified
	bool so = (a.k == 'S') != (b.k == 'S') && (skip(a) || skip(b) || a.k == 'B' || b.k == 'B');
	static ScopeP sh; static int uses = 0;
	if (sh.get() == 0 || ++uses > 300) { sh = CppLisp::LispEnvironment::CreateDefaultScope(); uses = 0; }
	auto out = [&](const std::string & op) { return Ev(c, "(" + op + " " + x + " " + y + ")", sh).Text(); };
	auto is = [&](const std::string & op, const std::string & should) { Expect(c, "(" + op + " " + x + " " + y + ")", should); };
	if (!so)
	{
		is("<", RTextOf([&] { return RV::B(RLess(a, b, false)); }));
		is("<=", RTextOf([&] { return RV::B(RLess(a, b, true)); }));
		is(">", RTextOf([&] { return RV::B(RLess(b, a, false)); }));
		is(">=", RTextOf([&] { return RV::B(RLess(b, a, true)); }));
	}
	else { out("<"); out("<="); out(">"); out(">="); }
	std::string e = out("=");
	Expect(c, "(= " + y + " " + x + ")", e);
	is("==", e); is("equal", e);
	is("!=", e == "#t" ? "#f" : e == "#f" ? "#t" : e);
	// the value of mixed comparisons of a string and another kind is not specified, apart from the laws
	std::function<bool(const RV &, const RV &)> mixed = [&](const RV & p, const RV & q) -> bool
	{
		if (p.k == 'L' && q.k == 'L') { for (size_t i = 0; i < p.l->size() && i < q.l->size(); i++) if (mixed((*p.l)[i], (*q.l)[i])) return true; return false; }
		return (p.k == 'S') != (q.k == 'S');
	};
	if (!mixed(a, b)) is("=", RTextOf([&] { return RV::B(REqual(a, b)); }));
	if (a.num() && b.num() && !std::isnan(RDbl(a)) && !std::isnan(RDbl(b)))
	{
		int n = (out("<") == "#t") + (out(">") == "#t") + (e == "#t");
		if (n != 1 && !(n == 2 && e == "#t" && fabs(RDbl(a) - RDbl(b)) < 1e-8)) { c.Case(x + " " + y); c.Fail("not exactly one of < = > holds"); }
	}
}
static void Law(Ctx & c, const RV & a)
{
	bool nan = a.k == 'F' && std::isnan(a.d);
	if (!nan) Expect(c, "(= " + Src(a) + " " + Src(a) + ")", "#t");
	if (!nan) Expect(c, "(do (defn samevalue (x) (= x x)) (samevalue " + Src(a) + "))", "#t");
}
void Run(Ctx & c)
{
	g_share = true;
	auto v = Samples();
	v.push_back(RV::F(INFINITY)); v.push_back(RV::F(-INFINITY)); v.push_back(RV::F(NAN));
	uint64_t n = 0;
	for (auto & a : v) if (c.Mine(n++)) Law(c, a);
	for (auto op : { "<", "<=", ">", ">=", "=", "==", "!=", "equal" }) for (auto ar : { "", " 1", " 1 2 3", " \"a\"" }) if (c.Mine(n++)) Expect(c, std::string("(") + op + ar + ")", ErrText());
	for (auto & a : v) for (auto & b : v) if (c.Mine(n++)) { if (!c.Time()) return; Pair(c, a, b); }
	while (c.Time())
	{
		RV a = GenVal(c, 3), b;
		int k = (int)c.rng.Below(4);
		if (k == 0) b = GenVal(c, 3);
		else if (k == 1) b = a;
		else
		{
			// change one place somewhere
			std::function<RV(const RV &)> mut = [&](const RV & x) -> RV
			{
				if (x.k == 'L' && !x.l->empty() && c.rng.Chance(85)) { std::vector<RV> y = *x.l; size_t i = c.rng.Chance(40) ? y.size() - 1 : c.rng.Below(y.size()); if (c.rng.Chance(10)) y.pop_back(); else y[i] = mut(y[i]); return RV::L(y); }
				if (x.k == 'I') return c.rng.Chance(50) ? RV::F(x.i) : RV::I(W32((long long)x.i + 1));
				if (x.k == 'F') return RV::F(x.d + (c.rng.Chance(50) ? 5e-9 : 1e-7));
				if (x.k == 'S') return RV::S(x.s + (c.rng.Chance(50) ? "a" : "\x80"));
				if (x.k == 'L') return RV::Nil();
				return GenAtom(c);
			};
			b = mut(a);
		}
		Pair(c, a, b);
		Law(c, a);
	}
}
