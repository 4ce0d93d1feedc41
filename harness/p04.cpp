// P04: arithmetic against the reference operations: all pairs of sample values for every operator, random argument lists.
#include "ref.h"
static const std::vector<std::pair<std::string, char>> OPS = { { "+", '+' }, { "add", '+' }, { "string", '+' }, { "-", '-' }, { "sub", '-' }, { "*", '*' }, { "mul", '*' }, { "/", '/' }, { "div", '/' }, { "%", '%' }, { "mod", '%' } };
static bool Known(char op, const std::vector<RV> & a)
{
	// the text of nil, lists and undefined values in a concatenation is not specified; conversions of doubles out of the range of int neither
	bool str = false;
	for (auto & x : a) if (x.k == 'S') str = true;
	if (op == '+' && str) for (auto & x : a) if (x.k == 'N' || x.k == 'L') return false;
	return true;
}
static void Arith(Ctx & c, const std::string & name, char op, const std::vector<RV> & a)
{
	if (!Known(op, a)) return;
	std::string p = "(" + name; for (auto & x : a) p += " " + Src(x);
	Expect(c, p + ")", RTextOf([&] { return RFold(op, a); }));
}
static RV Bits(const std::string & n, const std::vector<RV> & a)
{
	if (n == "~") { if (a.size() != 1 || a[0].k != 'I') throw RErr{ "" }; return RV::I(~a[0].i); }
	if (a.size() != 2 || a[0].k != 'I' || a[1].k != 'I') throw RErr{ "" };
	int x = a[0].i, y = a[1].i;
	if (n == "<<") return RV::I((int)((uint32_t)x << (y & 31)));
	if (n == ">>") return RV::I(x >> (y & 31));
	if (n == "|") return RV::I(x | y);
	if (n == "&") return RV::I(x & y);
	return RV::I(x ^ y);
}
static void BitsCase(Ctx & c, const std::string & n, const std::vector<RV> & a)
{
	std::string p = "(" + n; for (auto & x : a) p += " " + Src(x);
	Expect(c, p + ")", RTextOf([&] { return Bits(n, a); }));
}
void Run(Ctx & c)
{
	g_share = true;
	auto v = Samples();
	const std::vector<std::string> bits = { "<<", ">>", "|", "&", "^", "~" };
	uint64_t n = 0;
	for (auto & o : OPS)
	{
		if (c.Mine(n++)) Arith(c, o.first, o.second, {});
		for (auto & a : v) if (c.Mine(n++)) Arith(c, o.first, o.second, { a });
	}
	for (auto & b : bits) { if (c.Mine(n++)) BitsCase(c, b, {}); for (auto & a : v) if (c.Mine(n++)) BitsCase(c, b, { a }); }
	for (auto & o : OPS)
	{
		if (o.first.size() > 1) continue;
		for (auto & a : v) for (auto & b : v) if (c.Mine(n++)) { if (!c.Time()) return; Arith(c, o.first, o.second, { a, b }); }
	}
	for (auto & b : bits) for (auto & x : v) for (auto & y : v) if ((x.k == 'I' && y.k == 'I') || c.rng.Chance(10)) if (c.Mine(n++)) { if (!c.Time()) return; BitsCase(c, b, { x, y }); }
	while (c.Time())
	{
		auto & o = c.rng.Pick(OPS);
		std::vector<RV> a; size_t m = c.rng.Below(6); int mix = (int)c.rng.Below(4);
		for (size_t i = 0; i < m; i++) a.push_back(mix == 0 ? RV::I(GenInt(c)) : mix == 1 ? RV::F(GenDbl(c)) : mix == 2 ? (c.rng.Chance(50) ? RV::I(GenInt(c)) : RV::F(GenDbl(c))) : GenVal(c, 1));
		if (c.rng.Chance(80)) Arith(c, o.first, o.second, a); else BitsCase(c, c.rng.Pick(bits), { RV::I(GenInt(c)), RV::I(GenInt(c)) });
	}
}
