// P03: the tree read from all short token sequences, then from random programs and cut or changed programs, compared with a reference reader.
#include "reflex.h"
static void One(Ctx & c, const std::string & text)
{
	c.Case(text);
	std::string is, should;
	try { should = Show(RRead(text)); } catch (RErr &) { should = ErrText(); }
	try
	{
		ScopeP sc; if (c.rng.Chance(30)) sc = std::make_shared<CppLisp::LispScope>("main");
		auto o = CppLisp::LispParser::Parse(text, c.rng.Chance(20) ? c.rng.Below(20) : 0, sc);
		c.Check(o.get() != 0 && o->IsList(), "the result is not a list");
		is = Show(FromObject(o)); c.Value();
	}
	catch (CppLisp::LispExceptionBase &) { is = ErrText(); }
	catch (std::exception & e) { c.Fail(std::string("Parse throws std::exception: ") + e.what()); }
	c.CheckEq(is, should, "tree");
}
static std::string GenProg(Ctx & c, int depth)
{
	static std::vector<std::string> sep = { " ", " ", "\n", ";c\n", " ; (\n", "\t" };
	if (depth <= 0 || c.rng.Chance(35))
	{
		RV v = GenAtom(c);
		if (v.k == 'F' && !std::isfinite(v.d)) v = RV::I(1);
		return Show(v);
	}
	if (c.rng.Chance(20)) return std::string(c.rng.Pick(std::vector<std::string>{ "'", "`", ",", ",@", "' ", "';x\n" })) + GenProg(c, depth - 1);
	std::string s = "("; size_t n = c.rng.Below(5); for (size_t i = 0; i < n; i++) s += c.rng.Pick(sep) + GenProg(c, depth - 1); return s + c.rng.Pick(sep) + ")";
}
void Run(Ctx & c)
{
	static const std::vector<std::string> al = { "(", ")", "'", ",@", "a", ";c\n", "`", ",", "1" };
	uint64_t n = 0; size_t maxlen = c.thorough ? 7 : 6;
	if (c.round == 0) for (size_t len = 0; len <= maxlen && c.Time(); len++)
	{
		std::vector<size_t> idx(len, 0);
		for (;;)
		{
			if (c.Mine(n++)) { std::string s; for (size_t i : idx) s += al[i] + (al[i] == "a" || al[i] == "1" ? " " : ""); One(c, s); if (!c.Time()) break; }
			size_t k = 0; while (k < len && ++idx[k] == al.size()) idx[k++] = 0;
			if (k == len) break;
		}
	}
	c.seconds += 8;
	while (c.Time()) for (int i = 0; i < 100; i++)
	{
		if (c.rng.Chance(15)) { One(c, "(" + GenLexText(c, 15) + ")"); continue; }
		std::string s = "(" + GenProg(c, 5) + " " + GenProg(c, 5) + ")";
		int k = (int)c.rng.Below(6);
		if (k == 0) s = s.substr(0, c.rng.Below(s.size() + 1));
		else if (k == 1) s[c.rng.Below(s.size())] = "()'`,; \"a\n"[c.rng.Below(10)];
		else if (k == 2) s += c.rng.Pick(std::vector<std::string>{ ")", "(", " a", " ;c", ";c\n;d\n", " '", "()", " \"", "\n" });
		else if (k == 3) s = c.rng.Pick(std::vector<std::string>{ ";c\n", "'", "`", "a ", "\n", "()" }) + s;
		One(c, s);
	}
	// deep nesting
	if (c.id == 0) { std::string s; for (int i = 0; i < 300; i++) s += "("; One(c, s); for (int i = 0; i < 300; i++) s += ")"; One(c, s); One(c, s + ")"); }
	if (c.id == 1 && c.round == 0) { std::string s = "("; for (int i = 0; i < 100; i++) s += "'"; One(c, s + ")"); One(c, s + "a)"); }
}
