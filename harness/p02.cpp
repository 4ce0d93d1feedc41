// P02: kind and value of token texts compared with a reference classification.
#include "reflex.h"
static void One(Ctx & c, const std::string & s)
{
	c.Case(s);
	RTok r = RClass(s);
	try
	{
		CppLisp::LispToken t(s, 3, 9, 42);
		c.CheckEq(std::to_string((int)t.Type), std::to_string(r.type), "kind");
		c.Check(t.StartPos == 3 && t.StopPos == 9 && t.LineNo == 42, "position");
		std::string text = t.ToString();
		if (r.mark) c.CheckEq(text, s, "text");
		else
		{
			RV v; const CppLisp::object & o = *t.Value;
			switch (r.type)
			{
				case CppLisp::Int: c.Check(o.IsInt() && (int)o == r.v.i, "integer value " + text); break;
				case CppLisp::Double: { double d = (double)o; c.Check(o.IsDouble() && (memcmp(&d, &r.v.d, sizeof(d)) == 0 || (std::isnan(d) && std::isnan(r.v.d))), "double value " + text); break; }
				case CppLisp::True: case CppLisp::False: c.Check(o.IsBool() && (bool)o == r.v.b, "bool value"); break;
				case CppLisp::Nil: c.CheckEq(text, "NIL", "text"); break;
				default: c.Check(o.IsString(), "not a string object"); c.CheckEq(text, r.v.s, "text");
			}
			c.CheckEq(Show(FromVariant(CppLisp::LispVariant(std::make_shared<CppLisp::LispToken>(t)))), Show(r.v), "value of the token");
		}
		c.Value();
	}
	catch (CppLisp::LispExceptionBase & e) { c.Fail("classification throws " + e.Message); }
	catch (std::exception & e) { c.Fail(std::string("classification throws std::exception: ") + e.what()); }
}
void Run(Ctx & c)
{
	uint64_t n = 0;
	if (c.round == 0)
	{
		for (auto s : { "", "\"", "\"\"", "\"a\"", "\"a", "'", "`", ",", ",@", "@", "(", ")", "()", "true", "True", "#t", "#T", "false", "#f", "nil", "NIL", "Nil", "nIl", "nill", "ni", ";", ";x", "+", "-", ".", "+.", "1.", ".5", "-.5", "+5", "++5", "--5", "5-", "1e5", "1e", "1e+", "1e-5", "1e400", "-1e400", "1e-400", "4.9e-324", "2.3e-308", "1e-310", "0x10", "0X1p3", "0x", "0xg", "inf", "INF", "-inf", "infinity", "nan", "NAN", "nan(1)", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999", "999999999999999999999999999999999999", "-99999999999999999999999", "00012", "-0", "+0", "0.0", "-0.0", "1,5", "1_000", "12abc", "abc12", "1.2.3", "1e5.0", " 5", "5 ", "\t7", "\n-3", " ", "1 2", "'a", "(a", ",@a", "#true", "tru", "falsee" }) if (c.Mine(n++)) One(c, s);
		static const std::string al = "019+-.eExX \"';ntilf#,@()";
		for (size_t len = 1; len <= 4; len++)
		{
			std::vector<size_t> idx(len, 0);
			for (;;)
			{
				if (c.Mine(n++)) { std::string s; for (size_t i : idx) s += al[i]; One(c, s); if (!c.Time()) break; }
				size_t k = 0; while (k < len && ++idx[k] == al.size()) idx[k++] = 0;
				if (k == len) break;
			}
		}
		for (long long x : { 2147483647ll, -2147483648ll, 4294967296ll, 9223372036854775807ll, 0ll }) for (int d = -1000; d <= 1000; d++) if (c.Mine(n++)) One(c, std::to_string((long long)((unsigned long long)x + d)));
	}
	while (c.Time()) for (int i = 0; i < 200; i++)
	{
		std::string s;
		switch (c.rng.Below(6))
		{
			case 0: s = std::to_string((int)(uint32_t)c.rng.Next()); break;
			case 1: s = std::to_string((long long)c.rng.Next() >> c.rng.Below(60)); break;
			case 2: { double d; uint64_t b = c.rng.Next() ^ (c.rng.Next() << 31); memcpy(&d, &b, 8); char buf[512]; snprintf(buf, sizeof(buf), c.rng.Chance(70) ? "%.17g" : "%a", d); s = buf; break; }
			case 3: { static const std::string al = "0123456789+-.eExXabnNiIlLfFtru #;\"'"; size_t m = c.rng.Below(10); for (size_t k = 0; k < m; k++) s += al[c.rng.Below(al.size())]; break; }
			case 4: { size_t m = c.rng.Below(6); for (size_t k = 0; k < m; k++) s += (char)c.rng.Below(256); break; }
			default: s = "\"" + GenStr(c) + "\"";
		}
		if (c.rng.Chance(20) && !s.empty()) s[c.rng.Below(s.size())] = " +-.e0x\"\0"[c.rng.Below(9)];
		One(c, s);
	}
}
