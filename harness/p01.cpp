// P01: the token sequence of all short texts over a small alphabet, then of random texts, compared with a reference lexer.
#include "reflex.h"
static std::string Tok(const CppLisp::LispToken & t) { return std::to_string((int)t.Type) + ":" + Esc(t.ToString()) + "@" + std::to_string(t.LineNo); }
static void One(Ctx & c, const std::string & text, size_t offset = 0)
{
	c.Case(text);
	std::string is, should;
	try { for (auto & t : RLex(text)) should += Tok(CppLisp::LispToken(t.text, 0, 0, t.line)) + " "; }
	catch (RErr &) { should = ErrText(); }
	try { auto l = CppLisp::LispTokenizer::Tokenize(text, offset); for (auto & t : l) is += Tok(*t) + " "; c.Value(); }
	catch (CppLisp::LispExceptionBase &) { is = ErrText(); }
	catch (std::exception & e) { c.Fail(std::string("Tokenize throws std::exception: ") + e.what()); }
	c.CheckEq(is, should, "tokens");
}
void Run(Ctx & c)
{
	static const std::string al = "(\"\\;'a\n ,@n";
	uint64_t n = 0; size_t maxlen = c.thorough ? 7 : 6;
	if (c.round == 0)
	{
		for (int ch = 0; ch < 256; ch++) for (auto pre : { "", "a", "\"", "\\", ";", "(", "a\\", "\"\\" }) for (auto post : { "", "a", "\"", " b", "\n" }) if (c.Mine(n++)) One(c, std::string(pre) + std::string(1, (char)ch) + post);
		for (size_t len = 0; len <= maxlen; len++)
		{
			std::vector<size_t> idx(len, 0);
			for (;;)
			{
				if (c.Mine(n++)) { std::string s; for (size_t i : idx) s += al[i]; One(c, s); if (!c.Time()) break; }
				size_t k = 0; while (k < len && ++idx[k] == al.size()) idx[k++] = 0;
				if (k == len) break;
			}
			if (!c.Time()) break;
		}
	}
	double extra = c.seconds; c.seconds = extra + 8;	// some random texts in any case
	while (c.Time()) for (int i = 0; i < 200; i++)
	{
		std::string s = GenLexText(c, c.rng.Chance(20) ? 60 : 12);
		One(c, s, c.rng.Chance(20) ? c.rng.Below(40) : 0);
	}
}
