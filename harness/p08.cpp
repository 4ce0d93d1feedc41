// P08: string builtins and the string class compared with operations on character sequences.
#include "ref.h"
using std::string; using std::vector;
static const size_t NP = string::npos;
static string RSub(const string & s, long long pos, long long len) { if (pos < 0 || pos > (long long)s.size()) return ""; string r; for (long long i = pos; i < (long long)s.size() && (len < 0 || i < pos + len); i++) r += s[i]; return r; }
static bool At(const string & s, size_t i, const string & p) { if (i + p.size() > s.size()) return false; for (size_t k = 0; k < p.size(); k++) if (s[i + k] != p[k]) return false; return true; }
static long long RFind(const string & s, const string & p, long long from) { if (from < 0) return -1; for (size_t i = (size_t)from; i + p.size() <= s.size(); i++) if (At(s, i, p)) return (long long)i; return -1; }
static string RRepl(const string & s, const string & p, const string & q) { if (p.empty()) return s; string r; for (size_t i = 0; i < s.size();) if (At(s, i, p)) { r += q; i += p.size(); } else r += s[i++]; return r; }
static bool Sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static string RTrim(const string & s) { size_t a = 0, b = s.size(); while (a < b && Sp(s[a])) a++; while (b > a && Sp(s[b - 1])) b--; return s.substr(a, b - a); }
static string RCase(string s, bool up) { for (char & c : s) { if (up && c >= 'a' && c <= 'z') c -= 32; if (!up && c >= 'A' && c <= 'Z') c += 32; } return s; }
static vector<string> RSplit(const string & s, const string & p) { vector<string> r(1); for (size_t i = 0; i < s.size();) if (!p.empty() && At(s, i, p)) { r.push_back(""); i += p.size(); } else r.back() += s[i++]; return r; }
// {n} and {n,w} with n from 0 to 4
static string RFormat(const string & t, const vector<string> & a)
{
	string r;
	for (size_t i = 0; i < t.size();)
	{
		size_t e = NP; long w = 0;
		if (i + 2 < t.size() && t[i] == '{' && t[i + 1] >= '0' && t[i + 1] <= '4')
		{
			if (t[i + 2] == '}') e = i + 2;
			else if (t[i + 2] == ',')
			{
				size_t z = t.find('}', i + 3);
				if (z != NP) { string n = t.substr(i + 3, z - i - 3); size_t k = 0; while (k < n.size() && Sp(n[k])) k++; bool neg = false; if (k < n.size() && (n[k] == '+' || n[k] == '-')) neg = n[k++] == '-'; size_t d = k; long long v = 0; while (k < n.size() && isdigit((unsigned char)n[k])) { if (v < 10000000) v = v * 10 + (n[k] - '0'); k++; } if (k > d && k == n.size() && v <= 0xffff) { e = z; w = (long)(neg ? -v : v); } }
			}
		}
		if (e == NP) { r += t[i++]; continue; }
		size_t n = t[i + 1] - '0'; if (n >= a.size()) throw RErr{ "format" };
		string pad; for (size_t k = a[n].size(); k < (size_t)labs(w); k++) pad += ' ';
		r += w > 0 ? pad + a[n] : a[n] + pad; i = e + 1;
	}
	return r;
}
static RV S(const string & s) { return RV::S(s); }
static void Ops(Ctx & c, const string & s, const string & p, const string & q, int i, int n)
{
	string a = Src(S(s)), b = Src(S(p)), d = Src(S(q)), I = std::to_string(i), N = std::to_string(n);
	auto is = [&](const string & prog, const RV & v) { Expect(c, prog, Show(v)); };
	is("(len " + a + ")", RV::I((int)s.size()));
	is("(first " + a + ")", S(RSub(s, 0, 1)));
	is("(rest " + a + ")", S(RSub(s, 1, -1)));
	is("(last " + a + ")", S(s.empty() ? "" : s.substr(s.size() - 1)));
	is("(nth " + I + " " + a + ")", S(RSub(s, i, 1)));
	is("(slice " + a + " " + I + " " + N + ")", S(RSub(s, i, n < 0 ? -1 : n)));
	is("(reverse " + a + ")", S(string(s.rbegin(), s.rend())));
	is("(trim " + a + ")", S(RTrim(s)));
	is("(upper-case " + a + ")", S(RCase(s, true)));
	is("(lower-case " + a + ")", S(RCase(s, false)));
	is("(replace " + a + " " + b + " " + d + ")", S(RRepl(s, p, q)));
	is("(search " + b + " " + a + ")", RV::I((int)RFind(s, p, 0)));
	// -1 as start or count stands for the default
	long long from = i == -1 ? 0 : i < 0 ? (1ll << 40) : i;
	is("(search " + b + " " + a + " " + I + ")", RV::I((int)RFind(s, p, from)));
	long long f = RFind(s, p, from); if (n >= 0 && f >= 0 && f - from + (long long)p.size() > n && i != -1) f = -1;
	is("(search " + b + " " + a + " " + I + " " + N + ")", RV::I((int)f));
	is("(+ " + a + " " + b + ")", S(s + p));
	// nothing is changed by the operations
	if (c.rng.Chance(10)) is("(do (def s " + a + ") (replace s " + b + " " + d + ") (trim s) (reverse s) (upper-case s) (slice s " + I + " " + N + ") (list s))", RV::L({ S(s) }));
}
static void Cls(Ctx & c, const string & s, const string & p, const string & q, long long i, long long n)
{
	typedef CppLisp::string T;
	c.Case("string class: " + Esc(s) + " " + Esc(p) + " " + Esc(q) + " " + std::to_string(i) + " " + std::to_string(n));
	T t = s;
	string out; for (auto & e : t.Split(p)) out += Esc(e) + " "; string sh; for (auto & e : RSplit(s, p)) sh += Esc(e) + " "; c.CheckEq(out, sh, "Split");
	c.CheckEq(Esc(t.Replace(p, q)), Esc(RRepl(s, p, q)), "Replace");
	c.CheckEq(Esc(t.Trim()), Esc(RTrim(s)), "Trim");
	c.CheckEq(Esc(t.ToUpper()), Esc(RCase(s, true)), "ToUpper"); c.CheckEq(Esc(t.ToLower()), Esc(RCase(s, false)), "ToLower");
	size_t pos = (size_t)i, len = (size_t)n;
	c.CheckEq(Esc(t.Substring(pos, len)), Esc(pos > s.size() ? "" : RSub(s, (long long)pos, len > s.size() ? -1 : (long long)len)), "Substring");
	c.CheckEq(Esc(t.Substring(pos)), Esc(pos > s.size() ? "" : RSub(s, (long long)pos, -1)), "Substring");
	c.Check(t.StartsWith(p) == At(s, 0, p), "StartsWith"); c.Check(t.EndsWith(p) == (p.size() <= s.size() && At(s, s.size() - p.size(), p)), "EndsWith");
	c.Check(t.Contains(p) == (RFind(s, p, 0) >= 0), "Contains");
	c.Check((long long)t.IndexOf(p, pos) == (pos > s.size() ? -1 : RFind(s, p, (long long)pos)), "IndexOf");
	c.Check(t.Equals(p) == (s == p), "Equals"); c.Check(T::IsNullOrEmpty(s) == s.empty(), "IsNullOrEmpty"); c.Check(t == s, "the string was changed");
	int o = T::CompareOrdinal(s, p), r = 0; for (size_t k = 0; !r && (k < s.size() || k < p.size()); k++) r = k >= s.size() ? -1 : k >= p.size() ? 1 : (int)(unsigned char)s[k] - (int)(unsigned char)p[k];
	c.Check((o < 0) == (r < 0) && (o > 0) == (r > 0), "CompareOrdinal");
	c.Value();
}
static string GenFmt(Ctx & c) { static vector<string> f = { "{0}", "{1}", "{2}", "{3}", "{4}", "{5}", "{0,5}", "{1,-5}", "{0,0}", "{2, 7}", "{0,+3}", "{0,}", "{0,a}", "{0,5", "{", "}", "{}", "{0", "{{0}}", "{0,70000}", "{0,99999999999999999999}", "{10}", "a", " ", "x{", "{1,2}", "{0,-0}", "{a}", "{0 }" }; string s; size_t n = c.rng.Below(6); for (size_t i = 0; i < n; i++) s += c.rng.Pick(f); return s; }
static void Fmt(Ctx & c)
{
	string t = GenFmt(c); vector<string> a; size_t n = c.rng.Below(6); string prog = "(format " + Src(S(t));
	for (size_t i = 0; i < n; i++)
	{
		RV v; switch (c.rng.Below(5)) { case 0: v = RV::I(GenInt(c)); break; case 1: v = RV::B(c.rng.Chance(50)); break; case 2: v = S(GenFmt(c)); break; default: v = S(GenStr(c)); }
		a.push_back(v.k == 'B' ? Show(v) : RText(v)); prog += " " + Src(v);
	}
	Expect(c, prog + ")", RTextOf([&] { return S(RFormat(t, a)); }));
}
void Run(Ctx & c)
{
	g_share = true;
	uint64_t k = 0;
	vector<string> ss = { "", " ", "a", "ab", "aba", "aaaa", " a b ", "\t\n x", "\xc3\xa4", "\xff", "ABCabc", "{0}", "ababab", "  ", "\r\n a\v b\f\r" };
	vector<string> ps = { "", "a", "ab", "aa", "ba", "b", " ", "abab", "x", "\xff" };
	vector<int> is = { 0, 1, 2, 3, 4, 6, 7, -1, -2, 100, INT32_MAX, INT32_MIN };
	if (c.round == 0)
	{
		Expect(c, "(format \"<{0}|{1}>\" \"##<NULL>##\" \"\")", RTextOf([&] { return S("<##<NULL>##|>"); }));
		for (auto & s : ss) for (auto & p : ps) { if (c.Mine(k++)) { for (auto q : { "", "a", "aa", "xyz" }) Cls(c, s, p, q, 0, 1); } }
		for (auto & s : ss) for (auto & p : ps) for (int i : is) if (c.Mine(k++)) { Cls(c, s, p, "b", i, is[c.rng.Below(is.size())]); if (c.Time()) Ops(c, s, p, p + "a", i, is[c.rng.Below(is.size())]); }
		for (auto e : { "(slice \"a\" 1)", "(slice)", "(slice \"abc\" 1 2 3)", "(replace \"a\" \"b\")", "(replace)", "(search \"a\")", "(search)", "(search \"a\" 5)", "(search \"a\" \"b\" 0 1 2)", "(trim)", "(trim \"a\" \"b\")", "(upper-case)", "(lower-case \"a\" \"b\")", "(format)", "(format \"{0}\")", "(format \"a\" 1 2 3 4 5 6)", "(nth \"abc\" 1)", "(nth 1.0 \"abc\")" }) if (c.Mine(k++)) Expect(c, e, ErrText());
		for (auto & s : ss) if (c.Mine(k++))
		{
			Expect(c, "(search " + Src(S(s)) + " '(\"x\" \"ab\" \"a\" \"\" \" \" 7))", s == "ab" ? "1" : s == "a" ? "2" : s == "" ? "3" : s == " " ? "4" : "-1");
			Expect(c, "(search 7 '(\"x\" 7))", "1");
			Expect(c, "(slice 12345 1 2)", "\"23\""); Expect(c, "(replace 12321 2 9)", "\"19391\"");
		}
	}
	while (c.Time())
	{
		string s = GenStr(c), p = c.rng.Chance(50) || s.empty() ? GenStr(c) : s.substr(c.rng.Below(s.size()), 1 + c.rng.Below(3)), q = GenStr(c);
		if (c.rng.Chance(20)) s += p + p;
		auto idx = [&]() { return c.rng.Chance(80) ? (int)c.rng.Below(s.size() + 2) : c.rng.Pick(is); };
		switch (c.rng.Below(4)) { case 0: Fmt(c); break; case 1: Cls(c, s, p, q, idx(), idx()); break; default: Ops(c, s, p, q, idx(), idx()); }
	}
}
