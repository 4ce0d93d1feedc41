// P06: type tags and conversions: every value the builtins create has exactly one type, reading as another type is a language error,
// conversions give the reference result.
#include "ref.h"
using namespace CppLisp;
static const char * Name(char k)
{
	switch (k) { case 'U': return "Undefined"; case 'N': return "Nil"; case 'B': return "Bool"; case 'I': return "Int"; case 'F': return "Double"; case 'S': return "String"; case 'L': return "List"; case 'f': return "Function"; case 'Y': return "Symbol"; case 'D': return "NativeDictionary"; case 'E': return "Error"; }
	return "?";
}
static int Id(char k) { static std::string s = "UNBIFSLfYD"; size_t p = s.find(k); return p == std::string::npos ? 999 : (int)p; }
static std::string PText(const RV & a)
{
	switch (a.k)
	{
		case 'N': return "NIL"; case 'U': return "<undefined>"; case 'B': return a.b ? "#t" : "#f"; case 'L':
		{
			std::string r; bool first = true;
			for (auto & e : *a.l) { if (!first) r += " "; first = false; if (e.k == 'L' || e.k == 'S') throw RErr{ "quoting of texts in lists is not specified" }; r += PText(e); }
			return "(" + r + ")";
		}
		case 'f': case 'D': case 'E': case '?': throw RErr{ "text" };
	}
	return RText(a);
}
template <class F> static std::string Try(F f) { try { return f(); } catch (LispExceptionBase &) { return ErrText(); } }
static std::string B2(bool b) { return b ? "#t" : "#f"; }
// the conversions of a value through the programming interface
static void Api(Ctx & c, const std::string & what, const LispVariant & v)
{
	RV r = FromVariant(v);
	c.Case("value of " + what);
	if (r.k == '?') c.Fail("the value has not exactly one type");
	c.CheckEq(v.TypeString(), Name(r.k), "type name");
	if ((int)v.Type != Id(r.k)) c.Fail("type id " + std::to_string((int)v.Type) + " of a " + Name(r.k));
	c.CheckEq(Try([&] { return std::to_string(v.IntValue()); }), r.k == 'I' ? std::to_string(r.i) : ErrText(), "IntValue");
	c.CheckEq(Try([&] { return FmtD(v.DoubleValue()); }), r.k == 'F' ? FmtD(r.d) : ErrText(), "DoubleValue");
	c.CheckEq(Try([&] { return B2(v.BoolValue()); }), r.k == 'B' ? B2(r.b) : ErrText(), "BoolValue");
	c.CheckEq(Try([&] { v.FunctionValue(); return std::string("f"); }), r.k == 'f' ? "f" : ErrText(), "FunctionValue");
	if (r.k != 'D') c.CheckEq(Try([&] { return std::to_string(v.ListValue()->size()); }), r.k == 'L' ? std::to_string(r.l->size()) : r.k == 'N' ? "0" : ErrText(), "ListValue");
	c.CheckEq(Try([&] { return B2(v.ToBool()); }), r.k == 'B' ? B2(r.b) : r.k == 'I' ? B2(r.i != 0) : r.k == 'F' ? B2(fabs(r.d) > 1e-8) : ErrText(), "ToBool");
	if (!(r.k == 'F' && !(fabs(r.d) < 2147483647.0)) ) c.CheckEq(Try([&] { return std::to_string(v.ToInt()); }), RConv(r) ? std::to_string(RInt(r)) : ErrText(), "ToInt");
	c.CheckEq(Try([&] { return FmtD(v.ToDouble()); }), RConv(r) ? FmtD(RDbl(r)) : ErrText(), "ToDouble");
	try { c.CheckEq(v.ToString(), PText(r), "printed form"); } catch (RErr &) { v.ToString(); }
	if (r.k == 'S') c.CheckEq(v.StringValue(), r.s, "StringValue");
	if (r.k == 'L') { auto l = v.ListValue(); for (auto & e : *l) Api(c, what, LispVariant(e)); }
	c.Value();
}
static RV ParseI(const std::string & s)
{
	const char * p = s.c_str(); char * e; errno = 0; long x = strtol(p, &e, 10);
	if (e == p || *e || strlen(p) != s.size() || errno || x > INT32_MAX || x < INT32_MIN) return RV::Undef();
	return RV::I((int)x);
}
static RV ParseF(const std::string & s) { const char * p = s.c_str(); char * e; errno = 0; double x = strtod(p, &e); if (e == p || errno == ERANGE) return RV::Undef(); return RV::F(x); }
static void Lang(Ctx & c, const RV & a)
{
	std::string x = " " + Src(a) + ")";
	Expect(c, "(type" + x, Show(RV::I(Id(a.k))));
	Expect(c, "(typestr" + x, Show(RV::S(Name(a.k))));
	if (!(a.k == 'F' && !(fabs(a.d) < 2147483647.0))) Expect(c, "(int" + x, Show(a.k == 'S' ? ParseI(a.s) : RConv(a) ? RV::I(RInt(a)) : RV::Undef()));
	Expect(c, "(float" + x, Show(a.k == 'S' ? ParseF(a.s) : RConv(a) ? RV::F(RDbl(a)) : RV::Undef()));
	if (a.k == 'S' || a.k == 'I') { std::string t = RText(a); Expect(c, "(parse-integer" + x, Show(ParseI(t))); Expect(c, "(parse-float" + x, Show(ParseF(t))); }
	try { std::string t = PText(a); Expect(c, "(str" + x, Show(RV::S(t))); } catch (RErr &) { Ev(c, "(str" + x); }
	if (a.k == 'S' || a.k == 'Y') { Expect(c, "(sym" + x, a.s); }
	Out o = Ev(c, "(list" + x);
	if (o.err || o.none || o.v.k != 'L' || o.v.l->size() != 1 || Show((*o.v.l)[0]) != Show(a)) c.Fail("(list x) does not hold x: " + o.Text());
}
struct MathF { const char * n; double (*f)(double); };
static double fsin(double x) { return sin(x); } static double fsinh(double x) { return sinh(x); } static double fasin(double x) { return asin(x); } static double fcos(double x) { return cos(x); } static double fcosh(double x) { return cosh(x); }
static double facos(double x) { return acos(x); } static double ftan(double x) { return tan(x); } static double ftanh(double x) { return tanh(x); } static double fatan(double x) { return atan(x); } static double fexp(double x) { return exp(x); }
static double flog(double x) { return log(x); } static double flog10(double x) { return log10(x); } static double fsqrt_(double x) { return sqrt(x); } static double fround(double x) { return round(x); } static double ftrunc(double x) { return trunc(x); }
static double ffabs(double x) { return fabs(x); } static double ffloor(double x) { return floor(x); } static double fceil(double x) { return ceil(x); }
static const MathF MATH[] = { { "Sin", fsin }, { "Sinh", fsinh }, { "Asin", fasin }, { "Cos", fcos }, { "Cosh", fcosh }, { "Acos", facos }, { "Tan", ftan }, { "Tanh", ftanh }, { "Atan", fatan }, { "Exp", fexp }, { "Log", flog }, { "Log10", flog10 }, { "Sqrt", fsqrt_ }, { "Round", fround }, { "Truncate", ftrunc }, { "Abs", ffabs }, { "Floor", ffloor }, { "Ceiling", fceil } };
static void Math(Ctx & c, const RV & a)
{
	for (auto & m : MATH)
	{
		std::string p = std::string("(Math-") + m.n + " " + Src(a) + ")";
		Expect(c, p, RConv(a) ? Show(RV::F(m.f(RDbl(a)))) : ErrText());
	}
}
void Run(Ctx & c)
{
	g_share = true;
	auto v = Samples();
	uint64_t n = 0;
	auto scope = LispEnvironment::CreateDefaultScope();
	std::vector<std::string> fn;
	for (auto & k : scope->GetKeys()) if (k.find("###") != 0 && k != "sleep" && k != "readline" && k.find("File") != 0 && k != "while" && k != "break") fn.push_back(k);
	auto api = [&](const std::string & p)
	{
		c.Case(p);
		try { auto r = Lisp::Eval(p, ScopeP(), "main", false, std::make_shared<TextWriter>(true)); if (r.get()) Api(c, p, *r); }
		catch (LispExceptionBase &) {}
	};
	for (auto & a : v) if (c.Mine(n++)) { Lang(c, a); api("(list " + Src(a) + " (lambda (x) x) (make-dict) car (do (def d (make-dict)) (dict-set d 1 2) d))"); Math(c, a); }
	for (auto s : { "12 ", " 12", "+5", "0x10", "1e3", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "--1", "1-", "1.5", ".5", "5.", "1e400", "1e-400", "inf", "nan" }) if (c.Mine(n++)) { Lang(c, RV::S(s)); }
	for (auto op : { "type", "typestr", "int", "float", "str", "sym", "parse-integer", "parse-float", "Math-Sin", "Math-Abs" }) if (c.Mine(n++)) { Expect(c, std::string("(") + op + ")", ErrText()); Expect(c, std::string("(") + op + " 1 2)", ErrText()); }
	if (c.thorough) for (auto & f : fn) if (c.Mine(n++))
	{
		api("(" + f + ")");
		for (auto a : { "1", "\"abc\"", "2.5", "'(1 2 3)", "'s", "nil", "(make-dict)", "(lambda (x) x)" })
		{
			api("(" + f + " " + a + ")");
			for (auto b : { "1", "\"b\"", "'(4 \"x\")", "'s", "(make-dict)" }) api("(" + f + " " + a + " " + b + ")");
		}
	}
	while (c.Time())
	{
		if (c.rng.Chance(6))
		{
			static const std::vector<std::string> as = { "1", "\"abc\"", "2.5", "'(1 2 3)", "'s", "nil", "(make-dict)", "(lambda (x) x)", "0", "-1", "\"\"", "'()" };
			std::string p = "(" + c.rng.Pick(fn); size_t m = c.rng.Below(4);
			for (size_t i = 0; i < m; i++) p += " " + c.rng.Pick(as);
			api(p + ")");
		}
		RV a = GenVal(c, 2);
		if (c.rng.Chance(30)) a = RV::F(GenDbl(c));
		Lang(c, a);
		if (c.rng.Chance(20)) Math(c, a);
		if (c.rng.Chance(20)) { LispVariant x; c.Case("copy of " + Src(a)); api(Src(a).find("(") == 0 || Src(a)[0] == '\'' ? "(list " + Src(a) + ")" : "(nth 0 (list " + Src(a) + "))"); }
	}
}
