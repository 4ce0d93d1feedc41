// Reference values and operations of the language, written from the language rules (not from the interpreter's code), and the
// translation of the interpreter's results into them.
#pragma once
#include "common.h"
#include <memory>
#include <cmath>
#include <map>
#include "Lisp.h"
#include "Scope.h"
#include "Environment.h"
#include "Exception.h"
#undef var

struct RV;
typedef std::shared_ptr<std::vector<RV>> RL;
struct RV
{
	char k;		// N nil, U undefined, B bool, I int, F double, S string, Y symbol, L list, f function, D dictionary, E error, ? other
	bool b; int i; double d; std::string s; RL l; std::shared_ptr<void> fn;
	RV() : k('N'), b(false), i(0), d(0) {}
	static RV Nil() { return RV(); }
	static RV Undef() { RV r; r.k = 'U'; return r; }
	static RV B(bool x) { RV r; r.k = 'B'; r.b = x; return r; }
	static RV I(int x) { RV r; r.k = 'I'; r.i = x; return r; }
	static RV F(double x) { RV r; r.k = 'F'; r.d = x; return r; }
	static RV S(const std::string & x) { RV r; r.k = 'S'; r.s = x; return r; }
	static RV Y(const std::string & x) { RV r; r.k = 'Y'; r.s = x; return r; }
	static RV L(const std::vector<RV> & x) { RV r; r.k = 'L'; r.l = std::make_shared<std::vector<RV>>(x); return r; }
	bool num() const { return k == 'I' || k == 'F'; }
};

// a language error
struct RErr { std::string why; };

inline std::string FmtD(double d)
{
	char buf[64]; snprintf(buf, sizeof(buf), "%.17g", d);
	std::string s = buf;
	if (s.find_first_of(".einfa") == std::string::npos) s += ".0";
	return s;
}

inline std::string Esc(const std::string & s)
{
	std::string r = "\"";
	for (char c : s)
	{
		if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else r += c;
	}
	return r + "\"";
}

// exact, unambiguous text of a value (for comparison and messages)
inline std::string Show(const RV & v)
{
	switch (v.k)
	{
		case 'N': return "nil";
		case 'U': return "<undefined>";
		case 'B': return v.b ? "#t" : "#f";
		case 'I': return std::to_string(v.i);
		case 'F': if (std::isnan(v.d)) return "nan"; return FmtD(v.d);
		case 'S': return Esc(v.s);
		case 'Y': return v.s;
		case 'L': { std::string r = "("; for (auto & e : *v.l) r += (r.size() > 1 ? " " : "") + Show(e); return r + ")"; }
		case 'E': return "<error " + v.s + ">";
		default: return std::string("<") + v.k + ">";
	}
}

// source text of a value inside a quoted expression / as an expression
inline std::string QSrc(const RV & v)
{
	if (v.k == 'L') { std::string r = "("; for (auto & e : *v.l) r += (r.size() > 1 ? " " : "") + QSrc(e); return r + ")"; }
	if (v.k == 'F' && !std::isfinite(v.d)) return "1e999";
	return Show(v);
}
inline std::string Src(const RV & v)
{
	if (v.k == 'L')
	{
		bool simple = true;
		for (auto & e : *v.l) if (e.k == 'F' && !std::isfinite(e.d)) simple = false;
		if (simple) return "'" + QSrc(v);
		std::string r = "(list"; for (auto & e : *v.l) r += " " + Src(e); return r + ")";
	}
	if (v.k == 'Y') return "'" + v.s;
	if (v.k == 'F' && std::isnan(v.d)) return "(- (* 1e300 1e300) (* 1e300 1e300))";
	if (v.k == 'F' && std::isinf(v.d)) return v.d > 0 ? "(* 1e300 1e300)" : "(* -1e300 1e300)";
	return Show(v);
}

inline RV FromVariant(const CppLisp::LispVariant & v);
inline RV FromObject(const std::shared_ptr<CppLisp::object> & o)
{
	if (o.get() == 0) { RV r; r.k = '?'; r.s = "null object"; return r; }
	if (o->IsLispVariant()) return FromVariant(o->ToLispVariantRef());
	if (o->IsList()) { std::vector<RV> x; auto lst = o->ToList(); for (auto & e : *lst) x.push_back(FromObject(e)); return RV::L(x); }
	return FromVariant(CppLisp::LispVariant(o));
}
inline RV FromVariant(const CppLisp::LispVariant & v)
{
	int n = (v.IsNil() ? 1 : 0) + (v.IsBool() ? 1 : 0) + (v.IsInt() ? 1 : 0) + (v.IsDouble() ? 1 : 0) + (v.IsString() ? 1 : 0) + (v.IsSymbol() ? 1 : 0) + (v.IsFunction() ? 1 : 0) + (v.IsError() ? 1 : 0) + (v.IsNativeObject() ? 1 : 0) + (v.IsUndefined() ? 1 : 0)
		+ (!v.IsNil() && v.IsList() ? 1 : 0);
	if (n != 1) { RV r; r.k = '?'; r.s = "not exactly one type"; return r; }
	if (v.IsNil()) return RV::Nil();
	if (v.IsBool()) return RV::B(v.ToBool());
	if (v.IsInt()) return RV::I(v.ToInt());
	if (v.IsDouble()) return RV::F(v.ToDouble());
	if (v.IsString()) return RV::S(v.ToString());
	if (v.IsSymbol()) return RV::Y(v.ToString());
	if (v.IsError()) { RV r; r.k = 'E'; r.s = v.ToString(); return r; }
	if (v.IsUndefined()) return RV::Undef();
	if (v.IsFunction()) { RV r; r.k = 'f'; return r; }
	if (v.IsNativeObject()) { RV r; r.k = 'D'; return r; }
	std::vector<RV> x;
	auto lst = v.ListValue(); for (auto & e : *lst) x.push_back(FromObject(e));
	return RV::L(x);
}

// outcome of an evaluation: a value, nothing, or a language error
struct Out
{
	bool err; bool none; RV v; std::string msg;
	Out() : err(false), none(false) {}
	std::string Text() const { return err ? "<language error>" : none ? "<nothing>" : Show(v); }
};
typedef std::shared_ptr<CppLisp::LispScope> ScopeP;

inline Out Ev(Ctx & c, const std::string & prog, ScopeP scope = ScopeP(), std::string * output = 0, const std::string & module = "main")
{
	Out o;
	c.Case(prog);
	auto w = std::make_shared<CppLisp::TextWriter>(true);
	try
	{
		auto r = CppLisp::Lisp::Eval(prog, scope, module, false, w);
		if (r.get() == 0) o.none = true; else { o.v = FromVariant(*r); c.Value(); }
	}
	catch (CppLisp::LispExceptionBase & e) { o.err = true; o.msg = e.Message; }
	catch (std::exception & e) { c.Fail(std::string("Eval throws std::exception: ") + e.what()); }
	if (output) *output = w->GetContent();
	return o;
}

static bool g_share = false;
// the program must have this outcome
inline void Expect(Ctx & c, const std::string & prog, const std::string & should, ScopeP scope = ScopeP())
{
	if (scope.get() == 0 && g_share)
	{
		// programs without definitions can share a scope
		static ScopeP shared; static int uses = 0;
		if (shared.get() == 0 || ++uses > 2000) { shared = CppLisp::LispEnvironment::CreateDefaultScope(); uses = 0; }
		scope = shared;
	}
	Out o = Ev(c, prog, scope);
	if (o.Text() != should) c.Fail("result is " + o.Text() + (o.err ? " (" + o.msg.substr(0, 200) + ")" : "") + " should be " + should);
}
inline std::string ErrText() { return "<language error>"; }

// ---- operations -----------------------------------------------------------------------------
inline int W32(long long x) { return (int)(uint32_t)(uint64_t)x; }
inline bool RConv(const RV & a) { return a.k == 'B' || a.k == 'I' || a.k == 'F' || a.k == 'S'; }
// numeric prefix of a string
inline int StrInt(const std::string & s)
{
	size_t p = 0; while (p < s.size() && isspace((unsigned char)s[p])) p++;
	bool neg = false; if (p < s.size() && (s[p] == '+' || s[p] == '-')) neg = s[p++] == '-';
	long long x = 0; while (p < s.size() && isdigit((unsigned char)s[p]) && x < (1ll << 40)) x = x * 10 + (s[p++] - '0');
	if (neg) x = -x;
	return (int)x;
}
inline int RInt(const RV & a) { return a.k == 'B' ? a.b : a.k == 'I' ? a.i : a.k == 'F' ? (int)a.d : a.k == 'S' ? StrInt(a.s) : throw RErr{ "int" }; }
inline double RDbl(const RV & a) { return a.k == 'B' ? a.b : a.k == 'I' ? a.i : a.k == 'F' ? a.d : a.k == 'S' ? strtod(a.s.c_str(), 0) : throw RErr{ "double" }; }
inline std::string RText(const RV & a)
{
	switch (a.k) { case 'S': case 'Y': return a.s; case 'I': return std::to_string(a.i); case 'B': return a.b ? "true" : "false"; case 'F': { char buf[512]; snprintf(buf, sizeof(buf), "%f", a.d); return buf; } }
	throw RErr{ "text" };
}
inline RV RArith(char op, const RV & a, const RV & b)
{
	if (op == '+' && (a.k == 'S' || b.k == 'S')) return RV::S(RText(a) + RText(b));
	if (a.k == 'F' || b.k == 'F')
	{
		if (!RConv(a) || !RConv(b)) throw RErr{ "operand" };
		double x = RDbl(a), y = RDbl(b);
		return RV::F(op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : op == '/' ? x / y : fmod(x, y));
	}
	if (a.k == 'I' || b.k == 'I')
	{
		if (!RConv(a) || !RConv(b)) throw RErr{ "operand" };
		long long x = RInt(a), y = RInt(b);
		if ((op == '/' || op == '%') && y == 0) throw RErr{ "zero" };
		return RV::I(W32(op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : op == '/' ? x / y : x % y));
	}
	if (op == '+' && (a.k == 'L' || a.k == 'N') && (b.k == 'L' || b.k == 'N'))
	{
		std::vector<RV> r; if (a.k == 'L') r = *a.l;
		if (b.k == 'L') r.insert(r.end(), b.l->begin(), b.l->end());
		return RV::L(r);
	}
	throw RErr{ "operands" };
}
inline RV RFold(char op, const std::vector<RV> & a)
{
	if (a.empty()) throw RErr{ "no arguments" };
	if (op == '-' && a.size() == 1)
	{
		if (a[0].k == 'I') return RV::I(W32(-(long long)a[0].i));
		if (a[0].k == 'F') return RV::F(-a[0].d);
		throw RErr{ "operand" };
	}
	RV r = a[0];
	for (size_t i = 1; i < a.size(); i++) r = RArith(op, r, a[i]);
	return r;
}
inline bool RDeq(double a, double b) { return a == b || fabs(a - b) < 1e-8; }
// < and <=
inline bool RLess(const RV & a, const RV & b, bool le)
{
	if (a.k == 'F' || b.k == 'F') { if (!RConv(a) || !RConv(b)) throw RErr{ "order" }; return le ? RDbl(a) <= RDbl(b) : RDbl(a) < RDbl(b); }
	if (a.k == 'I' || b.k == 'I') { if (!RConv(a) || !RConv(b)) throw RErr{ "order" }; return le ? RInt(a) <= RInt(b) : RInt(a) < RInt(b); }
	if (a.k == 'S' && b.k == 'S') return le ? a.s <= b.s : a.s < b.s;
	throw RErr{ "order" };
}
// equality; elem: as an element of a list (then values of different kinds are different)
inline bool REqual(const RV & a, const RV & b, bool elem = false)
{
	auto nb = [](const RV & x) { return x.num() || x.k == 'B'; };
	if (a.k == 'Y' || b.k == 'Y') return a.k == b.k && a.s == b.s;
	if (a.k == 'B' && b.k == 'B') return a.b == b.b;
	if (a.k == 'N' || b.k == 'N') return a.k == b.k;
	if (a.k == 'L' && b.k == 'L')
	{
		if (a.l->size() != b.l->size()) return false;
		for (size_t i = 0; i < a.l->size(); i++) if (!REqual((*a.l)[i], (*b.l)[i], true)) return false;
		return true;
	}
	if (a.k == 'S' && b.k == 'S') return a.s == b.s;
	if (nb(a) && nb(b)) { if (a.k == 'F' || b.k == 'F') return RDeq(RDbl(a), RDbl(b)); return RInt(a) == RInt(b); }
	if (elem && a.k != b.k) return false;
	throw RErr{ "equal" };
}
template <class F> std::string RTextOf(F f) { try { return Show(f()); } catch (RErr &) { return ErrText(); } }

// ---- generators -----------------------------------------------------------------------------
inline const std::vector<int> & Ints()
{
	static std::vector<int> v = { 0, 1, -1, 2, -2, 3, 5, 7, -7, 10, 31, 32, 33, 100, -100, 255, 256, 32767, 32768, 46341, 65535, 65536, 65537, 99999, 123456789, -123456789, 1073741823, 1073741824, 2147483646, 2147483647, -2147483647, INT32_MIN };
	return v;
}
inline const std::vector<double> & Dbls()
{
	static std::vector<double> v = { 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 3.7, -3.7, 0.1, 1e-3, 1e-7, 1e-8, 1e-9, 9.9e-9, 1.1e-8, -1e-9, 1e10, 123456.789, 2147483647.0, -2147483648.0, 2147483646.5, 1e100, 1e300, -1e300, 4.9e-300, 1e-300 };
	return v;
}
inline std::string GenStr(Ctx & c)
{
	static std::vector<std::string> f = { "", "a", "A", "abc", "ABC", "abd", "ab", " ", "  x ", "0", "1", "42", "-7", "3.5", "7abc", "abc7", "{0}", "true", "nil", "\n", "x\ty", "\\", "\"", "aaa", "aa", "b", "hello world", "\xc3\xa4\xc3\xb6", "\xff", "(1 2)", "'", ";c", "\r", "a\r\n", "\v b\f" };
	if (c.rng.Chance(60)) return c.rng.Pick(f);
	std::string s; size_t n = c.rng.Below(8); static std::string al = "aabbcAB 01.-{}()'\";\\\n\t\r\v\f,x"; for (size_t i = 0; i < n; i++) s += al[c.rng.Below(al.size())]; return s;
}
inline int GenInt(Ctx & c) { if (c.rng.Chance(50)) return c.rng.Pick(Ints()); if (c.rng.Chance(60)) return (int)c.rng.Below(21) - 10; return (int)(uint32_t)c.rng.Next(); }
inline double GenDbl(Ctx & c) { if (c.rng.Chance(60)) return c.rng.Pick(Dbls()); if (c.rng.Chance(50)) return ((int)c.rng.Below(2001) - 1000) / 8.0; return ((double)(int64_t)c.rng.Next()) / 3e9; }
inline RV GenAtom(Ctx & c)
{
	switch (c.rng.Below(12))
	{
		case 0: return RV::Nil();
		case 1: return RV::B(c.rng.Chance(50));
		case 2: case 3: case 4: return RV::F(GenDbl(c));
		case 5: case 6: return RV::S(GenStr(c));
		case 7: return RV::Y(c.rng.Pick(std::vector<std::string>{ "a", "b", "abc", "x1", "if", "+" }));
		default: return RV::I(GenInt(c));
	}
}
inline RV GenVal(Ctx & c, int depth)
{
	if (depth > 0 && c.rng.Chance(25)) { std::vector<RV> x; size_t n = c.rng.Below(5); for (size_t i = 0; i < n; i++) x.push_back(GenVal(c, depth - 1)); return RV::L(x); }
	return GenAtom(c);
}
inline std::vector<RV> Samples()
{
	std::vector<RV> v = { RV::Nil(), RV::B(true), RV::B(false), RV::S(""), RV::S("abc"), RV::S("abd"), RV::S("ab"), RV::S("7"), RV::S("-3.5x"), RV::S(" 12"), RV::S("7abc"), RV::Y("abc"), RV::Y("b"), RV::L({}), RV::L({ RV::I(1), RV::I(2) }), RV::L({ RV::F(1.0), RV::I(2) }), RV::L({ RV::I(1), RV::L({ RV::S("x"), RV::Nil() }) }), RV::L({ RV::Y("abc") }), RV::L({ RV::S("abc") }), RV::L({ RV::Nil() }), RV::L({ RV::L({}) }) };
	for (int i : Ints()) v.push_back(RV::I(i));
	for (double d : Dbls()) v.push_back(RV::F(d));
	return v;
}
