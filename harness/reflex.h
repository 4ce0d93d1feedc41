// Reference lexer, classification and reader, written from the lexical grammar (position based, not the interpreter's state machine).
#pragma once
#include "ref.h"
#include <cerrno>
#include "Tokenizer.h"
#include "Token.h"
#include "Parser.h"
struct RT { std::string text; size_t line; };
inline bool RSpace(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool RSep(char c) { return RSpace(c) || c == '(' || c == ')' || c == ';' || c == '\'' || c == '`' || c == ',' || c == '"'; }
// throws RErr for an undefined escape
inline std::vector<RT> RLex(const std::string & t)
{
	std::vector<RT> r; size_t p = 0, line = 1, n = t.size();
	auto esc = [](char c) -> char { switch (c) { case 'n': return '\n'; case 'r': return '\r'; case 't': return '\t'; } throw RErr{ "escape" }; };
	while (p < n)
	{
		char c = t[p];
		if (RSpace(c)) { if (c == '\n') line++; p++; continue; }
		if (c == '(' || c == ')' || c == '\'' || c == '`') { r.push_back({ std::string(1, c), line }); p++; continue; }
		if (c == ',') { bool sp = p + 1 < n && t[p + 1] == '@'; r.push_back({ sp ? ",@" : ",", line }); p += sp ? 2 : 1; continue; }
		if (c == ';')
		{
			size_t e = t.find('\n', p); e = e == std::string::npos ? n : e + 1;
			r.push_back({ t.substr(p, e - p), line }); line++; p = e; continue;
		}
		if (c == '"')
		{
			std::string s; bool closed = false; p++;
			while (p < n)
			{
				c = t[p++];
				if (c == '"') { closed = true; break; }
				if (c == '\\')
				{
					if (p == n) break;
					c = t[p++];
					if (c != '\\' && !RSep(c)) c = esc(c);
				}
				if (c == '\n' && t[p - 1] == '\n') line++;
				s += c;
			}
			if (closed) r.push_back({ "\"" + s + "\"", line }); else if (!s.empty()) r.push_back({ s, line });
			continue;
		}
		std::string s;
		while (p < n && (!RSep(t[p])))
		{
			if (t[p] != '\\') { s += t[p++]; continue; }
			if (p + 1 == n) { p++; break; }
			char d = t[p + 1];
			if (d == '"' || d == '\\') { s += d; p += 2; }
			else if (RSep(d)) p++;
			else { s += esc(d); p += 2; }
		}
		if (!s.empty()) r.push_back({ s, line });
	}
	return r;
}
// kind of a token: the value, or a mark (k == 'M') for brackets, quote marks and comments
struct RTok { RV v; bool mark; int type; };
inline bool RIntText(const std::string & s, int & out)
{
	size_t p = 0; while (p < s.size() && RSpace(s[p])) p++;
	bool neg = false; if (p < s.size() && (s[p] == '+' || s[p] == '-')) neg = s[p++] == '-';
	if (p == s.size()) return false;
	long long x = 0;
	for (; p < s.size(); p++) { if (s[p] < '0' || s[p] > '9') return false; if (x < (1ll << 40)) x = x * 10 + (s[p] - '0'); }
	if (neg) x = -x;
	if (x > 2147483647ll || x < -2147483648ll) return false;
	out = (int)x; return true;
}
inline bool RDblText(const std::string & s, double & out)
{
	const char * b = s.c_str(); char * e = 0; errno = 0; double d = strtod(b, &e);
	if (e == b || (size_t)(e - b) != s.size() || errno == ERANGE) return false;
	out = d; return true;
}
inline RTok RClass(const std::string & s)
{
	RTok t; t.mark = true; t.type = -1; int i; double d;
	auto val = [&](const RV & v, int ty) { t.mark = false; t.v = v; t.type = ty; return t; };
	if (!s.empty() && s[0] == '"') return val(RV::S(s.size() >= 2 ? s.substr(1, s.size() - 2) : ""), CppLisp::String);
	if (s == "'") { t.type = CppLisp::Quote; return t; }
	if (s == "`") { t.type = CppLisp::QuasiQuote; return t; }
	if (s == ",") { t.type = CppLisp::UnQuote; return t; }
	if (s == ",@") { t.type = CppLisp::UnQuoteSplicing; return t; }
	if (s == "(") { t.type = CppLisp::ListStart; return t; }
	if (s == ")") { t.type = CppLisp::ListEnd; return t; }
	if (RIntText(s, i)) return val(RV::I(i), CppLisp::Int);
	if (RDblText(s, d)) return val(RV::F(d), CppLisp::Double);
	if (s == "true" || s == "#t") return val(RV::B(true), CppLisp::True);
	if (s == "false" || s == "#f") return val(RV::B(false), CppLisp::False);
	if (s.size() == 3 && (s[0] | 32) == 'n' && (s[1] | 32) == 'i' && (s[2] | 32) == 'l') return val(RV::Nil(), CppLisp::Nil);
	if (!s.empty() && s[0] == ';') { t.type = CppLisp::Comment; return t; }
	return val(RV::Y(s), CppLisp::Symbol);
}
// the program read: throws RErr
inline RV RReadExpr(const std::vector<RTok> & t, size_t & p)
{
	while (p < t.size() && t[p].type == CppLisp::Comment) p++;
	if (p >= t.size()) throw RErr{ "end" };
	const RTok & k = t[p++];
	if (!k.mark) return k.v;
	if (k.type == CppLisp::ListEnd) throw RErr{ ")" };
	if (k.type == CppLisp::ListStart)
	{
		std::vector<RV> l;
		for (;;)
		{
			while (p < t.size() && t[p].type == CppLisp::Comment) p++;
			if (p >= t.size()) throw RErr{ "end" };
			if (t[p].type == CppLisp::ListEnd) { p++; return RV::L(l); }
			l.push_back(RReadExpr(t, p));
		}
	}
	RV q = RV::Y(k.type == CppLisp::Quote ? "quote" : k.type == CppLisp::QuasiQuote ? "quasiquote" : k.type == CppLisp::UnQuote ? "_unquote" : "_unquotesplicing");
	RV e = RReadExpr(t, p);
	return RV::L({ q, e });
}
inline RV RRead(const std::string & text)
{
	std::vector<RTok> t; for (auto & x : RLex(text)) t.push_back(RClass(x.text));
	size_t p = 0; while (p < t.size() && t[p].type == CppLisp::Comment) p++;
	if (p >= t.size() || t[p].type != CppLisp::ListStart) throw RErr{ "not a list" };
	RV r = RReadExpr(t, p);
	for (; p < t.size(); p++) if (t[p].type != CppLisp::Comment) throw RErr{ "text behind the program" };
	return r;
}
inline std::string GenLexText(Ctx & c, size_t maxParts)
{
	static std::vector<std::string> parts = { "(", ")", "(", ")", " ", " ", "\n", "\t", "'", "`", ",", ",@", "@", "\"", "\"", "\"abc\"", "\"a(b\"", "\"\"", ";", ";c\n", ";; c (x \"\n", ";\n", "\\n", "\\\"", "\\\\", "\\", "\\x", "\\t", "a", "abc", "x1", "+", "-", "12", "-7", "3.5", "#t", "nil", "true", "\r\n", "\xc3\xa4", "\xff", "{0}", ".", "1e5", "\v" };
	std::string s; size_t n = 1 + c.rng.Below(maxParts); for (size_t i = 0; i < n; i++) s += c.rng.Pick(parts); return s;
}
