// Reference interpreter (written from the language rules) and generator of random terminating programs.
// A program is a tree of RV (lists, symbols, literals); the reference evaluates the tree, the interpreter its text.
#pragma once
#include "ref.h"
#include <set>
struct REnv; typedef std::shared_ptr<REnv> REnvP;
struct RFn { std::string builtin; std::vector<std::string> formals; RV body; REnvP def; };
struct REnv { std::map<std::string, RV> m; REnvP closure; bool ret = false; bool isCall = false; std::vector<RV> args; };
struct RMacro { std::vector<std::string> formals; RV body; };
struct ROver {};	// too long: not a test case
inline RV Sy(const std::string & s) { return RV::Y(s); }
inline RV Ls(const std::vector<RV> & v) { return RV::L(v); }
inline RV Call(const std::string & f, std::vector<RV> a = {}) { a.insert(a.begin(), Sy(f)); return Ls(a); }

// text the program prints for a value
inline std::string RPrint(const RV & v, bool elem = false)
{
	switch (v.k)
	{
		case 'N': return "NIL";
		case 'U': return "<undefined>";
		case 'B': return v.b ? "#t" : "#f";
		case 'I': return std::to_string(v.i);
		case 'S': return elem ? "\"" + v.s + "\"" : v.s;
		case 'Y': return v.s;
		case 'L': { std::string r = "("; for (auto & e : *v.l) r += (r.size() > 1 ? " " : "") + RPrint(e, true); return r + ")"; }
	}
	throw ROver();
}

struct RInterp
{
	REnvP global = std::make_shared<REnv>();
	std::map<std::string, RMacro> macros;	// run time macros
	std::string out; int steps = 0, depth = 0, maxSteps = 4000, maxDepth = 40;
	std::map<std::string, REnvP> modules; std::map<std::string, std::vector<RV>> files;
	RInterp()
	{
		for (auto n : { "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "not", "list", "first", "rest", "cons", "append", "len", "nth", "reverse", "map", "reduce", "println", "return", "apply", "eval", "args", "argscount", "arg", "string", "import",
			"if", "while", "do", "begin", "and", "or", "&&", "||", "def", "gdef", "setf", "defn", "gdefn", "lambda", "fn", "quote", "quasiquote" })
		{ RV f; f.k = 'f'; auto p = std::make_shared<RFn>(); p->builtin = n; f.fn = p; global->m[n] = f; }
	}
	static RFn & F(const RV & v) { if (v.k != 'f') throw RErr{ "function" }; return *std::static_pointer_cast<RFn>(v.fn); }
	static bool Special(const std::string & n) { static std::set<std::string> s = { "if", "while", "do", "begin", "and", "or", "&&", "||", "def", "gdef", "setf", "defn", "gdefn", "lambda", "fn", "quote", "quasiquote" }; return s.count(n) > 0; }
	RV * Find(const std::string & n, REnvP e)
	{
		for (REnvP x = e; x; x = x->closure) { auto i = x->m.find(n); if (i != x->m.end()) return &i->second; }
		auto i = global->m.find(n); return i != global->m.end() ? &i->second : 0;
	}
	RV Resolve(const RV & y, REnvP e)
	{
		RV * p = Find(y.s, e); if (p) return *p;
		for (auto & mo : modules) { auto i = mo.second->m.find(y.s); if (i != mo.second->m.end()) return i->second; }
		return y;
	}
	static std::vector<RV> List(const RV & v) { if (v.k == 'L') return *v.l; if (v.k == 'N') return {}; throw RErr{ "list" }; }
	static bool Bool(const RV & v) { if (v.k != 'B') throw RErr{ "bool" }; return v.b; }
	static std::vector<std::string> Formals(const RV & v) { if (v.k != 'L') throw RErr{ "formals" }; std::vector<std::string> r; for (auto & e : *v.l) { if (e.k != 'Y') throw ROver(); r.push_back(e.s); } return r; }
	RV MakeFn(const RV & formals, const RV & body, REnvP e) { RV f; f.k = 'f'; auto p = std::make_shared<RFn>(); p->formals = Formals(formals); p->body = body; p->def = e; f.fn = p; return f; }
	RV Apply(const RV & fv, std::vector<RV> a, REnvP e)
	{
		RFn & f = F(fv);
		if (!f.builtin.empty()) { if (Special(f.builtin)) throw ROver(); return Builtin(f.builtin, a, e); }
		auto c = std::make_shared<REnv>(); c->closure = f.def; c->isCall = true;
		while (a.size() < f.formals.size()) a.push_back(RV::Nil());
		for (size_t i = 0; i < f.formals.size(); i++) c->m[f.formals[i]] = a[i];
		c->args = a;
		if (a.size() > f.formals.size()) c->m["_additionalArgs"] = RV::L(std::vector<RV>(a.begin() + f.formals.size(), a.end()));
		return Eval(f.body, c);
	}
	REnv & CallEnv(REnvP e) { if (!e->isCall) throw RErr{ "no call" }; return *e; }
	void Count(const std::vector<RV> & a, size_t lo, size_t hi) { if (a.size() < lo || a.size() > hi) throw RErr{ "count" }; }
	RV Builtin(const std::string & n, std::vector<RV> & a, REnvP e)
	{
		if (n == "println") { std::string t; for (auto & x : a) { std::string p = RPrint(x); if (!t.empty()) t += " "; t += p; } out += t + "\n"; return RV::S(t); }
		if (n == "return") { Count(a, 1, 999); e->ret = true; return a[0]; }
		if (n == "+" || n == "string") return RFold('+', a);
		if (n == "-" || n == "*" || n == "/" || n == "%") return RFold(n[0], a);
		if (n == "<" || n == ">" || n == "<=" || n == ">=") { Count(a, 2, 2); bool sw = n[0] == '>'; return RV::B(RLess(sw ? a[1] : a[0], sw ? a[0] : a[1], n.size() > 1)); }
		if (n == "==" || n == "!=") { Count(a, 2, 2); if (a[0].k == 'f' || a[1].k == 'f' || a[0].k == 'U' || a[1].k == 'U' || (a[0].k == 'S') != (a[1].k == 'S')) throw ROver(); return RV::B(REqual(a[0], a[1]) == (n == "==")); }
		if (n == "not") { Count(a, 1, 1); return RV::B(!Bool(a[0])); }
		if (n == "list") return RV::L(a);
		if (n == "first") { Count(a, 1, 1); if (a[0].k == 'S') throw ROver(); auto l = List(a[0]); if (l.empty()) throw RErr{ "empty" }; return l[0]; }
		if (n == "rest") { Count(a, 1, 1); if (a[0].k == 'S') throw ROver(); auto l = List(a[0]); if (!l.empty()) l.erase(l.begin()); return RV::L(l); }
		if (n == "reverse") { Count(a, 1, 1); if (a[0].k == 'S') throw ROver(); auto l = List(a[0]); return RV::L(std::vector<RV>(l.rbegin(), l.rend())); }
		if (n == "cons") { Count(a, 2, 2); if (a[1].k != 'L') throw ROver(); auto l = List(a[1]); l.insert(l.begin(), a[0]); return RV::L(l); }
		if (n == "append") { std::vector<RV> r; for (auto & x : a) { auto l = List(x); r.insert(r.end(), l.begin(), l.end()); } return RV::L(r); }
		if (n == "len") { Count(a, 1, 1); if (a[0].k == 'S') return RV::I((int)a[0].s.size()); return RV::I((int)List(a[0]).size()); }
		if (n == "nth") { Count(a, 2, 2); if (a[1].k == 'S' || a[0].k != 'I') throw ROver(); auto l = List(a[1]); if (a[0].i < 0 || (size_t)a[0].i >= l.size()) throw RErr{ "index" }; return l[a[0].i]; }
		if (n == "map") { Count(a, 2, 2); F(a[0]); std::vector<RV> r; for (auto & x : List(a[1])) r.push_back(Apply(a[0], { x }, e)); return RV::L(r); }
		if (n == "reduce") { Count(a, 3, 3); F(a[0]); RV r = a[2]; for (auto & x : List(a[1])) r = Apply(a[0], { x, r }, e); return r; }
		if (n == "apply") { Count(a, 2, 2); F(a[0]); return Apply(a[0], List(a[1]), e); }
		if (n == "eval") { Count(a, 1, 1); return Eval(a[0], e); }
		if (n == "import")
		{
			RV r = RV::Undef();
			for (auto & x : a) { if (x.k != 'S' || !files.count(x.s)) throw ROver(); auto m = std::make_shared<REnv>(); r = RV::Undef(); for (auto & st : files[x.s]) { r = Eval(st, m); if (m->ret) break; } modules[x.s] = m; }
			return r;
		}
		if (n == "args") { Count(a, 0, 0); return RV::L(CallEnv(e).args); }
		if (n == "argscount") { Count(a, 0, 0); return RV::I((int)CallEnv(e).args.size()); }
		if (n == "arg") { Count(a, 1, 1); if (a[0].k != 'I') throw ROver(); auto & c = CallEnv(e); if (a[0].i < 0 || (size_t)a[0].i >= c.args.size()) throw RErr{ "arg" }; return c.args[a[0].i]; }
		throw ROver();
	}
	// the elements of a quasiquoted list
	std::vector<RV> Quasi(const std::vector<RV> & t, REnvP e)
	{
		std::vector<RV> r;
		for (auto & x : t)
		{
			if (x.k != 'L') { r.push_back(x); continue; }
			auto & l = *x.l;
			if (l.size() == 2 && l[0].k == 'Y' && l[0].s == "_unquote") r.push_back(Eval(l[1], e));
			else if (l.size() == 2 && l[0].k == 'Y' && l[0].s == "_unquotesplicing") { auto v = List(Eval(l[1], e)); r.insert(r.end(), v.begin(), v.end()); }
			else r.push_back(RV::L(Quasi(l, e)));
		}
		return r;
	}
	static RV Subst(const RV & t, const std::map<std::string, RV> & m)
	{
		if (t.k == 'L')
		{
			std::vector<RV> r; auto q = m.find("quoted-macro-args");
			for (auto & e : *t.l) if (e.k == 'Y' && e.s == "quoted-macro-args" && q != m.end()) r.insert(r.end(), q->second.l->begin(), q->second.l->end()); else r.push_back(Subst(e, m));
			return RV::L(r);
		}
		if (t.k == 'Y') { auto i = m.find(t.s); return i == m.end() ? t : i->second; }
		return t;
	}
	static std::map<std::string, RV> Actuals(const RMacro & ma, const std::vector<RV> & call)
	{
		std::map<std::string, RV> m; m.insert({ "quoted-macro-args", RV::L({ Sy("quote"), RV::L(std::vector<RV>(call.begin() + 1, call.end())) }) });
		for (size_t i = 0; i < ma.formals.size(); i++) { if (i + 1 >= call.size()) throw RErr{ "macro arguments" }; m.insert({ ma.formals[i], call[i + 1] }); }
		return m;
	}
	RV Def(const RV & place, const RV & v, REnvP target) { if (place.k != 'Y' && place.k != 'S') throw RErr{ "place" }; target->m[place.s] = v; return v; }
	RV Eval(const RV & ast, REnvP e)
	{
		if (++steps > maxSteps) throw ROver();
		if (ast.k == 'Y') return Resolve(ast, e);
		if (ast.k != 'L') return ast;
		if (ast.l->empty()) return RV::Nil();
		struct D { int & d; D(int & x, int m) : d(x) { if (++d > m) { --d; throw ROver(); } } ~D() { --d; } } guard(depth, maxDepth);
		const std::vector<RV> & l = *ast.l;
		auto mi = macros.find(l[0].s);
		if (mi != macros.end())
		{
			return Eval(Subst(mi->second.body, Actuals(mi->second, l)), e);
		}
		if (l[0].s == "define-macro-eval" || l[0].s == "define-macro") { if (l.size() != 4) throw RErr{ "macro" }; macros[l[1].s] = RMacro{ Formals(l[2]), l[3] }; return RV::Undef(); }
		RV head = l[0].k == 'Y' ? Resolve(l[0], e) : l[0];
		RFn & f = F(head);
		std::vector<RV> a(l.begin() + 1, l.end());
		if (Special(f.builtin)) return SpecialForm(f.builtin, a, e);
		// names are looked up first, then the nested calls are evaluated from left to right
		for (auto & x : a) if (x.k == 'Y') x = Resolve(x, e); 
		for (size_t i = 0; i < a.size(); i++) if (l[i + 1].k == 'L') a[i] = Eval(l[i + 1], e);
		return Apply(head, a, e);
	}
	RV SpecialForm(const std::string & n, const std::vector<RV> & a, REnvP e)
	{
		if (n == "if") { Count(a, 2, 3); if (Bool(Eval(a[0], e))) return Eval(a[1], e); return a.size() > 2 ? Eval(a[2], e) : RV::Nil(); }
		if (n == "while")
		{
			Count(a, 2, 2); RV r = RV::Undef();
			auto cond = [&] { RV c = Eval(a[0], e); if (c.k == 'B') return c.b; if (c.k == 'I') return c.i != 0; throw RErr{ "condition" }; };
			while (cond()) { r = Eval(a[1], e); if (e->ret) break; }
			return r;
		}
		if (n == "do" || n == "begin") { RV r = RV::Undef(); for (auto & x : a) { if (x.k != 'L') throw RErr{ "statement" }; r = Eval(x, e); if (e->ret) break; } return r; }
		if (n == "and" || n == "&&") { for (auto & x : a) if (!Bool(Eval(x, e))) return RV::B(false); return RV::B(true); }
		if (n == "or" || n == "||") { for (auto & x : a) if (Bool(Eval(x, e))) return RV::B(true); return RV::B(false); }
		if (n == "def" || n == "gdef") { Count(a, 2, 2); RV p = a[0].k == 'L' ? Eval(a[0], e) : a[0]; if (p.k != 'Y' && p.k != 'S') throw RErr{ "place" }; RV v = Eval(a[1], e); return Def(p, v, n == "def" ? e : global); }
		if (n == "setf") { Count(a, 2, 2); if (a[0].k != 'Y') throw ROver(); RV v = Eval(a[1], e); RV * p = Find(a[0].s, e); if (!p) throw RErr{ "unbound" }; *p = v; return v; }
		if (n == "defn" || n == "gdefn") { Count(a, 3, 3); if (a[0].k != 'Y') throw ROver(); RV f = MakeFn(a[1], a[2], e); return Def(a[0], f, n == "defn" ? e : global); }
		if (n == "lambda" || n == "fn") { Count(a, 2, 2); return MakeFn(a[0], a[1], e); }
		if (n == "quote") { Count(a, 1, 1); return a[0]; }
		if (n == "quasiquote")
		{
			Count(a, 1, 1); if (a[0].k != 'L') return a[0];
			auto & l = *a[0].l;
			if (l.size() == 2 && l[0].k == 'Y' && l[0].s == "_unquote") return Eval(l[1], e);
			if (l.size() == 2 && l[0].k == 'Y' && l[0].s == "_unquotesplicing") throw ROver();
			return RV::L(Quasi(l, e));
		}
		throw ROver();
	}
};

// ---- random programs: the kind of a name tells the type of its value in every scope ----------
struct PGen
{
	Ctx & c; std::vector<std::string> ints{ "a", "b", "x", "y", "n" }, bools{ "p", "q" }, lists{ "l", "k" }, fns{ "f", "g", "h" }, hofs{ "u", "w" }; int fresh = 0; int budget = 60; bool errors; bool inFn = false; bool macros = false;
	std::map<std::string, int> arity; std::vector<std::pair<std::string, int>> macroNames;
	PGen(Ctx & x, bool err) : c(x), errors(err) {}
	bool Err(int pct) { return errors && c.rng.Chance(pct); }
	RV Name(const std::vector<std::string> & v) { return Sy(c.rng.Pick(v)); }
	RV Lit() { return RV::I((int)c.rng.Below(9) - 2); }
	RV CallFn(int d) { std::string f = c.rng.Pick(fns); auto it = arity.find(f); int n = it != arity.end() && c.rng.Chance(85) ? it->second : (int)c.rng.Below(4); std::vector<RV> a; for (int i = 0; i < n; i++) a.push_back(Int(d - 1)); return Call(f, a); }
	RV Int(int d)
	{
		budget--;
		if (d <= 0 || budget < 0) return c.rng.Chance(65) ? Name(ints) : Lit();
		if (Err(1)) return c.rng.Chance(50) ? Call("first", { Ls({}) }) : Call("undefinedf", { Lit() });
		switch (c.rng.Below(macroNames.empty() ? 15 : 17))
		{
			case 0: case 1: return Name(ints);
			case 2: return Lit();
			case 3: return Call("+", { Int(d - 1), Int(d - 1) });
			case 4: return Call("-", { Int(d - 1), Int(d - 1) });
			case 5: return Call("*", { Int(d - 1), Int(d - 1) });
			case 6: return Call("if", { Bool(d - 1), Int(d - 1), Int(d - 1) });
			case 7: return CallFn(d);
			case 8: return CallFn(d);
			case 9: return Call("len", { List(d - 1) });
			case 10: return c.rng.Chance(50) ? Call("apply", { Name(fns), List(d - 1) }) : Call("reduce", { c.rng.Chance(50) ? Name(fns) : Lambda(d - 1, 2), List(d - 1), Int(d - 1) });
			case 11: return Block(d - 1, true);
			case 12: if (inFn) return c.rng.Chance(50) ? Call("argscount") : Call("arg", { RV::I((int)c.rng.Below(3)) }); return Name(ints);
			case 13: return c.rng.Chance(50) ? Call("setf", { Name(ints), Int(d - 1) }) : Call(c.rng.Chance(60) ? "def" : "gdef", { Name(ints), Int(d - 1) });
			case 14: return Call("eval", { c.rng.Chance(50) ? Call("quote", { Int(d - 1) }) : Call("list", { Sy(c.rng.Chance(50) ? "+" : "*"), Int(d - 1), Lit() }) });
			default: { auto m = c.rng.Pick(macroNames); std::vector<RV> a; for (int i = 0; i < m.second - (Err(3) ? 1 : 0); i++) a.push_back(Int(d - 1)); return Call(m.first, a); }
		}
	}
	RV Bool(int d)
	{
		budget--;
		if (Err(1)) return Int(d);
		if (d <= 0 || budget < 0) return c.rng.Chance(50) ? RV::B(c.rng.Chance(50)) : Call(c.rng.Chance(50) ? "<" : "==", { Name(ints), Lit() });
		switch (c.rng.Below(7))
		{
			case 0: return Name(bools);
			case 1: case 2: return Call(c.rng.Pick(std::vector<std::string>{ "<", ">", "<=", ">=", "==", "!=" }), { Int(d - 1), Int(d - 1) });
			case 3: { std::vector<RV> a; size_t n = c.rng.Below(4); for (size_t i = 0; i < n; i++) a.push_back(Bool(d - 1)); return Call(c.rng.Chance(50) ? "and" : c.rng.Chance(70) ? "or" : c.rng.Chance(50) ? "&&" : "||", a); }
			case 4: return Call("not", { Bool(d - 1) });
			case 5: return Call("do", { Call("println", { RV::S("b" + std::to_string(fresh++)) }), Call("not", { RV::B(c.rng.Chance(50)) }) });
			default: return RV::B(c.rng.Chance(50));
		}
	}
	RV Quoted(int d) { std::vector<RV> r; size_t n = c.rng.Below(4); for (size_t i = 0; i < n; i++) r.push_back(d > 0 && c.rng.Chance(30) ? Quoted(d - 1) : c.rng.Chance(50) ? Lit() : c.rng.Chance(70) ? Name(ints) : RV::S("s")); return Ls(r); }
	// template of a quasiquote; ints: the spliced and inserted values are numbers
	RV Template(int d)
	{
		std::vector<RV> r; size_t n = c.rng.Below(5);
		for (size_t i = 0; i < n; i++)
			switch (c.rng.Below(6))
			{
				case 0: r.push_back(Ls({ Sy("_unquote"), Int(d - 1) })); break;
				case 1: r.push_back(Ls({ Sy("_unquotesplicing"), Err(2) ? Int(d - 1) : List(d - 1) })); break;
				case 2: if (d > 0) { r.push_back(Template(d - 1)); break; }
				case 3: r.push_back(Name(ints)); break;
				default: r.push_back(Lit()); break;
			}
		return Ls(r);
	}
	RV List(int d)
	{
		budget--;
		if (Err(1)) return Int(d);
		if (d <= 0 || budget < 0) return c.rng.Chance(60) ? Name(lists) : Call("list", { Lit(), Lit() });
		switch (c.rng.Below(10))
		{
			case 0: case 1: return Name(lists);
			case 2: case 3: { std::vector<RV> a; size_t n = c.rng.Below(4); for (size_t i = 0; i < n; i++) a.push_back(Int(d - 1)); return Call("list", a); }
			case 4: return Call("cons", { Int(d - 1), List(d - 1) });
			case 5: return Call("append", { List(d - 1), List(d - 1) });
			case 6: return Call("rest", { List(d - 1) });
			case 7: return Call("map", { c.rng.Chance(60) ? Name(fns) : Lambda(d - 1, 1), List(d - 1) });
			case 8: return inFn ? c.rng.Chance(50) ? Call("args") : Sy("_additionalArgs") : Call("reverse", { List(d - 1) });
			default: return c.rng.Chance(60) ? Call("quasiquote", { Template(d - 1) }) : Call("quote", { Quoted(1) });
		}
	}
	RV Formal(int n) { std::vector<RV> r; std::vector<std::string> pool = ints; for (int i = 0; i < n; i++) { size_t k = c.rng.Below(pool.size()); r.push_back(Sy(pool[k])); if (pool.size() > 1) pool.erase(pool.begin() + k); } return Ls(r); }
	RV Body(int d) { bool o = inFn; inFn = true; RV r = c.rng.Chance(40) ? Int(d) : Block(d, true); inFn = o; return r.k == 'L' ? r : Call("+", { r, RV::I(0) }); }
	RV Lambda(int d, int n) { return Call(c.rng.Chance(50) ? "lambda" : "fn", { Formal(c.rng.Chance(80) ? n : (int)c.rng.Below(4)), Body(d) }); }
	RV Print(int d) { std::vector<RV> a; a.push_back(RV::S("t" + std::to_string(fresh++))); if (c.rng.Chance(70)) a.push_back(c.rng.Chance(10) ? Block(d - 1, false) : c.rng.Chance(80) ? Int(d - 1) : List(d - 1)); return Call("println", a); }
	RV Stmt(int d)
	{
		budget--;
		if (d <= 0 || budget < 0) return Print(1);
		switch (c.rng.Below(16))
		{
			case 0: case 1: return Print(d);
			case 2: return Call("def", { Name(ints), Int(d - 1) });
			case 3: return Call("setf", { Name(ints), Int(d - 1) });
			case 4: return Call("gdef", { Name(ints), Int(d - 1) });
			case 5: return Call(c.rng.Chance(60) ? "def" : "setf", { Name(lists), List(d - 1) });
			case 6: { std::vector<RV> a{ Bool(d - 1), Stmt(d - 1) }; if (c.rng.Chance(60)) a.push_back(Stmt(d - 1)); return Call("if", a); }
			case 7: return Loop(d);
			case 8: return DefFn(d);
			case 9: return c.rng.Chance(50) ? DefRec(d) : DefFn(d);
			case 10: return Block(d - 1, false);
			case 11: if (inFn) return Call("return", { Int(d - 1) }); return Call("def", { Name(bools), Bool(d - 1) });
			case 12: if (c.rng.Chance(35)) return DefHof(d); if (c.rng.Chance(45)) return Call(c.rng.Chance(60) ? "def" : c.rng.Chance(50) ? "gdef" : "setf", { Name(fns), Call(c.rng.Pick(hofs), { Int(d - 1), Int(d - 1) }) }); return Call("def", { Name(fns), c.rng.Chance(70) ? Lambda(d - 1, 2) : Name(fns) });
			case 13: if (errors && c.rng.Chance(15)) return IllFormed(d); return Call("def", { Name(bools), Bool(d - 1) });
			case 14: return CallFn(d);
			default: if (macros && c.rng.Chance(50)) return Macro(d); if (c.rng.Chance(25)) return Ls({}); return Print(d);
		}
	}
	RV IllFormed(int d)
	{
		switch (c.rng.Below(12))
		{
			case 0: return Call("if", { Bool(d - 1) });
			case 1: return Call("if", { Bool(d - 1), Lit(), Lit(), Lit() });
			case 2: return Call("while", { RV::B(false) });
			case 3: return Call("do", { Print(1), Lit() });
			case 4: return Call("def", { Lit(), Lit() });
			case 5: return Call("def", { Name(ints) });
			case 6: return Call("setf", { Sy("unbound"), Print(1) });
			case 7: return Call("lambda", { Ls({}) });
			case 8: return Call("and", { RV::B(true), Lit(), Print(1) });
			case 9: return Call("quote", { Lit(), Lit() });
			case 10: return Call("return");
			default: return Call("defn", { Name(fns), Ls({}) });
		}
	}
	RV Loop(int d)
	{
		std::string i = "i" + std::to_string(fresh++); int n = (int)c.rng.Below(4);
		std::vector<RV> b{ Sy("do") }; size_t k = 1 + c.rng.Below(2); for (size_t j = 0; j < k; j++) b.push_back(Stmt(d - 1));
		b.insert(b.begin() + 1 + c.rng.Below(b.size()), Call("setf", { Sy(i), Call("+", { Sy(i), RV::I(1) }) }));
		RV cond = Call("<", { Sy(i), RV::I(n) });
		if (c.rng.Chance(40)) cond = Call("and", { cond, Bool(d - 1) });
		return Call("do", { Call("def", { Sy(i), RV::I(0) }), Call("while", { cond, Ls(b) }) });
	}
	RV DefFn(int d) { std::string f = c.rng.Pick(fns); int n = (int)c.rng.Below(4); RV fo = Formal(n); RV body = Body(d - 1); arity[f] = n; return Call(c.rng.Chance(75) ? "defn" : "gdefn", { Sy(f), fo, body }); }
	// a function that returns a closure
	RV DefHof(int d) { RV fo = Formal(1 + (int)c.rng.Below(2)); bool o = inFn; inFn = true; std::vector<RV> b{ Sy("do") }; size_t n = c.rng.Below(3); for (size_t i = 0; i < n; i++) b.push_back(c.rng.Chance(60) ? Call("def", { Name(ints), Int(d - 2) }) : Stmt(d - 2)); b.push_back(Lambda(d - 1, (int)c.rng.Below(3))); inFn = o; return Call(c.rng.Chance(80) ? "defn" : "gdefn", { Name(hofs), fo, Ls(b) }); }
	// a recursive function
	RV DefRec(int d)
	{
		std::string f = c.rng.Pick(fns); int n = 1 + (int)c.rng.Below(3); RV fo = Formal(n); std::string v = (*fo.l)[0].s; arity[f] = n; bool o = inFn; inFn = true;
		std::vector<RV> a{ Call("-", { Sy(v), RV::I(1) }) }; for (int i = 1; i < n; i++) a.push_back(Int(d - 1)); if (c.rng.Chance(10)) a.push_back(Int(d - 1));
		std::vector<RV> b{ Sy("do") }; size_t k = c.rng.Below(3); for (size_t i = 0; i < k; i++) b.push_back(Stmt(d - 1));
		RV rec = Call(f, a); int w = (int)c.rng.Below(3); b.push_back(w == 0 ? Call("+", { rec, Int(d - 1) }) : w == 1 ? Call("+", { Int(d - 1), rec }) : Call("+", { rec, Name(ints), Sy(v) }));
		RV body = Call("if", { Call("<", { Sy(v), RV::I(1) }), Int(d - 1), Ls(b) }); inFn = o;
		return Call(c.rng.Chance(75) ? "defn" : "gdefn", { Sy(f), fo, body });
	}
	RV Macro(int d) { std::string f = "m" + std::to_string(fresh++); if (!macroNames.empty() && c.rng.Chance(15)) { size_t k = c.rng.Below(macroNames.size()); f = macroNames[k].first; macroNames.erase(macroNames.begin() + k); } int n = (int)c.rng.Below(3); RV r = Call(c.rng.Chance(50) ? "define-macro-eval" : "define-macro", { Sy(f), Formal(n), Body(d - 1) }); macroNames.push_back({ f, n }); return r; }
	RV Block(int d, bool value) { std::vector<RV> a{ Sy(c.rng.Chance(85) ? "do" : "begin") }; size_t n = c.rng.Below(3) + (value ? 0 : 1); for (size_t i = 0; i < n; i++) a.push_back(Stmt(d - 1)); if (value) { RV v = Int(d - 1); a.push_back(v.k == 'L' ? v : Call("+", { v, RV::I(0) })); } return Ls(a); }
	std::vector<RV> Program(size_t n, int d, bool defs = true)
	{
		std::vector<RV> r;
		if (!defs) { for (size_t i = 0; i < n; i++) { budget = 40; r.push_back(Stmt(d)); } return r; }
		r.push_back(Call("def", { Sy("a"), RV::I(1) })); r.push_back(Call("def", { Sy("b"), RV::I(2) })); r.push_back(Call("def", { Sy("x"), RV::I(3) })); if (c.rng.Chance(90)) r.push_back(Call("def", { Sy("y"), RV::I(4) })); if (c.rng.Chance(90)) r.push_back(Call("def", { Sy("n"), RV::I(5) }));
		r.push_back(Call("def", { Sy("p"), RV::B(true) })); r.push_back(Call("def", { Sy("q"), RV::B(false) })); r.push_back(Call("def", { Sy("l"), Call("list", { RV::I(7), RV::I(8) }) })); r.push_back(Call("def", { Sy("k"), Call("list") }));
		for (auto f : fns) { budget = 15; int m = (int)c.rng.Below(3); arity[f] = m; r.push_back(Call("defn", { Sy(f), Formal(m), Body(2) })); }
		for (auto f : hofs) { budget = 15; r.push_back(Call("defn", { Sy(f), Formal(1), Lambda(2, 1) })); }
		for (size_t i = 0; i < n; i++) { budget = 40; r.push_back(Stmt(d)); }
		return r;
	}
};

inline std::string ProgText(const std::vector<RV> & p) { std::string s; for (auto & e : p) s += QSrc(e) + "\n"; return s; }
// runs the program in both; compares printed text and result (undefined, nil and nothing count as no value). false: not a test case
inline bool Compare(Ctx & c, const std::vector<RV> & prog, const std::string & text, RInterp & ri, ScopeP scope, REnvP renv = REnvP(), bool checkVars = true)
{
	if (!renv) renv = ri.global;
	std::string should; ri.out.clear(); ri.steps = 0; renv->ret = false;
	try { std::vector<RV> all{ Sy("do") }; all.insert(all.end(), prog.begin(), prog.end()); RV r = ri.Eval(Ls(all), renv); should = r.k == 'U' || r.k == 'N' ? "no value" : Show(r); }
	catch (RErr &) { should = ErrText(); }
	catch (ROver &) { return false; }
	std::string shouldOut = ri.out, out;
	Out o = Ev(c, text, scope, &out);
	std::string is = o.err ? ErrText() : o.none || o.v.k == 'U' || o.v.k == 'N' ? "no value" : Show(o.v);
	if (out != shouldOut) c.Fail("printed:\n" + out + "should be:\n" + shouldOut + (o.err ? "(error: " + o.msg.substr(0, 200) + ")" : ""));
	if (is != should) c.Fail("result is " + is + (o.err ? " (" + o.msg.substr(0, 200) + ")" : "") + " should be " + should);
	if (scope && scope->Next) c.Fail("after the program the scope chain is not as before (a called scope is left)");
	if (scope && checkVars)
		for (auto n : { "a", "b", "x", "y", "n", "p", "q", "l", "k" })
		{
			auto it = scope->find(n); auto ir = ri.global->m.find(n);
			std::string v = it == scope->end() ? "<unbound>" : Show(FromObject(it->second)), w = ir == ri.global->m.end() ? "<unbound>" : Show(ir->second);
			if (v != w) c.Fail(std::string("after the program the global ") + n + " is " + v + " should be " + w);
		}
	return true;
}
