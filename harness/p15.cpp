// P15: programs run under the debugger with histories of commands; every stop and listing compared with a model; arbitrary command texts.
#include "frames.h"
#include "common.h"
#include "Debugger.h"
#include "Exception.h"
#include "cstypes.h"
#include <map>
#include <regex>
#include <memory>

struct N { std::string op; std::vector<N> a; int line = 0; bool atom = false; };
static N At(const std::string & s) { N n; n.op = s; n.atom = true; return n; }
static N Op(const std::string & s, std::vector<N> a) { N n; n.op = s; n.a = a; return n; }
struct Fn { std::vector<std::string> ps; N body; std::string module; };
struct Bp { std::string line, module, cond; };
struct Ret { long v; };
struct Over {};
struct Leave {};

struct Prog
{
	Ctx & c; std::vector<N> top; std::string text; std::vector<std::string> vars{ "a", "b", "n" }; std::vector<std::pair<std::string, int>> fns; std::vector<std::string> locals; bool inFn = false, ret = false;
	explicit Prog(Ctx & x) : c(x) {}
	N Var() { if (!locals.empty() && c.rng.Chance(60)) return At(c.rng.Pick(locals)); return At(c.rng.Pick(vars)); }
	N Atom() { return c.rng.Chance(50) ? Var() : At(std::to_string(c.rng.Below(5))); }
	N Cond(int d) { return Op(c.rng.Pick(std::vector<std::string>{ "==", "<", ">", "<=" }), { Int(d - 1), Int(d - 1) }); }
	N Int(int d) { bool o = ret; ret = false; N r = Int1(d); ret = o; return r; }
	N Int1(int d)
	{
		if (d <= 0 || c.rng.Chance(30)) return Atom();
		switch (c.rng.Below(10))
		{
			case 0: case 1: return Op("+", { Int(d - 1), Int(d - 1) });
			case 2: return Op("-", { Int(d - 1), Int(d - 1) });
			case 3: return Op("if", { Cond(d - 1), Int(d - 1), Int(d - 1) });
			case 4: { std::vector<N> a; size_t n = c.rng.Below(3); for (size_t i = 0; i < n; i++) a.push_back(Stmt(d - 1)); a.push_back(Op("+", { Int(d - 1), Atom() })); return Op("do", a); }
			case 5: if (!fns.empty()) { auto f = c.rng.Pick(fns); std::vector<N> a; for (int i = 0; i < f.second; i++) a.push_back(Int(d - 1)); return Op("apply", { At(f.first), Op("list", a) }); }
			default: if (!fns.empty()) { auto f = c.rng.Pick(fns); std::vector<N> a; for (int i = 0; i < f.second; i++) a.push_back(Int(d - 1)); return Op(f.first, a); } return Op("+", { Int(d - 1), Int(d - 1), Int(d - 1) });
		}
	}
	N Stmt(int d)
	{
		switch (c.rng.Below(8))
		{
			case 0: return Op("setf", { At(c.rng.Pick(vars)), Int(d - 1) });
			case 1: if (!inFn) return Op("def", { At(c.rng.Pick(vars)), Int(d - 1) });
			case 2: return Op("println", { Int(d - 1) });
			case 3: if (!inFn && d > 1) { std::string v = "w"; return Op("do", { Op("def", { At(v), At("0") }), Op("while", { Op("<", { At(v), At(std::to_string(1 + c.rng.Below(3))) }), Op("do", { Stmt(d - 2), Op("setf", { At(v), Op("+", { At(v), At("1") }) }) }) }) }); }
			case 4: if (ret && c.rng.Chance(40)) return Op("if", { Cond(d - 1), Op("return", { Int(d - 1) }), Op("+", { Atom(), Atom() }) });
			default: return Op("+", { Int(d - 1), Int(d - 1) });
		}
	}
	N Defn(const std::string & name, int k, const N & body, const std::vector<std::string> & ps) { N p; p.op = "("; for (int i = 0; i < k; i++) p.a.push_back(At(ps[i])); return Op("defn", { At(name), p, body }); }
	void Print(N & n, int & line, std::string & t)
	{
		if (n.atom) { t += n.op; return; }
		n.line = line; t += "("; bool first = true;
		if (n.op != "(") { t += n.op; first = false; }
		for (auto & x : n.a) { if (!first) { if (c.rng.Chance(x.atom ? 8 : 45)) { t += "\n"; line++; if (c.rng.Chance(10)) { t += ";; note\n"; line++; } } else t += " "; } first = false; Print(x, line, t); }
		t += ")";
	}
	void Make()
	{
		std::vector<std::string> ps{ "x", "y" };
		for (auto & v : vars) top.push_back(Op("def", { At(v), At(std::to_string(c.rng.Below(5))) }));
		if (c.rng.Chance(50)) { top.push_back(Defn("r", 1, Op("if", { Op(">", { At("x"), At("0") }), Op("+", { At("1"), Op("r", { Op("-", { At("x"), At("1") }) }) }), At("0") }), ps)); }
		size_t nf = c.rng.Below(4);
		for (size_t i = 0; i < nf; i++)
		{
			int k = (int)c.rng.Below(3); locals.assign(ps.begin(), ps.begin() + k); inFn = true; std::vector<N> b; size_t m = c.rng.Below(3); ret = true; for (size_t j = 0; j < m; j++) b.push_back(Stmt(2)); ret = false; b.push_back(Op("+", { Int(2), Atom() }));
			N body = c.rng.Chance(70) ? Op("do", b) : b.back(); inFn = false; locals.clear(); std::string name = std::string("f") + std::to_string(i);
			top.push_back(Defn(name, k, body, ps)); fns.push_back({ name, k });
		}
		size_t ns = 1 + c.rng.Below(4); for (size_t i = 0; i < ns; i++) top.push_back(Stmt(3));
		if (top.size() > 3 && top[3].op == "defn" && top[3].a[0].op == "r") top.push_back(Op("r", { At(std::to_string(c.rng.Below(4))) }));
		int line = 1; for (auto & s : top) { Print(s, line, text); if (c.rng.Chance(80)) { text += "\n"; line++; } else text += " "; }
	}
};

struct Model
{
	Ctx & c; Prog & p; std::string out, cmds; int left; int lines; std::vector<Bp> bps; bool step = true; int mode = 0, at = 0; long events = 0, stops = 0;
	std::map<std::string, long> g; std::map<std::string, Fn> fn; struct Frame { std::map<std::string, long> m; }; std::vector<Frame> fr;
	Model(Ctx & x, Prog & y) : c(x), p(y), left(1 + (int)x.rng.Below(40)), lines(1 + (int)std::count(y.text.begin(), y.text.end(), '\n')) {}
	bool Get(const std::string & n, long & v) { if (fr.size() > 1 && fr.back().m.count(n)) { v = fr.back().m[n]; return true; } if (g.count(n)) { v = g[n]; return true; } return false; }
	long Atom(const N & n) { if (isdigit((unsigned char)n.op[0])) return std::stol(n.op); long v; if (!Get(n.op, v)) throw Over(); return v; }
	// 0: does not hold, 1: holds, 2: bad
	int Cond(const std::string & s)
	{
		if (s == "(== 1 1)") return 1;
		if (s == "(== 1 2)") return 0;	// a condition is a program: an atom is none
		std::smatch m;
		if (std::regex_match(s, m, std::regex("\\((>|<|==) ([a-z]+) ([0-9]+)\\)"))) { long v; if (!Get(m[2], v)) return m[1] == "==" ? 0 : 2; long k = std::stol(m[3]); return m[1] == ">" ? v > k : m[1] == "<" ? v < k : v == k; }
		return 2;
	}
	void Line(const std::string & s) { out += s + "\n"; }
	bool Hits(int line)
	{
		for (auto & b : bps) if (b.line == std::to_string(line) && (b.module.empty() || b.module == "main"))
		{
			int k = b.cond.empty() ? 1 : Cond(b.cond);
			if (k == 1) return true;
			if (k == 2) Line("Error: bad condition for line " + b.line + ": " + b.cond);
		}
		return false;
	}
	static std::string Pad(const std::string & s, size_t n) { return s + std::string(s.size() < n ? n - s.size() : 0, ' '); }
	void Set(const std::string & mod, const std::string & line, const std::string & cond) { for (auto & b : bps) if (b.line == line && b.module == mod) { b.cond = cond; return; } bps.push_back({ line, mod, cond }); }
	void Cmd(const std::string & s) { cmds += s + "\n"; out += "FUEL(isp)-DBG> "; }
	void Stop(const std::string & op, int line)
	{
		stops++;
		Line("--> " + op + " line=" + std::to_string(line) + " module=main token=" + op);
		step = false; int sel = (int)fr.size();
		for (;;)
		{
			if (left-- <= 0) { Cmd(c.rng.Pick(std::vector<std::string>{ "exit", "q", "quit", "" })); throw Leave(); }
			switch (c.rng.Below(13))
			{
				case 0: case 1: case 2:
				{
					std::string l = std::to_string(c.rng.Chance(90) ? 1 + c.rng.Below(lines) : 0 + c.rng.Below(200)), cond, b = c.rng.Chance(70) ? "b " : "break ", mod = "main";
					if (c.rng.Chance(45)) cond = c.rng.Pick(std::vector<std::string>{ "#t", "(== 1 2)", "(> a 2)", "(== b 1)", "(< x 2)", "(> n 1)", "(== y 0)", "(> nosuch 1)", "5", "(", "(== 1 1)", "nosuch" });
					std::string tail = cond.empty() ? "" : " " + cond;
					switch (c.rng.Below(6))
					{
						case 0: mod = ""; Cmd(b + ":" + l + tail); break;
						case 1: mod = c.rng.Pick(std::vector<std::string>{ "other", "main", "a.fuel" }); Cmd(b + mod + ":" + l + tail); break;
						case 2: mod = c.rng.Pick(std::vector<std::string>{ "my file", "main", "C:\\x.fuel" }); Cmd(b + "\"" + mod + "\":" + l + tail); break;
						case 3: if (c.rng.Chance(30)) { Cmd(b + c.rng.Pick(std::vector<std::string>{ "x", "1x", "main:", ":", "\"main\"", "\"main", "\"main\" 3", "99999999999", "a:b:" }) + tail); Line("Warning: no breakpoint set or modified"); mod = "?"; break; }
						default: Cmd(b + l + tail);
					}
					if (mod != "?") Set(mod, l, cond);
					break;
				}
				case 3:
				{
					size_t k = c.rng.Below(bps.size() + 2); Cmd("clear " + std::to_string(k));
					if (k >= 1 && k <= bps.size()) bps.erase(bps.begin() + (k - 1)); else Line("Warning: no breakpoint cleared");
					break;
				}
				case 4: if (c.rng.Chance(30)) { Cmd("clear"); Line("Really delete all breakpoints? (y/n)"); if (c.rng.Chance(20)) cmds += "maybe\n"; std::string an = c.rng.Pick(std::vector<std::string>{ "y", "n", "YES", "no", "Y" }); cmds += an + "\n"; if (an == "y" || an == "YES" || an == "Y") bps.clear(); } else if (c.rng.Chance(40)) { Cmd(c.rng.Pick(std::vector<std::string>{ "clear x", "clear -1", "clear 1x", "clear 99999999999" })); Line("Warning: no breakpoint cleared"); }
				case 5: case 6: { Cmd(c.rng.Chance(50) ? "t" : "list"); Line("Breakpoints:"); int no = 1; for (auto & b : bps) Line("#" + Pad(std::to_string(no++), 3) + " line=" + Pad(b.line, 5) + " module=" + Pad(b.module, 25) + " condition=" + b.cond); break; }
				case 7: Cmd(c.rng.Chance(50) ? "down" : "d"); if (sel > 1) sel--; break;
				case 8: Cmd(c.rng.Chance(50) ? "up" : "u"); if (sel < (int)fr.size()) sel++; break;
				case 9: Cmd(c.rng.Chance(50) ? "s" : "step"); step = true; mode = 0; return;
				case 10: Cmd(c.rng.Chance(50) ? "v" : "over"); step = true; mode = 1; at = sel; return;
				case 11: Cmd(c.rng.Chance(50) ? "o" : "out"); step = true; mode = 2; at = sel; return;
				case 12: Cmd(c.rng.Chance(50) ? "r" : "run"); step = false; return;
			}
		}
	}
	void Event(const std::string & op, int line)
	{
		if (++events > 3000) throw Over();
		int d = (int)fr.size();
		if ((step && (mode == 0 || (mode == 1 && d <= at) || (mode == 2 && d < at))) || Hits(line)) Stop(op, line);
	}
	long Call(const std::string & f, const std::vector<long> & args)
	{
		Fn & x = fn[f]; Frame n; for (size_t i = 0; i < x.ps.size(); i++) n.m[x.ps[i]] = i < args.size() ? args[i] : throw Over();
		if (fr.size() > 12) throw Over();
		fr.push_back(n); long r; try { r = Ev(x.body); } catch (Ret & e) { r = e.v; } fr.pop_back(); return r;
	}
	long Ev(const N & n)
	{
		if (n.atom) return Atom(n);
		const std::string & o = n.op;
		if (o == "if") { Event(o, n.line); return Ev(n.a[Ev(n.a[0]) ? 1 : 2]); }
		if (o == "do") { Event(o, n.line); long r = 0; for (auto & x : n.a) r = Ev(x); return r; }
		if (o == "def") { Event(o, n.line); long v = Ev(n.a[1]); (fr.size() > 1 ? fr.back().m : g)[n.a[0].op] = v; return v; }
		if (o == "setf") { Event(o, n.line); long v = Ev(n.a[1]); if (fr.size() > 1 && fr.back().m.count(n.a[0].op)) fr.back().m[n.a[0].op] = v; else if (g.count(n.a[0].op)) g[n.a[0].op] = v; else throw Over(); return v; }
		if (o == "defn") { Event(o, n.line); Fn f; for (auto & x : n.a[1].a) f.ps.push_back(x.op); f.body = n.a[2]; fn[n.a[0].op] = f; return 0; }
		if (o == "while") { Event(o, n.line); long r = 0; while (Ev(n.a[0])) r = Ev(n.a[1]); return r; }
		std::vector<long> v(n.a.size()); std::string ap = o == "apply" ? n.a[0].op : ""; size_t from = o == "apply" ? 1 : 0;
		for (size_t i = from; i < n.a.size(); i++) if (n.a[i].atom) v[i] = Atom(n.a[i]);
		std::vector<long> lst;
		for (size_t i = from; i < n.a.size(); i++) if (!n.a[i].atom) { if (n.a[i].op == "list") { lst = Args(n.a[i]); Event("list", n.a[i].line); } else v[i] = Ev(n.a[i]); }
		Event(o, n.line);
		if (o == "+") { long r = 0; for (long x : v) r += x; return (int)r; }
		if (o == "-") return (int)(v[0] - v[1]);
		if (o == "==") return v[0] == v[1]; if (o == "<") return v[0] < v[1]; if (o == ">") return v[0] > v[1]; if (o == "<=") return v[0] <= v[1];
		if (o == "println") { Line(std::to_string(v[0])); return v[0]; }
		if (o == "return") throw Ret{ v[0] };
		if (o == "apply") return Call(ap, lst);
		if (!fn.count(o)) throw Over();
		return Call(o, v);
	}
	std::vector<long> Args(const N & n) { std::vector<long> v(n.a.size()); for (size_t i = 0; i < n.a.size(); i++) if (n.a[i].atom) v[i] = Atom(n.a[i]); for (size_t i = 0; i < n.a.size(); i++) if (!n.a[i].atom) v[i] = Ev(n.a[i]); return v; }
	void Session()
	{
		try
		{
			for (;;)
			{
				g.clear(); fn.clear(); fr.assign(1, Frame()); step = true; mode = 0;
				Event("do", 1);
				for (auto & s : p.top) Ev(s);
				Line("restart program");
			}
		}
		catch (Leave &) {}
	}
};

static void Exact(Ctx & c)
{
	for (int rep = 0; rep < 8; rep++)
	{
		Prog p(c); p.Make(); Model m(c, p);
		try { m.Session(); } catch (Over &) { continue; }
		if (m.out.size() > 40000) continue;
		c.Case("program:\n" + p.text + "\ncommands:\n" + m.cmds);
		std::string is;
		{
			auto out = std::make_shared<CppLisp::TextWriter>(true); auto in = std::make_shared<CppLisp::TextReader>(CppLisp::string(m.cmds)); in->EnableFromString(true);
			CppLisp::LispDebugger d; d.SetInputOutputStreams(out, in);
			try { d.DebuggerLoop(p.text, "main", false); } catch (std::exception & e) { c.Fail(std::string("DebuggerLoop throws ") + e.what()); } catch (...) { c.Fail("DebuggerLoop throws"); }
			is = out->GetContent();
		}
		is = std::regex_replace(is, std::regex(" start=-?[0-9]+ stop=-?[0-9]+"), "");
		size_t e = is.find_last_not_of("\n"), f = m.out.find_last_not_of("\n"); is.resize(e + 1); std::string should = m.out; should.resize(f + 1);
		if (is != should)
		{
			size_t i = 0; while (i < is.size() && i < should.size() && is[i] == should[i]) i++;
			size_t b = is.rfind('\n', i ? i - 1 : 0); b = b == std::string::npos ? 0 : b; if (b > 250) b -= 250; else b = 0;
			c.Fail("the debugger shows ..." + is.substr(b, i - b + 200) + "\n=== should be ..." + should.substr(b, i - b + 200));
		}
		if (m.stops > 1) c.Value();
	}
}

static void Junk(Ctx & c)
{
	static const std::vector<std::string> words{ "b ", "break ", "clear", "clear ", "list", "t", "s", "v", "o", "u", "d", "up", "down", "k", "stack", "c", "code", "l", "g", "locals", "globals", "help", "about", "version", "funcs", "macros", "builtins", "doc ", "doc", "searchdoc ", "searchdoc", "modules", "restart", "r", "run", ":", "\"", "main", "1", "2", "3", "-1", "0", "99999999999999999999", "x", "(", ")", " ", "  ", "\t", "#t", "(+ 1 2)", "'", "`", ",", ";", "{0}", "\\", "car", "a", "f0", "y", "n", "nosuch", "\"main\":2", "\"a b", "2.5", "0x10", "\xc3\xa4" };
	Prog p(c); p.Make(); Model m(c, p); m.left = 0; try { m.Session(); } catch (Over &) { return; }
	// moving between the frames and calling functions there
	static const std::vector<std::string> frames{ "s", "s", "s", "s", "v", "o", "d", "d", "u", "stack", "l", "((lambda (x) x) 7)", "(map (lambda (x) (+ x 1)) (list 1 2))", "((lambda (x) (nosuch x)) 7)" };
	bool moving = c.rng.Chance(40);
	std::string cmds; size_t n = 1 + c.rng.Below(moving ? 60 : 30);
	for (size_t i = 0; i < n; i++)
	{
		if (moving) { cmds += c.rng.Pick(frames) + "\n"; continue; }
		std::string l; size_t k = 1 + c.rng.Below(5);
		if (c.rng.Chance(50)) l = c.rng.Pick(words); else for (size_t j = 0; j < k; j++) l += c.rng.Chance(90) ? c.rng.Pick(words) : std::string(1, (char)(1 + c.rng.Below(126)));
		for (char & ch : l) if (ch == '\n' || ch == '\r') ch = ' ';
		cmds += l + "\n";
	}
	cmds += "exit\n";
	std::string prog = c.rng.Chance(70) ? p.text : c.rng.Pick(std::vector<std::string>{ "", "(", ")", "(nosuch 1)", "(def a 1) (a 2)", "\"x", "(do (+ 1", "5", "'", "(throw \"x\")", "(do\n(defn f (x)\n(nosuch x))\n(f 1))", "(map (lambda (x) (+ x 1)) '(1 2))" });
	c.Case("program:\n" + prog + "\ncommands:\n" + cmds);
	auto out = std::make_shared<CppLisp::TextWriter>(true); auto in = std::make_shared<CppLisp::TextReader>(CppLisp::string(cmds)); in->EnableFromString(true);
	CppLisp::LispDebugger d; d.SetInputOutputStreams(out, in);
	try { d.DebuggerLoop(prog, c.rng.Chance(50) ? "main" : c.rng.Chance(50) ? "command-line" : "", false); }
	catch (std::exception & e) { c.Fail(std::string("a debugger command makes the debugger fail: ") + e.what()); } catch (...) { c.Fail("a debugger command makes the debugger fail"); }
	c.Value();
}
void Run(Ctx & c) { if (c.round == 0 && c.Mine(0)) Frames(c); while (c.Time()) { Exact(c); c.Random(); Junk(c); c.sh->mayLoop[c.id] = 0; } }
