// P16: every builtin with every number and type of arguments, and random programs: SaveEval never throws, aborts or touches invalid memory.
#include "common.h"
#include "Lisp.h"
#include "Scope.h"
#include "Environment.h"
#include "Exception.h"
using namespace CppLisp;

static std::vector<std::string> Values(bool all)
{
	std::vector<std::string> v = { "0", "1", "-1", "7", "1.5", "\"\"", "\"abc\"", "#t", "#f", "nil", "'()", "'(1 2 3)", "'((1 2) (3 \"x\"))", "'sym", "(make-dict)", "(lambda (x) x)", "nosuch", "if", "car" };
	if (all)
	{
		for (auto s : { "2147483647", "-2147483648", "1e300", "\"{0}\"", "\"42\"", "(lambda (x y) (+ x y))", "'(quote a)", "`,@'(1 2)", "(if #f 1)", "setf", "((1))", "(quote (if))", "'(a . b)", "map", "\" x \"", "'(#t nil)", "(list (make-dict) car)" }) v.push_back(s);
	}
	return v;
}

static bool Skip(const std::string & n)
{
	return n.find("###") == 0 || n == "sleep" || n == "readline" || n == "File-WriteAllText";
}

static std::string Gen(Ctx & c, const std::vector<std::string> & fn, const std::vector<std::string> & val, int depth)
{
	if (depth <= 0 || c.rng.Chance(25))
	{
		if (c.rng.Chance(30)) return c.rng.Pick(std::vector<std::string>{ "a", "b", "l", "d", "f", "m", "x" });
		return c.rng.Pick(val);
	}
	std::string s = "(";
	int k = (int)c.rng.Below(16);
	switch (k)
	{
		case 0: return "(do " + Gen(c, fn, val, depth - 1) + " " + Gen(c, fn, val, depth - 1) + ")";
		case 1: return "(def " + c.rng.Pick(std::vector<std::string>{ "a", "b", "l", "d", "f" }) + " " + Gen(c, fn, val, depth - 1) + ")";
		case 2: return "(defn " + c.rng.Pick(std::vector<std::string>{ "f", "g", "a" }) + " (x y) " + Gen(c, fn, val, depth - 1) + ")";
		case 3: return "(" + std::string(c.rng.Chance(50) ? "define-macro-eval" : "define-macro-expand") + " m (x) " + Gen(c, fn, val, depth - 1) + ")";
		case 4: return "'" + Gen(c, fn, val, depth - 1);
		case 5: return "`(" + Gen(c, fn, val, depth - 1) + " ," + Gen(c, fn, val, depth - 1) + " ,@" + Gen(c, fn, val, depth - 1) + ")";
		case 6: return "(setf " + Gen(c, fn, val, depth - 1) + " " + Gen(c, fn, val, depth - 1) + ")";
		case 7: return "(m " + Gen(c, fn, val, depth - 1) + ")";
		case 8: return "(f " + Gen(c, fn, val, depth - 1) + ")";
		case 9: return "(if " + Gen(c, fn, val, depth - 1) + " " + Gen(c, fn, val, depth - 1) + ")";
		case 10: return "(map (lambda (x) " + Gen(c, fn, val, depth - 1) + ") " + Gen(c, fn, val, depth - 1) + ")";
		default:
		{
			s += c.rng.Pick(fn);
			int n = (int)c.rng.Below(5);
			for (int i = 0; i < n; i++) s += " " + Gen(c, fn, val, depth - 1);
			return s + ")";
		}
	}
}

// Programs which change their own code while it is evaluated: A names a list of the program, V a fresh value (never one of its lists, so that no list gets into itself).
static std::string SelfA(Ctx & c, int depth)
{
	std::string a = "q";
	int n = (int)c.rng.Below(depth + 1);
	for (int i = 0; i < n; i++) a = "(nth " + std::to_string(c.rng.Below(4)) + " " + a + ")";
	return a;
}

static std::string Self(Ctx & c, int depth, bool quasi)
{
	static const std::vector<std::string> V = { "1", "\"x\"", "nil", "(list 1 2)", "(list)", "(list (list 3))", "#t" };
	std::string comma = quasi ? (c.rng.Chance(60) ? "," : (c.rng.Chance(50) ? ",@" : "")) : "";
	int k = (int)c.rng.Below(depth <= 0 ? 4 : 12);
	switch (k)
	{
		case 0: return comma + "(push " + c.rng.Pick(V) + " " + SelfA(c, 3) + (c.rng.Chance(70) ? " " + std::to_string(c.rng.Below(4)) : "") + ")";
		case 1: return comma + "(pop " + SelfA(c, 3) + (c.rng.Chance(70) ? " " + std::to_string(c.rng.Below(4)) : "") + ")";
		case 2: return comma + "(setf (nth " + std::to_string(c.rng.Below(4)) + " " + SelfA(c, 3) + ") " + c.rng.Pick(V) + ")";
		case 3: return comma.empty() ? c.rng.Pick(V) : comma + c.rng.Pick(V);
		case 4: case 5: return comma + "`(" + Self(c, depth - 1, true) + " " + Self(c, depth - 1, true) + " " + Self(c, depth - 1, true) + ")";
		case 6: return comma + "(do " + Self(c, depth - 1, false) + " " + Self(c, depth - 1, false) + ")";
		case 7: return comma + "(if " + (c.rng.Chance(50) ? "#t" : "#f") + " " + Self(c, depth - 1, false) + " " + Self(c, depth - 1, false) + ")";
		case 8: return comma + "(map (lambda (x) " + Self(c, depth - 1, false) + ") " + SelfA(c, 2) + ")";
		case 9: return comma + "((lambda (x y) (list x " + Self(c, depth - 1, false) + " y)) " + Self(c, depth - 1, false) + " " + Self(c, depth - 1, false) + ")";
		case 10: return comma + "(list " + Self(c, depth - 1, false) + " " + Self(c, depth - 1, false) + " " + Self(c, depth - 1, false) + ")";
		default: return comma + "(reduce (lambda (x y) " + Self(c, depth - 1, false) + ") " + SelfA(c, 2) + " 0)";
	}
}

static std::string SelfProgram(Ctx & c)
{
	return "(do (def q (quote " + Self(c, 3, false) + ")) (eval q) (eval q))";
}

static void One(Ctx & c, const std::string & prog)
{
	c.Case(prog);
	try
	{
		auto out = std::make_shared<TextWriter>(true);
		auto r = Lisp::SaveEval(prog, "main", false, false, out);
		if (r.get() != 0)
		{
			// the value can be looked at
			std::string s = r->ToString();
			s = r->TypeString();
			if (!r->IsError()) c.Value();
			else c.Check(r->Value.get() != 0, "error value without a message");
		}
	}
	catch (LispExceptionBase & e) { c.Fail("SaveEval throws LispExceptionBase: " + e.Message); }
	catch (std::exception & e) { c.Fail(std::string("SaveEval throws std::exception: ") + e.what()); }
	catch (...) { c.Fail("SaveEval throws"); }
}

static void Session(Ctx & c, const std::vector<std::string> & fn, const std::vector<std::string> & val)
{
	// a failing evaluation leaves the session usable
	auto scope = LispEnvironment::CreateDefaultScope();
	std::string hist;
	std::vector<std::pair<std::string, std::shared_ptr<object>>> needed;
	for (auto n : { "do", "def", "setf", "first", "lambda", "return", "nop", "list" }) needed.push_back({ n, (*scope)[n] });
	auto kept = [&]() -> bool
	{
		for (auto & n : needed) { auto it = scope->find(n.first); if (it == scope->end() || it->second != n.second) return false; }
		for (auto & n : needed) if (LispEnvironment::IsMacro(std::make_shared<object>(n.first), scope)) return false;
		return true;
	};
	for (int i = 0; i < 4; i++)
	{
		std::string prog = Gen(c, fn, val, 3);
		hist += prog + "\n";
		c.Case("session:\n" + hist);
		bool failed = false;
		try { Lisp::Eval(prog, scope, "main", false, std::make_shared<TextWriter>(true)); }
		catch (LispExceptionBase &) { failed = true; }
		catch (std::exception & e) { c.Fail(std::string("Eval throws std::exception: ") + e.what()); }
		c.Check(!scope->NeedsLValue, "NeedsLValue left set after an evaluation");
		c.Check(!scope->IsInEval, "IsInEval left set after an evaluation");
		c.Check(scope->Next.get() == 0, "a scope was left on the scope chain");
		c.Case("session:\n" + hist + "(probe)");
		// the next evaluation works as in a fresh session: only names are taken from the old one
		try
		{
			auto r = Lisp::Eval("(do (def probe-x (list 1 2)) (setf (first probe-x) 5) (def probe-f (lambda (probe-p) (do (return (first probe-p)) (nop)))) (probe-f probe-x))", scope, "main", false, std::make_shared<TextWriter>(true));
			if (kept()) c.Check(r.get() != 0 && r->IsInt() && r->ToInt() == 5, "probe yields " + (r.get() ? r->ToString() : std::string("nothing")));
			c.Value();
		}
		catch (LispExceptionBase & e)
		{
			if (kept()) c.Fail("probe fails in a session after an evaluation: " + e.Message);
		}
		catch (std::exception & e) { c.Fail(std::string("Eval throws std::exception: ") + e.what()); }
		(void)failed;
	}
}

void Run(Ctx & c)
{
	std::vector<std::string> fn;
	for (auto & k : LispEnvironment::CreateDefaultScope()->GetKeys()) if (!Skip(k)) fn.push_back(k);
	c.Check(fn.size() > 50, "too few builtins");
	auto val = Values(true);
	auto small = Values(false);
	uint64_t n = 0;
	if (c.round == 0) for (auto & f : fn)
	{
		if (c.Mine(n++)) One(c, "(" + f + ")");
		for (auto & a : val)
		{
			if (c.Mine(n++)) One(c, "(" + f + " " + a + ")");
			if (f != "while" && c.Mine(n++)) One(c, "(do (defn inside (x y) (do (" + f + " " + a + ") (list x y (args)))) (inside 1 " + a + "))");
			if (f == "while" && !(a == "#f" || a == "0" || a.find('"') == 0 || a.find("'") == 0)) continue;
			for (auto & b : val) if (c.Mine(n++)) One(c, "(" + f + " " + a + " " + b + ")");
		}
	}
	if (c.round == 0) for (auto p : {
		"(do (def q (quote `(1 ,(push 9 (nth 1 q)) 2 3))) (eval q))",
		"(do (def q (quote `(1 ,(pop (nth 1 q) 0) 2 3))) (eval q))",
		"(do (def q (quote `(1 (2 ,@(do (push 9 (nth 1 (nth 1 q))) (list 7 8)) 3)))) (eval q))",
		"(do (def q (quote (list (push 1 q) (pop q) (push 2 q)))) (eval q))",
		"(do (def q (list 1 2 3)) (map (lambda (x) (push x q)) q))",
		"(do (def q (list 1 2 3)) (reduce (lambda (x y) (pop q)) q 0))" })
		if (c.Mine(n++)) One(c, p);
	if (c.thorough && c.round == 0)
	{
		for (auto & f : fn) for (auto & a : small) for (auto & b : small) for (auto & d : small) if (c.Mine(n++)) One(c, "(" + f + " " + a + " " + b + " " + d + ")");
	}
	c.Random();
	while (c.Time())
	{
		int k = (int)c.rng.Below(10);
		if (k == 0) Session(c, fn, val);
		else if (k < 3)
		{
			std::string s = "(" + c.rng.Pick(fn);
			int m = (int)(3 + c.rng.Below(5));
			for (int i = 0; i < m; i++) s += " " + c.rng.Pick(val);
			One(c, s + ")");
		}
		else if (k == 4) One(c, SelfProgram(c));
		else if (k == 3)
		{
			// cut programs and stray characters
			std::string s = Gen(c, fn, val, 3);
			if (s.size() > 0)
			{
				size_t p = c.rng.Below(s.size());
				if (c.rng.Chance(50)) s = s.substr(0, p);
				else s[p] = "()'`,@;\"\\# \n\0\xff"[c.rng.Below(14)];
			}
			One(c, s);
		}
		else One(c, Gen(c, fn, val, (int)(2 + c.rng.Below(4))));
	}
}
