// P10: random programs of functions, recursive functions, closures and calls with too few and too many arguments, over a session with errors; compared with a reference interpreter.
#include "interp.h"
#include "frames.h"
void Run(Ctx & c)
{
	if (c.round == 0 && c.Mine(0)) Frames(c);
	while (c.Time())
	{
		RInterp ri; ScopeP sc = CppLisp::LispEnvironment::CreateDefaultScope();
		int parts = 2 + (int)c.rng.Below(8);
		for (int i = 0; i < parts; i++)
		{
			PGen g(c, c.rng.Chance(50)); std::vector<RV> p = g.Program(i ? c.rng.Below(3) : 3, 2 + (int)c.rng.Below(3), i == 0);
			size_t n = 1 + c.rng.Below(4);
			for (size_t k = 0; k < n; k++)
			{
				g.budget = 30; int d = 2 + (int)c.rng.Below(2);
				p.push_back(c.rng.Chance(40) ? g.DefRec(d) : c.rng.Chance(50) ? g.DefFn(d) : g.DefHof(d));
				std::string f = c.rng.Pick(g.fns);
				if (c.rng.Chance(60)) { std::vector<RV> a; size_t m = c.rng.Below(6); for (size_t j = 0; j < m; j++) a.push_back(c.rng.Chance(60) ? g.Lit() : c.rng.Chance(70) ? g.Int(1) : g.Quoted(1)); p.push_back(Call("println", { Call(f, a), Sy("a"), Sy("b"), Sy("x") })); }
				if (c.rng.Chance(40)) { std::vector<RV> a; size_t m = c.rng.Below(6); for (size_t j = 0; j < m; j++) a.push_back(g.Lit()); p.push_back(Call("println", { Call("apply", { g.Lambda(2, (int)c.rng.Below(4)), Call("quote", { Ls(a) }) }) })); }
				if (c.rng.Chance(40)) p.push_back(Call("defn", { Sy(f), g.Formal((int)c.rng.Below(4)), Call("list", { Call("args"), Call("argscount"), Sy("_additionalArgs"), Sy("a"), Sy("x") }) })), p.push_back(Call("println", { Call(f, { g.Lit(), g.Lit(), g.Lit() }) }));
			}
			if (!Compare(c, p, ProgText(p), ri, sc)) break;
		}
	}
}
