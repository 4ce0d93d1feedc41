// P09: random programs with nested functions, closures, shadowed names, global definitions and modules, compared with a reference interpreter.
#include "interp.h"
#include <fstream>
void Run(Ctx & c)
{
	int serial = 0;
	while (c.Time())
	{
		RInterp ri; ScopeP sc = CppLisp::LispEnvironment::CreateDefaultScope();
		bool mods = c.rng.Chance(50); std::string files;
		if (mods)
			for (int i = 0; i < 2; i++)
			{
				// names known only through a module, and names the program has too
				std::string fn = "m" + std::to_string(c.id) + "_" + std::to_string(i) + ".fuel"; (void)serial;
				PGen g(c, false); std::vector<RV> p;
				p.push_back(Call("def", { Sy("v" + std::to_string(i)), RV::I(50 + i) })); p.push_back(Call("def", { Sy("v2"), RV::I(60 + i) }));
				if (c.rng.Chance(50)) p.push_back(Call("def", { Sy("a"), RV::I(70 + i) }));
				g.ints.push_back("v0"); g.ints.push_back("v1"); g.ints.push_back("v2"); size_t n = 1 + c.rng.Below(4);
				for (size_t k = 0; k < n; k++) { g.budget = 25; std::vector<std::string> own = g.fns; g.fns = { "f", "g", "m" + std::to_string(i) }; p.push_back(c.rng.Chance(70) ? g.DefFn(3) : g.Stmt(3)); g.fns = own; }
				p.push_back(Call("defn", { Sy("inc" + std::to_string(i)), Ls({}), Call("setf", { Sy("v" + std::to_string(i)), Call("+", { Sy("v" + std::to_string(i)), RV::I(1) }) }) }));
				ri.files[fn] = p; std::ofstream(fn) << ProgText(p); files += "; file " + fn + "\n; " ; std::string t = ProgText(p); for (char ch : t) { files += ch; if (ch == '\n') files += "; "; } files += "\n";
			}
		int parts = 1 + (int)c.rng.Below(6);
		for (int i = 0; i < parts; i++)
		{
			PGen g(c, c.rng.Chance(30)); if (mods) { for (auto n : { "v0", "v1", "v2" }) g.ints.push_back(n); for (auto n : { "m0", "m1", "inc0", "inc1" }) g.fns.push_back(n); }
			auto p = g.Program(3 + c.rng.Below(5), 2 + (int)c.rng.Below(4), i == 0 || c.rng.Chance(20));
			if (mods) for (auto & f : ri.files) if (c.rng.Chance(i == 0 ? 90 : 10)) p.insert(p.begin() + c.rng.Below(p.size() + 1), Call("import", { RV::S(f.first) }));
			if (mods && i == 0) for (int k = 0; k < 3; k++) { p.push_back(Call("inc" + std::to_string(c.rng.Below(2)))); p.push_back(Call("println", { Sy("v0"), Sy("v1"), Sy("v2"), Sy("a") })); }
			if (c.rng.Chance(60))
			{
				// definitions of functions the program does not define again would hide those of the modules
				std::vector<RV> q; for (auto & st : p) if (!(st.l->size() > 1 && (*st.l)[0].s == "defn" && mods && i == 0 && c.rng.Chance(50))) q.push_back(st); p = q;
			}
			if (!Compare(c, p, files + ProgText(p), ri, sc)) break;
		}
	}
}
