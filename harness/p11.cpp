// P11: random programs over the control forms, printed text, result and globals compared with a reference interpreter.
#include "interp.h"
void Run(Ctx & c)
{
	while (c.Time())
	{
		RInterp ri; ScopeP sc = CppLisp::LispEnvironment::CreateDefaultScope();
		int parts = 1 + (int)c.rng.Below(4);
		for (int i = 0; i < parts; i++)
		{
			PGen g(c, c.rng.Chance(50)); auto p = g.Program(3 + c.rng.Below(5), 2 + (int)c.rng.Below(4));
			if (!Compare(c, p, ProgText(p), ri, sc)) break;
		}
	}
}
