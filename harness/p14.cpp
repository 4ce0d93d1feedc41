// P14: histories of dictionary operations compared with a finite map; after every step all queries have to agree.
#include "ref.h"
struct Ent { RV key, val; };
typedef std::map<std::string, Ent> M;
static std::string Canon(const RV & k) { if (k.num()) { double d = RDbl(k); if (d == 0) d = 0.0; return "n" + (std::isnan(d) ? std::string("nan") : FmtD(d == 0 ? 0.0 : d)); } return std::string(1, k.k) + Show(k); }
static bool MixedText(const RV & a, const RV & b) { if (a.k == 'L' && b.k == 'L') { for (size_t i = 0; i < a.l->size() && i < b.l->size(); i++) if (MixedText((*a.l)[i], (*b.l)[i])) return true; return false; } return (a.k == 'S') != (b.k == 'S'); }
static RV GenKey(Ctx & c)
{
	switch (c.rng.Below(14))
	{
		case 0: case 1: case 2: return RV::I((int)c.rng.Below(6) - 2);
		case 3: return RV::I(GenInt(c));
		case 4: return RV::F(((int)c.rng.Below(9) - 4) / 2.0);
		case 5: return RV::F(c.rng.Pick(std::vector<double>{ 1e-9, -1e-9, 1.0 + 1e-9, 2147483647.0, 1e300, -0.0, 0.1, 0.30000000000000004, 0.3, 16777217.0, INFINITY, -INFINITY, NAN }));
		case 6: case 7: return RV::S(c.rng.Pick(std::vector<std::string>{ "", "a", "b", "A", "1", "0", "1.000000", "nil", "#t", "true", "aa", "ab", "\xff", "(1 2)", "1.0" }));
		case 8: return RV::S(GenStr(c));
		case 9: return RV::Y(c.rng.Pick(std::vector<std::string>{ "a", "b", "A", "aa" }));
		case 10: return RV::B(c.rng.Chance(50));
		case 11: return RV::Nil();
		default: { std::vector<RV> l; size_t n = c.rng.Below(4); for (size_t i = 0; i < n; i++) l.push_back(RV::I((int)c.rng.Below(3))); return RV::L(l); }
	}
}
struct Sess
{
	Ctx & c; ScopeP sc; std::string hist; std::shared_ptr<M> d[3];	// d0, d1 and d2
	explicit Sess(Ctx & x) : c(x) {}
	std::string Run(const std::string & src)
	{
		c.Case(hist + src + "\n");
		try { auto r = CppLisp::Lisp::Eval(src, sc, "main", false, std::make_shared<CppLisp::TextWriter>(true)); c.Value(); return r.get() ? Show(FromVariant(*r)) : "<nothing>"; }
		catch (CppLisp::LispExceptionBase & e) { return ErrText(); }
		catch (std::exception & e) { c.Fail(std::string("Eval throws std::exception: ") + e.what()); }
	}
	void Step(const std::string & src, const std::string & should) { std::string is = Run(src); hist += src + "\n"; if (is != should) c.Fail("last step: result is " + is + " should be " + should); }
	void Query(int i, const RV & k, const RV & v)
	{
		std::string n = "d" + std::to_string(i); M & m = *d[i];
		auto ask = [&](const std::string & q, const std::string & should) { std::string is = Run(q); if (is != should) c.Fail("query " + q + " yields " + is + " should be " + should); };
		ask("(len " + n + ")", std::to_string(m.size()));
		auto it = m.find(Canon(k));
		ask("(dict-get " + n + " " + Src(k) + ")", it == m.end() ? "<undefined>" : Show(it->second.val));
		ask("(dict-contains-key " + n + " " + Src(k) + ")", it == m.end() ? "#f" : "#t");
		bool has = false, mixed = false; for (auto & e : m) { if (MixedText(e.second.val, v)) mixed = true; else if (REqual(e.second.val, v, true)) has = true; }
		if (!mixed || has) ask("(dict-contains-value " + n + " " + Src(v) + ")", has ? "#t" : "#f");
		// the list of the keys
		c.Case(hist + "(dict-keys " + n + ")\n");
		std::vector<std::string> is, should;
		try { auto r = CppLisp::Lisp::Eval("(dict-keys " + n + ")", sc, "main", false, std::make_shared<CppLisp::TextWriter>(true)); RV l = FromVariant(*r); if (l.k != 'L') c.Fail("dict-keys yields no list"); for (auto & e : *l.l) is.push_back(Canon(e)); }
		catch (CppLisp::LispExceptionBase & e) { c.Fail("dict-keys fails: " + e.Message); }
		for (auto & e : m) should.push_back(e.first);
		std::sort(is.begin(), is.end()); std::sort(should.begin(), should.end());
		if (is != should) { std::string a, b; for (auto & x : is) a += x + " "; for (auto & x : should) b += x + " "; c.Fail("dict-keys yields " + a + "should be " + b); }
	}
	void Go(int steps)
	{
		hist.clear();
		for (int i = 0; i < 2; i++) { d[i] = std::make_shared<M>(); Run("(def d" + std::to_string(i) + " (make-dict))"); hist += "(def d" + std::to_string(i) + " (make-dict))\n"; }
		d[2] = d[0]; Run("(def d2 d0)"); hist += "(def d2 d0)\n";
		for (int s = 0; s < steps; s++)
		{
			int i = (int)c.rng.Below(3); std::string n = "d" + std::to_string(i); RV k = GenKey(c), v = GenVal(c, 2); if (v.k == 'F' && std::isnan(v.d)) v = RV::Nil();
			if (!d[i]->empty() && c.rng.Chance(35)) { auto it = d[i]->begin(); std::advance(it, c.rng.Below(d[i]->size())); k = it->second.key; if (c.rng.Chance(20) && k.k == 'I') k = RV::F(k.i); }
			switch (c.rng.Below(12))
			{
				case 0: case 1: case 2: case 3: case 4: case 5:
				{
					auto it = d[i]->find(Canon(k)); if (it == d[i]->end()) (*d[i])[Canon(k)] = { k, v }; else it->second.val = v;
					Step("(dict-set " + n + " " + Src(k) + " " + Src(v) + ")", Show(v)); break;
				}
				case 6: case 7: { bool was = d[i]->erase(Canon(k)) > 0; Step("(dict-remove " + n + " " + Src(k) + ")", was ? "#t" : "#f"); break; }
				case 8: if (c.rng.Chance(25)) { d[i]->clear(); Step("(dict-clear " + n + ")", "<undefined>"); } break;
				case 9: if (c.rng.Chance(30)) { int j = (int)c.rng.Below(3); d[j] = d[i]; Run("(def d" + std::to_string(j) + " " + n + ")"); hist += "(def d" + std::to_string(j) + " " + n + ")\n"; } break;
				case 10: if (c.rng.Chance(30)) { int j = (int)c.rng.Below(3); d[j] = std::make_shared<M>(); Run("(def d" + std::to_string(j) + " (make-dict))"); hist += "(def d" + std::to_string(j) + " (make-dict))\n"; } break;
				default: Step(c.rng.Pick(std::vector<std::string>{ "(make-dict 1)", "(dict-set d0 1)", "(dict-set)", "(dict-get d0)", "(dict-get 5 1)", "(dict-get '(1) 1)", "(dict-set nil 1 2)", "(dict-remove d0)", "(dict-remove \"a\" 1)", "(dict-keys)", "(dict-keys 1)", "(dict-clear)", "(dict-clear '())", "(dict-contains-key d0)", "(dict-contains-key 1 2)", "(dict-contains-value d0)", "(dict-contains-value car 2)", "(dict-get d0 1 2)", "(dict-set d0 1 2 3)", "(dict-keys (list d0))" }), ErrText());
			}
			int q = (int)c.rng.Below(3);
			RV qv = v; if (!d[q]->empty() && c.rng.Chance(50)) { auto it = d[q]->begin(); std::advance(it, c.rng.Below(d[q]->size())); qv = it->second.val; }
			if (qv.k == 'F' && !std::isfinite(qv.d)) qv = RV::I(1);
			Query(q, c.rng.Chance(60) ? k : GenKey(c), qv);
		}
	}
};
void Run(Ctx & c)
{
	ScopeP sc; int uses = 0;
	while (c.Time())
	{
		if (sc.get() == 0 || ++uses > 100) { sc = CppLisp::LispEnvironment::CreateDefaultScope(); uses = 0; }
		Sess s(c); s.sc = sc; s.Go(5 + (int)c.rng.Below(40));
	}
}
