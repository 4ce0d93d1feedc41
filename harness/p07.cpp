// P07: histories of list operations on variables (lists are shared by reference), every result and all variables compared with sequences.
#include "ref.h"
typedef std::vector<RV> VV;
static bool Reach(const RV & v, const RL & l) { if (v.k != 'L') return false; if (v.l == l) return true; for (auto & e : *v.l) if (Reach(e, l)) return true; return false; }
static size_t Size(const RV & v) { if (v.k != 'L') return 1; size_t n = 1; for (auto & e : *v.l) n += Size(e); return n; }
static VV Elems(const RV & v) { if (v.k == 'L') return *v.l; if (v.k == 'N') return VV(); throw RErr{ "list" }; }
struct Sess
{
	Ctx & c; ScopeP sc; std::vector<RV> var; std::string hist; int maps = 0;
	explicit Sess(Ctx & x) : c(x) {}
	const char * names = "abcd";
	RV GenList() { VV x; size_t n = c.rng.Below(6); for (size_t i = 0; i < n; i++) x.push_back(c.rng.Chance(15) ? RV::L({ GenAtom(c), RV::I((int)i) }) : c.rng.Chance(50) ? RV::I((int)c.rng.Below(20)) : GenAtom(c)); return RV::L(x); }
	// an argument: source and value (a variable is a reference)
	RV Arg(std::string & src, bool list)
	{
		if (c.rng.Chance(60)) { size_t i = c.rng.Below(4); src = std::string(1, names[i]); return var[i]; }
		RV v = list && c.rng.Chance(85) ? GenList() : GenVal(c, 2);
		if (v.k == 'F' && !std::isfinite(v.d)) v = RV::I(2);
		src = Src(v); return v;
	}
	int Index(const RV & l) { size_t n = l.k == 'L' ? l.l->size() : 3; if (c.rng.Chance(85)) return (int)c.rng.Below(n + 1); return c.rng.Pick(std::vector<int>{ -1, -2, (int)n + 1, 1000000, INT32_MAX, INT32_MIN }); }
	void Step(const std::string & src, const std::string & should)
	{
		hist += src + "\n";
		c.Case(hist);
		std::string is;
		try { auto r = CppLisp::Lisp::Eval(src, sc, "main", false, std::make_shared<CppLisp::TextWriter>(true)); is = r.get() ? Show(FromVariant(*r)) : "<nothing>"; c.Value(); }
		catch (CppLisp::LispExceptionBase &) { is = ErrText(); }
		catch (std::exception & e) { c.Fail(std::string("Eval throws std::exception: ") + e.what()); }
		if (is != should) c.Fail("last step: result is " + is + " should be " + should);
		for (int i = 0; i < 4; i++)
		{
			auto it = sc->find(std::string(1, names[i]));
			std::string v = it == sc->end() ? "<undefined>" : Show(FromObject(it->second));
			if (v != Show(var[i])) c.Fail(std::string("after the last step variable ") + names[i] + " is " + v + " should be " + Show(var[i]));
		}
	}
	void Start()
	{
		var.assign(4, RV()); hist.clear();
		for (int i = 0; i < 4; i++) { var[i] = c.rng.Chance(85) ? GenList() : c.rng.Chance(50) ? RV::Nil() : RV::I(4); (*sc)[std::string(1, names[i])] = std::make_shared<CppLisp::object>(CppLisp::LispVariant(CppLisp::LispType::_Nil)); std::string s = std::string("(def ") + names[i] + " " + Src(var[i]) + ")"; for (int k = i + 1; k < 4; k++) var[k] = RV::Nil(); Step(s, Show(var[i])); }
	}
	void Do(const std::string & pre, const std::string & expr, std::function<RV()> f, int target)
	{
		RV r; std::string should;
		try { r = f(); should = Show(r); if (target >= 0) var[target] = r; }
		catch (RErr &) { should = ErrText(); }
		Step(target >= 0 ? std::string("(def ") + names[target] + " " + expr + ")" : pre + expr, should);
	}
	void Random()
	{
		std::string x, y, z; int target = c.rng.Chance(40) ? (int)c.rng.Below(4) : -1;
		for (int i = 0; i < 4; i++) if (Size(var[i]) > 60) { var[i] = RV::I(0); Step(std::string("(def ") + names[i] + " 0)", "0"); }
		switch (c.rng.Below(19))
		{
			case 0: { RV l = Arg(x, true); if (l.k == 'S') return; Do("", "(len " + x + ")", [&] { return RV::I((int)Elems(l).size()); }, target); return; }
			case 1: { RV l = Arg(x, true); if (l.k == 'S') return; Do("", "(" + std::string(c.rng.Chance(50) ? "first " : "car ") + x + ")", [&] { VV e = Elems(l); if (e.empty()) throw RErr{ "empty" }; return e.front(); }, target); return; }
			case 2: { RV l = Arg(x, true); if (l.k == 'S') return; Do("", "(last " + x + ")", [&] { VV e = Elems(l); if (e.empty()) throw RErr{ "empty" }; return e.back(); }, target); return; }
			case 3: { RV l = Arg(x, true); if (l.k == 'S') return; Do("", "(" + std::string(c.rng.Chance(50) ? "rest " : "cdr ") + x + ")", [&] { VV e = Elems(l); if (!e.empty()) e.erase(e.begin()); return RV::L(e); }, target); return; }
			case 4: case 5: { RV l = Arg(x, true); if (l.k == 'S') return; int i = Index(l); Do("", "(nth " + std::to_string(i) + " " + x + ")", [&] { VV e = Elems(l); if (i < 0 || (size_t)i >= e.size()) throw RErr{ "index" }; return e[i]; }, target); return; }
			case 6: { RV a = Arg(x, false), l = Arg(y, true); Do("", "(cons " + x + " " + y + ")", [&] { VV e{ a }; if (l.k == 'L' || l.k == 'N') { VV q = Elems(l); e.insert(e.end(), q.begin(), q.end()); } else e.push_back(l); return RV::L(e); }, target); return; }
			case 7: { size_t n = c.rng.Below(4); std::string s = "(append"; VV e; bool err = false; for (size_t i = 0; i < n; i++) { RV l = Arg(x, true); s += " " + x; if (l.k != 'L' && l.k != 'N') err = true; else { VV q = Elems(l); e.insert(e.end(), q.begin(), q.end()); } } Do("", s + ")", [&]() -> RV { if (err) throw RErr{ "list" }; return RV::L(e); }, target); return; }
			case 8: { RV l = Arg(x, true); if (l.k == 'S') return; Do("", "(reverse " + x + ")", [&] { VV e = Elems(l); return RV::L(VV(e.rbegin(), e.rend())); }, target); return; }
			case 9: case 10:
			{
				RV v = Arg(x, false), l = Arg(y, true); if (l.k == 'L' && Reach(v, l.l)) return;
				bool pos = c.rng.Chance(60); int i = pos ? Index(l) : 0;
				Do("", "(push " + x + " " + y + (pos ? " " + std::to_string(i) : "") + ")", [&] { Elems(l); if (l.k == 'N' || i < 0 || (size_t)i >= l.l->size()) return RV::Nil(); l.l->insert(l.l->begin() + i, v); return RV::L(*l.l); }, target); return;
			}
			case 11: case 12:
			{
				RV l = Arg(y, true); bool pos = c.rng.Chance(60); int i = pos ? Index(l) : 0;
				Do("", "(pop " + y + (pos ? " " + std::to_string(i) : "") + ")", [&] { Elems(l); if (l.k == 'N' || i < 0 || (size_t)i >= l.l->size()) return RV::Nil(); RV e = (*l.l)[i]; l.l->erase(l.l->begin() + i); return e; }, target); return;
			}
			case 13: case 14:
			{
				// element assignment
				size_t vi = c.rng.Below(4); RV l = var[vi]; RV v = Arg(x, false); if (l.k == 'L' && Reach(v, l.l)) return; if (l.k == 'S') return;
				int kind = (int)c.rng.Below(3); int i = Index(l); std::string n(1, names[vi]);
				std::string place = kind == 0 ? "(first " + n + ")" : kind == 1 ? "(last " + n + ")" : "(nth " + std::to_string(i) + " " + n + ")";
				if (kind == 0) i = 0;
				if (kind == 1) i = l.k == 'L' ? (int)l.l->size() - 1 : -1;
				Do("", "(setf " + place + " " + x + ")", [&] { Elems(l); if (l.k == 'N' || i < 0 || (size_t)i >= l.l->size()) throw RErr{ "index" }; (*l.l)[i] = v; return v; }, -1); return;
			}
			case 15:
			{
				RV l = Arg(x, true); int f = (int)c.rng.Below(4); static const char * fs[] = { "(lambda (e) (list e e))", "(lambda (e) e)", "(lambda (e) (do (list 1)))", "(lambda (e) (if (= 1 1) 7 e))" };
				Do("", std::string("(map ") + fs[f] + " " + x + ")", [&] { VV e = Elems(l); for (auto & q : e) q = f == 0 ? RV::L({ q, q }) : f == 1 ? q : f == 2 ? RV::L({ RV::I(1) }) : RV::I(7); return RV::L(e); }, target); return;
			}
			case 16:
			{
				RV l = Arg(x, true), s = Arg(y, false); int f = (int)c.rng.Below(3); static const char * fs[] = { "(lambda (e acc) (cons e acc))", "(lambda (e acc) (list acc e))", "(lambda (e acc) e)" };
				if (l.k == 'L' && l.l->size() > 6) return;
				Do("", std::string("(reduce ") + fs[f] + " " + x + " " + y + ")", [&]
				{
					RV a = s;
					for (auto & e : Elems(l))
					{
						if (f == 0) { VV q{ e }; if (a.k == 'L' || a.k == 'N') { VV w = Elems(a); q.insert(q.end(), w.begin(), w.end()); } else q.push_back(a); a = RV::L(q); }
						else if (f == 1) a = RV::L({ a, e });
						else a = e;
					}
					return a;
				}, target); return;
			}
			case 17: { size_t n = c.rng.Below(5); std::string s = "(list"; VV e; for (size_t i = 0; i < n; i++) { e.push_back(Arg(x, false)); s += " " + x; } Do("", s + ")", [&] { return RV::L(e); }, target); return; }
			default:
			{
				// number of arguments and types of the index
				static const std::vector<std::string> bad = { "(len)", "(len '(1) '(2))", "(first)", "(first '(1) 2)", "(rest)", "(rest '(1) 1)", "(last)", "(last '(1) 1)", "(nth 1)", "(nth)", "(nth 0 '(1) 2)", "(nth \"0\" '(1))", "(nth 0.0 '(1))", "(nth nil '(1))", "(nth '(1) 0)", "(reverse)", "(reverse '(1) '(2))", "(push 1)", "(push)", "(push 1 '(1) 0 0)", "(pop)", "(pop '(1) 0 0)", "(push 1 5)", "(pop 5)", "(pop \"abc\")", "(push 1 \"abc\")", "(map 1 '(1))", "(map (lambda (x) x) 5)", "(map (lambda (x) x))", "(map)", "(reduce (lambda (x y) x) '(1))", "(reduce 5 '(1) 1)", "(reduce (lambda (x y) x) 5 1)", "(append 1)", "(append '(1) 2)", "(append \"a\" '(1))", "(len 5)", "(len #t)", "(len 1.5)", "(first 5)", "(rest 5)", "(last 5)", "(nth 0 5)", "(reverse 5)", "(first '())", "(last '())", "(nth 0 '())", "(map (lambda (x) (nosuchfunction x)) '(1))" };
				Do("", c.rng.Pick(bad), []() -> RV { throw RErr{ "" }; }, -1); return;
			}
		}
	}
};
void Run(Ctx & c)
{
	ScopeP sc; int uses = 0;
	while (c.Time())
	{
		if (sc.get() == 0 || ++uses > 200) { sc = CppLisp::LispEnvironment::CreateDefaultScope(); uses = 0; }
		Sess s(c); s.sc = sc; 
		for (auto n : { "a", "b", "c", "d" }) (*sc)[n] = std::make_shared<CppLisp::object>(CppLisp::LispVariant(CppLisp::LispType::_Nil));
		s.Start();
		for (int i = 0; i < 25; i++) s.Random();
	}
}
