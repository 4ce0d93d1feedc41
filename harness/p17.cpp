// P17: histories of creating, copying, changing and destroying values of every kind; contents compared with a model, payloads are counted.
#include "common.h"
#include "Lisp.h"
#include "Scope.h"
#include "Environment.h"
#include "Exception.h"
#include "Token.h"
#include <map>
#include <memory>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace CppLisp;
typedef std::shared_ptr<object> Obj;
typedef IEnumerable<Obj> List;
typedef Dictionary<LispVariant, Obj> Dict;
static long g_live = 0;	// payloads inside of function objects
struct Payload { int id; explicit Payload(int i) : id(i) { g_live++; } Payload(const Payload & o) : id(o.id) { g_live++; } ~Payload() { g_live--; } };
static int g_set;

// model of a value
struct MV; typedef std::shared_ptr<MV> M;
struct MV
{
	std::string kind; std::string text; int i = 0; double d = 0; LispType vt = LispType::_Undefined; LispUnQuoteModus uq = LispUnQuoteModus::_None;
	std::vector<std::pair<M, Obj>> items; std::map<std::string, std::pair<M, Obj>> dict; M inner; Obj innerObj; bool token = false;
};
static std::string Text(double d) { char b[64]; snprintf(b, sizeof(b), "%.17g", d); return b; }
static std::string Des(const object & o, int depth);
static std::string Des(const LispVariant & v, int depth) { std::string r = "V" + std::to_string((int)v.Type) + "," + std::to_string((int)v.IsUnQuoted) + (v.Token ? ",T" + v.Token->ToString() : "") + "["; return r + (v.Value ? Des(*v.Value, depth - 1) : "null") + "]"; }
static std::string Des(const object & o, int depth)
{
	if (depth < 0) return "...";
	if (o.IsBool()) return (bool)o ? "B1" : "B0";
	if (o.IsInt()) return "I" + std::to_string((int)o);
	if (o.IsDouble()) return "D" + Text((double)o);
	if (o.IsString()) return "S" + std::to_string(o.ToString().size()) + ":" + o.ToString();
	if (o.IsList()) { std::string r = "L("; for (auto & e : o.ToListRef()) r += (e ? Des(*e, depth - 1) : "null") + ";"; return r + ")"; }
	if (o.IsDictionary()) { std::string r = "H("; for (auto & e : o.ToDictionary()) r += Des(e.first, depth - 1) + "=" + (e.second ? Des(*e.second, depth - 1) : "null") + ";"; return r + ")"; }
	if (o.IsLispVariant()) return Des(o.ToLispVariantRef(), depth);
	if (o.IsLispFunctionWrapper())
	{
		auto & f = o.ToLispFunctionWrapper(); auto r = f.Function(std::vector<Obj>(), std::shared_ptr<LispScope>());
		return "F" + f.Signature + "|" + f.Documentation + "|" + f.ModuleName + (f.IsBuiltin() ? "b" : "-") + (f.IsSpecialForm() ? "s" : "-") + (f.IsEvalInExpand() ? "e" : "-") + std::to_string(r->IntValue());
	}
	if (o.IsLispScope()) { auto s = o.GetLispScopeRef(); std::string r = "C" + s->Name + "|" + s->ModuleName + (s->NeedsLValue ? "n" : "-") + (s->IsInReturn ? "r" : "-") + (s->IsInEval ? "e" : "-") + (s->CurrentToken ? s->CurrentToken->ToString() : "") + "("; for (auto & e : *s) r += e.first + "=" + (e.second ? Des(*e.second, depth - 1) : "null") + ";"; return r + ")"; }
	if (o.IsLispMacroRuntimeEvaluate() || o.IsLispMacroCompileTimeExpand())
	{
		std::shared_ptr<List> a, e; if (o.IsLispMacroRuntimeEvaluate()) { auto m = o.ToLispMacroRuntimeEvaluate(); a = m->FormalArguments; e = m->Expression; } else { auto m = o.ToLispMacroCompileTimeExpand(); a = m->FormalArguments; e = m->Expression; }
		return (o.IsLispMacroRuntimeEvaluate() ? "R" : "X") + Des(object(*a), depth - 1) + Des(object(*e), depth - 1);
	}
	if (o.IsLValue()) { g_set = 0; o.ToSetterAction()(Obj()); return "A" + std::to_string(g_set); }
	return "K" + std::to_string((int)o.GetType());
}

struct H
{
	Ctx & c; std::string log; std::vector<Obj> o; std::vector<std::string> m; std::vector<std::unique_ptr<LispVariant>> v; std::vector<std::string> vm; int serial = 0;
	explicit H(Ctx & x) : c(x) {}
	std::string Str() { std::string s; size_t n = c.rng.Below(40); for (size_t i = 0; i < n; i++) s += (char)(c.rng.Chance(10) ? c.rng.Below(256) : 'a' + c.rng.Below(26)); return s; }
	int Int() { return c.rng.Chance(80) ? (int)c.rng.Below(100) : (int)c.rng.Next(); }
	Obj Elem() { if (!o.empty() && c.rng.Chance(50)) { size_t i = c.rng.Below(o.size()); if (m[i].size() < 600) return o[i]; } return c.rng.Chance(50) ? std::make_shared<object>(Int()) : std::make_shared<object>(Str()); }
	List MakeList() { List l; size_t n = c.rng.Below(4); for (size_t i = 0; i < n; i++) l.push_back(Elem()); return l; }
	LispFunctionWrapper Fn() { LispFunctionWrapper f; Payload p(Int()); f.Function = [p](const std::vector<Obj> &, std::shared_ptr<LispScope>) { return std::make_shared<LispVariant>(LispType::_Int, std::make_shared<object>(p.id)); }; f.Signature = Str(); f.Documentation = Str(); f.ModuleName = Str(); f.SetBuiltin(c.rng.Chance(50)); f.SetSpecialForm(c.rng.Chance(50)); f.SetEvalInExpand(c.rng.Chance(50)); return f; }
	LispVariant Var()
	{
		static const std::vector<LispType> ts{ LispType::_Undefined, LispType::_Nil, LispType::_Bool, LispType::_Int, LispType::_Double, LispType::_String, LispType::_List, LispType::_Function, LispType::_Symbol, LispType::_NativeObject, LispType::_Error };
		LispType t = c.rng.Pick(ts); auto uq = (LispUnQuoteModus)c.rng.Below(3);
		if (c.rng.Chance(15)) { auto tok = std::make_shared<LispToken>(c.rng.Pick(std::vector<std::string>{ "sym", "12", "1.5", "\"text\"", "#t", "nil" }), (size_t)c.rng.Below(100), (size_t)c.rng.Below(100), (size_t)c.rng.Below(50)); return LispVariant(tok, uq); }
		switch (t)
		{
			case LispType::_Bool: return LispVariant(t, std::make_shared<object>(c.rng.Chance(50)), uq);
			case LispType::_Int: return LispVariant(t, std::make_shared<object>(Int()), uq);
			case LispType::_Double: return LispVariant(t, std::make_shared<object>(Int() / 8.0), uq);
			case LispType::_String: case LispType::_Symbol: case LispType::_Error: return LispVariant(t, std::make_shared<object>(Str()), uq);
			case LispType::_List: return LispVariant(t, std::make_shared<object>(MakeList()), uq);
			case LispType::_Function: return LispVariant(t, std::make_shared<object>(Fn()), uq);
			case LispType::_NativeObject: return LispVariant(t, Elem(), uq);
			default: return LispVariant(t, Obj(), uq);
		}
	}
	Obj Make()
	{
		switch (c.rng.Below(14))
		{
			case 0: return std::make_shared<object>();
			case 1: return std::make_shared<object>(c.rng.Chance(50));
			case 2: return std::make_shared<object>(Int());
			case 3: return std::make_shared<object>(Int() / 16.0);
			case 4: return std::make_shared<object>(Str());
			case 5: return std::make_shared<object>("some text");
			case 6: return std::make_shared<object>(MakeList());
			case 7: return std::make_shared<object>(Fn());
			case 8: return std::make_shared<object>(Var());
			case 9: { auto a = std::make_shared<List>(MakeList()), e = std::make_shared<List>(MakeList()); return c.rng.Chance(50) ? std::make_shared<object>(LispMacroRuntimeEvaluate(a, e)) : std::make_shared<object>(LispMacroCompileTimeExpand(a, e)); }
			case 10: { auto s = std::make_shared<LispScope>(Str()); s->ModuleName = Str(); s->IsInReturn = c.rng.Chance(50); s->NeedsLValue = c.rng.Chance(50); size_t n = c.rng.Below(3); for (size_t i = 0; i < n; i++) (*s)["v" + std::to_string(i)] = Elem(); return c.rng.Chance(50) ? std::make_shared<object>(*s) : std::make_shared<object>(s); }
			case 11: { Payload p(Int()); return std::make_shared<object>(std::function<void(Obj)>([p](Obj) { g_set = p.id; })); }
			default: { Dict d; size_t n = c.rng.Below(4); for (size_t i = 0; i < n; i++) d[Key()] = Elem(); return std::make_shared<object>(d); }
		}
	}
	LispVariant Key() { switch (c.rng.Below(3)) { case 0: return LispVariant(LispType::_Int, std::make_shared<object>((int)c.rng.Below(5))); case 1: return LispVariant(LispType::_Bool, std::make_shared<object>(c.rng.Chance(50))); default: return LispVariant(LispType::_String, std::make_shared<object>(std::string(1, (char)('a' + c.rng.Below(4))))); } }
	bool Contains(const object & x, const object * y, int depth)
	{
		if (&x == y) return true;
		if (depth <= 0) return true;
		if (x.IsList()) for (auto & e : x.ToListRef()) if (e && Contains(*e, y, depth - 1)) return true;
		if (x.IsDictionary()) for (auto & e : x.ToDictionary()) if (e.second && Contains(*e.second, y, depth - 1)) return true;
		if (x.IsLispVariant() && x.ToLispVariantRef().Value && Contains(*x.ToLispVariantRef().Value, y, depth - 1)) return true;
		if (x.IsLispScope()) for (auto & e : *x.GetLispScopeRef()) if (e.second && Contains(*e.second, y, depth - 1)) return true;
		if (x.IsLispMacroRuntimeEvaluate() || x.IsLispMacroCompileTimeExpand()) return true;
		return false;
	}
	std::string D(const object & x) { return Des(x, 12); }
	// descriptions of all values that may contain x are taken anew, all others have to be as before
	void Verify(const char * what, const object * changed)
	{
		for (size_t i = 0; i < o.size(); i++)
		{
			std::string d = D(*o[i]);
			if (d == m[i]) continue;
			if (changed && Contains(*o[i], changed, 12)) { m[i] = d; continue; }
			c.Fail(std::string(what) + ": value " + std::to_string(i) + " is " + d.substr(0, 600) + " was " + m[i].substr(0, 600));
		}
		for (size_t i = 0; i < v.size(); i++)
		{
			std::string d = Des(*v[i], 12);
			if (d == vm[i]) continue;
			if (changed && v[i]->Value && Contains(*v[i]->Value, changed, 12)) { vm[i] = d; continue; }
			c.Fail(std::string(what) + ": variant " + std::to_string(i) + " is " + d.substr(0, 600) + " was " + vm[i].substr(0, 600));
		}
	}
	void Note(const std::string & s) { log += s + "\n"; c.Case(log); }
	void Copy(size_t i)
	{
		Note("copy value " + std::to_string(i) + " of type " + o[i]->GetTypeName());
		Obj n = std::make_shared<object>(*o[i]);
		if (n->GetType() != o[i]->GetType()) c.Fail("the copy has another type: " + n->GetTypeName() + " instead of " + o[i]->GetTypeName());
		std::string d = D(*n); if (d != m[i]) c.Fail("the copy is " + d.substr(0, 600) + " should be " + m[i].substr(0, 600));
		o.push_back(n); m.push_back(d);
	}
	void Step()
	{
		switch (c.rng.Below(14))
		{
			case 0: case 1: { Note("create"); Obj n = Make(); o.push_back(n); m.push_back(D(*n)); if (m.back().size() > 5000) { o.pop_back(); m.pop_back(); } else Note("  value " + std::to_string(o.size() - 1) + " = " + m.back()); break; }
			case 2: case 3: case 4: if (!o.empty()) Copy(c.rng.Below(o.size())); break;
			case 5: if (!o.empty()) { size_t i = c.rng.Below(o.size()); Note("destroy value " + std::to_string(i)); o.erase(o.begin() + i); m.erase(m.begin() + i); } break;
			case 6: case 7: if (!o.empty())
			{
				size_t i = c.rng.Below(o.size()); Obj x = o[i];
				if (x->IsList())
				{
					auto & l = x->ToEnumerableOfObjectNotConstRef(); Obj e = Elem(); if (Contains(*e, x.get(), 12)) break;
					size_t k = c.rng.Below(4); Note("change list " + std::to_string(i) + " by " + std::to_string(k)); std::string before = m[i];
					if (k == 0 || l.empty()) l.Add(e); else if (k == 1) l.RemoveAt(c.rng.Below(l.size())); else if (k == 2) l.Insert(c.rng.Below(l.size() + 1), e); else l[c.rng.Below(l.size())] = e;
				}
				else if (x->IsDictionary())
				{
					auto & d = x->ToDictionary(); Obj e = Elem(); if (Contains(*e, x.get(), 12)) break;
					Note("change dictionary " + std::to_string(i)); if (c.rng.Chance(60)) d[Key()] = e; else d.Remove(Key());
				}
				else if (x->IsLispScope()) { Obj e = Elem(); if (Contains(*e, x.get(), 12)) break; Note("change scope " + std::to_string(i)); auto s = x->GetLispScopeRef(); if (c.rng.Chance(50)) (*s)["v1"] = e; else s->Name = Str(); }
				else if (x->IsLispVariant()) { Obj e = Elem(); if (Contains(*e, x.get(), 12)) break; Note("change variant " + std::to_string(i)); auto & w = x->ToLispVariantNotConstRef(); if (c.rng.Chance(50)) w.IsUnQuoted = (LispUnQuoteModus)c.rng.Below(3); else { w.Type = LispType::_NativeObject; w.Value = e; } }
				else break;
				Verify("changing value", x.get());
				break;
			}
			case 8: { Note("create variant"); v.emplace_back(new LispVariant(Var())); vm.push_back(Des(*v.back(), 12)); break; }
			case 9: case 10: if (!v.empty())
			{
				size_t i = c.rng.Below(v.size()); Note("copy variant " + std::to_string(i)); v.emplace_back(new LispVariant(*v[i])); vm.push_back(Des(*v.back(), 12));
				if (vm.back() != vm[i]) c.Fail("the copy is " + vm.back().substr(0, 600) + " should be " + vm[i].substr(0, 600));
				if (c.rng.Chance(50)) { auto & w = *v.back(); Note("  change the copy"); if (c.rng.Chance(50)) { w.Type = LispType::_Int; w.Value = std::make_shared<object>(Int()); } else w.IsUnQuoted = (LispUnQuoteModus)c.rng.Below(3); vm.back() = Des(w, 12); Verify("changing a copy", 0); }
				break;
			}
			case 11: if (!v.empty()) { size_t i = c.rng.Below(v.size()); Note("destroy variant " + std::to_string(i)); v.erase(v.begin() + i); vm.erase(vm.begin() + i); } break;
			case 12: if (!v.empty()) { size_t i = c.rng.Below(v.size()); Note("value of variant " + std::to_string(i)); Obj n = std::make_shared<object>(*v[i]); std::string d = D(*n); if (d != Des(*v[i], 12)) c.Fail("the value is " + d + " should be " + vm[i]); o.push_back(n); m.push_back(d); } break;
			default: if (!o.empty()) { size_t i = c.rng.Below(o.size()); Note("copy, keep the copy, destroy the original " + std::to_string(i)); Obj n = std::make_shared<object>(*o[i]); std::string d = m[i]; o.erase(o.begin() + i); m.erase(m.begin() + i); if (D(*n) != d) c.Fail("the copy is " + D(*n).substr(0, 600) + " should be " + d.substr(0, 600)); o.push_back(n); m.push_back(d); }
		}
		while (o.size() > 14) { o.erase(o.begin()); m.erase(m.begin()); }
		while (v.size() > 8) { v.erase(v.begin()); vm.erase(vm.begin()); }
		Verify("history", 0);
	}
};
static void History(Ctx & c) { H h(c); size_t n = 5 + c.rng.Below(50); for (size_t i = 0; i < n; i++) h.Step(); c.Value(); h.log = "all values destroyed"; }
void Run(Ctx & c)
{
	{ Rng keep = c.rng; for (int i = 0; i < 3; i++) History(c); c.rng = keep; }
	while (c.Time())
	{
		for (int i = 0; i < 20; i++)
		{
			Rng r = c.rng; History(c); if (g_live != 0) c.Fail("payload of a function object not released (" + std::to_string(g_live) + ")");
			if (i % 5 == 0)
			{
				// the same history again: it has to leave the same amount of memory
				size_t a[4]; for (int k = 0; k < 4; k++) { c.rng = r; History(c); a[k] = __sanitizer_get_current_allocated_bytes(); }
				if (a[1] > a[0] && a[2] - a[1] == a[1] - a[0] && a[3] - a[2] == a[1] - a[0]) c.Fail("a history does not release all memory: " + std::to_string(a[1] - a[0]) + " bytes each time");
			}
		}
	}
}
