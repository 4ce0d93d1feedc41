"""P10, P11 control forms: what is evaluated, in which order, and what becomes of the values"""
from sym import Contract

NEEDS = ('copies',)
TAGS = ('P07', 'P09', 'P10', 'P11', 'P12', 'P16')
FIELDS = {'LispScope_NeedsLValue': 'Map<int,bool>', 'trace': 'Map<int,Seq<Ev>>', 'locv': 'Map<int,bool>', 'LispScope_IsInReturn': 'Map<int,bool>', 'LispFunctionWrapper_Function': 'Map<int,int>', 'LispFunctionWrapper_m_bIsSpecialForm': 'Map<int,bool>'}
TEXT = '''
// ---- evaluations: ghost trace
// an evaluation of the expression a in scope s that gave the variant r (0: none) with value v; ret: the scope returns; x: left by an exception
// what is behind an object or variant: the data object, its type, and whether it is a value (not an unevaluated list); none of it ever changes
pub struct X { pub t: int, pub o: int, pub q: bool }
pub open spec fn hx(h: H, o: int) -> X { if h.object_m_Type[o] == 11 { X { t: h.LispVariant_Type[h.DataType_pVariant[o]], o: h.LispVariant_Value[h.DataType_pVariant[o]], q: true } } else { X { t: convt(h.object_m_Type[o]), o, q: false } } }
pub open spec fn hxs(h: H, s: Seq<int>) -> Seq<X> { Seq::new(s.len(), |i: int| hx(h, s[i])) }
pub open spec fn hv(h: H, r: int) -> X { if r == 0 { X { t: 1, o: 0, q: true } } else { X { t: h.LispVariant_Type[r], o: h.LispVariant_Value[r], q: true } } }
pub open spec fn asval(x: X) -> X { X { q: true, ..x } }
// c: a call of the function object a with the arguments xs; y: the value of the evaluation, m: the lists after it
// b0, m0: bindings and lists before, b: bindings after, al: first free address after
pub struct Ev { pub al: int, pub b0: Map<int,Map<Seq<int>,int>>, pub m0: Map<int,Seq<int>>, pub b: Map<int,Map<Seq<int>,int>>, pub c: bool, pub xs: Seq<X>, pub y: X, pub m: Map<int,Seq<int>>, pub a: int, pub s: int, pub r: int, pub v: Val, pub ret: bool, pub x: bool }
pub open spec fn tr(h: H) -> Seq<Ev> { h.trace[0] }
pub open spec fn rvalue(h: H, r: int) -> Val { if r == 0 { Val::N(0) } else { val(h, r) } }
// between h0 and h1 exactly n evaluations took place; ev: the j-th of them
pub open spec fn nev(h0: H, h1: H) -> int { tr(h1).len() - tr(h0).len() }
pub open spec fn ev(h0: H, h1: H, j: int) -> Ev { tr(h1)[tr(h0).len() + j] }
pub open spec fn pre(h0: H, h1: H) -> bool { tr(h0).len() <= tr(h1).len() && forall|j: int| #![trigger tr(h1)[j]] 0 <= j < tr(h0).len() ==> tr(h1)[j] == tr(h0)[j] }
pub open spec fn quiet(h0: H, h1: H) -> bool { tr(h1) == tr(h0) }
// what an evaluation cannot change: objects and variants (they are immutable, except for the containers they refer to)
pub open spec fn keepo(h0: H, h1: H) -> bool {
    (forall|a: int| #![trigger h1.object_m_Type[a]] 0 <= a < h0.alloc ==> h1.object_m_Type[a] == h0.object_m_Type[a])
    && (forall|a: int| #![trigger h1.DataType_b[a]] 0 <= a < h0.alloc ==> h1.DataType_b[a] == h0.DataType_b[a]) && (forall|a: int| #![trigger h1.DataType_i[a]] 0 <= a < h0.alloc ==> h1.DataType_i[a] == h0.DataType_i[a])
    && (forall|a: int| #![trigger h1.DataType_d[a]] 0 <= a < h0.alloc ==> h1.DataType_d[a] == h0.DataType_d[a]) && (forall|a: int| #![trigger h1.DataType_pString[a]] 0 <= a < h0.alloc ==> h1.DataType_pString[a] == h0.DataType_pString[a])
    && (forall|a: int| #![trigger h1.DataType_pVariant[a]] 0 <= a < h0.alloc ==> h1.DataType_pVariant[a] == h0.DataType_pVariant[a]) && (forall|a: int| #![trigger h1.DataType_pList[a]] 0 <= a < h0.alloc ==> h1.DataType_pList[a] == h0.DataType_pList[a])
    && (forall|a: int| #![trigger h1.DataType_pDictionary[a]] 0 <= a < h0.alloc ==> h1.DataType_pDictionary[a] == h0.DataType_pDictionary[a]) && (forall|a: int| #![trigger h1.DataType_pScope[a]] 0 <= a < h0.alloc ==> h1.DataType_pScope[a] == h0.DataType_pScope[a])
    && (forall|a: int| #![trigger h1.DataType_pFunctionWrapper[a]] 0 <= a < h0.alloc ==> h1.DataType_pFunctionWrapper[a] == h0.DataType_pFunctionWrapper[a]) && (forall|a: int| #![trigger h1.LispFunctionWrapper_Function[a]] 0 <= a < h0.alloc ==> h1.LispFunctionWrapper_Function[a] == h0.LispFunctionWrapper_Function[a])
    && (forall|a: int| #![trigger h1.LispFunctionWrapper_m_bIsSpecialForm[a]] 0 <= a < h0.alloc ==> h1.LispFunctionWrapper_m_bIsSpecialForm[a] == h0.LispFunctionWrapper_m_bIsSpecialForm[a])
    && (forall|a: int| #![trigger h1.strv[a]] 0 <= a < h0.alloc ==> h1.strv[a] == h0.strv[a])
    && (forall|a: int| #![trigger h1.LispVariant_Type[a]] 0 <= a < h0.alloc ==> h1.LispVariant_Type[a] == h0.LispVariant_Type[a]) && (forall|a: int| #![trigger h1.LispVariant_Value[a]] 0 <= a < h0.alloc ==> h1.LispVariant_Value[a] == h0.LispVariant_Value[a])
}
// ... and the validity of scopes, containers that are local variables of a caller
pub open spec fn keep(h0: H, h1: H) -> bool {
    keepo(h0, h1)
    && (forall|a: int| #![trigger h1.LispScope_GlobalScope[a]] 0 <= a < h0.alloc ==> h1.LispScope_GlobalScope[a] == h0.LispScope_GlobalScope[a]) && (forall|a: int| #![trigger h1.LispScope_NeedsLValue[a]] 0 <= a < h0.alloc ==> h1.LispScope_NeedsLValue[a] == h0.LispScope_NeedsLValue[a])
    && (forall|a: int| #![trigger h1.LispScope_ClosureChain[a]] 0 <= a < h0.alloc ==> h1.LispScope_ClosureChain[a] == h0.LispScope_ClosureChain[a]) && (forall|a: int| #![trigger h1.DataType_pAction[a]] 0 <= a < h0.alloc ==> h1.DataType_pAction[a] == h0.DataType_pAction[a])
    && (forall|a: int| #![trigger swf(h1, a)] swf(h0, a) ==> swf(h1, a)) && (chains(h0) ==> chains(h1)) && (gwf(h0) ==> gwf(h1))
    && (forall|a: int| #![trigger h1.locv[a]] 0 <= a < h0.alloc ==> h1.locv[a] == h0.locv[a]) && (forall|a: int| #![trigger h1.vec[a]] 0 <= a < h0.alloc && h0.locv[a] ==> h1.vec[a] == h0.vec[a])
}
pub open spec fn tpush(t0: Seq<Ev>, t1: Seq<Ev>, e: Ev) -> bool { t1 == t0.push(e) && t1.drop_last() == t0 && t1.last() == e }
pub open spec fn evd(h0: H, h1: H, a: int, s: int, r: int) -> bool {
    if a == 0 { r == 0 && ext(h0, h1) } else { tpush(tr(h0), tr(h1), Ev { al: h1.alloc, b0: h0.map_str, m0: h0.vec, b: h1.map_str, c: false, xs: Seq::empty(), y: hv(h1, r), m: h1.vec, a, s, r, v: rvalue(h1, r), ret: h1.LispScope_IsInReturn[s], x: false }) && (r == 0 || vwf(h1, r)) && keep(h0, h1) }
}
pub open spec fn evx(h0: H, h1: H, a: int, s: int) -> bool { a != 0 && tpush(tr(h0), tr(h1), Ev { al: h1.alloc, b0: h0.map_str, m0: h0.vec, b: h1.map_str, c: false, xs: Seq::empty(), y: hv(h1, 0), m: h1.vec, a, s, r: 0, v: Val::N(0), ret: h1.LispScope_IsInReturn[s], x: true }) && keep(h0, h1) }
pub open spec fn cld(h0: H, h1: H, f: int, xs: Seq<X>, s: int, r: int) -> bool { tpush(tr(h0), tr(h1), Ev { al: h1.alloc, b0: h0.map_str, m0: h0.vec, b: h1.map_str, c: true, xs, y: hv(h1, r), m: h1.vec, a: f, s, r, v: rvalue(h1, r), ret: h1.LispScope_IsInReturn[s], x: false }) && (r == 0 || vwf(h1, r)) && keep(h0, h1) }
pub open spec fn clx(h0: H, h1: H, f: int, xs: Seq<X>, s: int) -> bool { tpush(tr(h0), tr(h1), Ev { al: h1.alloc, b0: h0.map_str, m0: h0.vec, b: h1.map_str, c: true, xs, y: hv(h1, 0), m: h1.vec, a: f, s, r: 0, v: Val::N(0), ret: h1.LispScope_IsInReturn[s], x: true }) && keep(h0, h1) }
pub uninterp spec fn raises(h: H, a: int, s: int) -> bool;
// the arguments of a form
pub open spec fn fargs(h: H, a: int) -> bool { argok(h, a) && h.locv[a] }
// the last evaluation was left by an exception
pub open spec fn failed(h0: H, h1: H, n: int) -> bool { nev(h0, h1) == n && n > 0 && ev(h0, h1, n - 1).x }
// the first m evaluations of a while let it go on
pub open spec fn wev(e: Ev, j: int, c: int, b: int, s: int) -> bool { e.a == (if j % 2 == 0 { c } else { b }) && e.s == s && !e.x && if j % 2 == 0 { vboolc(e.v) && vbool(e.v) } else { !e.ret } }
#[verifier::opaque]
pub open spec fn wgo(t0: Seq<Ev>, t1: Seq<Ev>, c: int, b: int, s: int, m: int) -> bool { t0.len() + m <= t1.len() && forall|k: int| #![trigger t1[k]] t0.len() <= k < t0.len() + m ==> wev(t1[k], k - t0.len(), c, b, s) }
pub proof fn lemma_wgo(t0: Seq<Ev>, t1: Seq<Ev>, c: int, b: int, s: int, m: int)
    ensures t1.len() > 0 && wgo(t0, t1.drop_last(), c, b, s, m) ==> wgo(t0, t1, c, b, s, m), m >= 0 && t0.len() + m < t1.len() && wgo(t0, t1, c, b, s, m) && wev(t1[t0.len() + m], m, c, b, s) ==> wgo(t0, t1, c, b, s, m + 1), t0.len() <= t1.len() ==> wgo(t0, t1, c, b, s, 0)
{
    reveal(wgo);
    if t1.len() > 0 && wgo(t0, t1.drop_last(), c, b, s, m) { assert forall|k: int| #![trigger t1[k]] t0.len() <= k < t0.len() + m implies wev(t1[k], k - t0.len(), c, b, s) by { assert(t1.drop_last()[k] == t1[k]); } }
}
// the first m statements of a do let it go on
pub open spec fn dev(e: Ev, a: int, s: int) -> bool { e.a == a && e.s == s && !e.x && !e.ret }
#[verifier::opaque]
pub open spec fn dgo(t0: Seq<Ev>, t1: Seq<Ev>, xs: Seq<int>, s: int, m: int) -> bool { t0.len() + m <= t1.len() && m <= xs.len() && forall|k: int| #![trigger t1[k]] t0.len() <= k < t0.len() + m ==> dev(t1[k], xs[k - t0.len()], s) }
pub proof fn lemma_dgo(t0: Seq<Ev>, t1: Seq<Ev>, xs: Seq<int>, s: int, m: int)
    ensures t1.len() > 0 && dgo(t0, t1.drop_last(), xs, s, m) ==> dgo(t0, t1, xs, s, m), m >= 0 && t0.len() + m < t1.len() && m < xs.len() && dgo(t0, t1, xs, s, m) && dev(t1[t0.len() + m], xs[m], s) ==> dgo(t0, t1, xs, s, m + 1), t0.len() <= t1.len() ==> dgo(t0, t1, xs, s, 0),
        m > 0 && dgo(t0, t1, xs, s, m) ==> dgo(t0, t1, xs, s, m - 1) && dev(t1[t0.len() + m - 1], xs[m - 1], s)
{
    reveal(dgo);
    if t1.len() > 0 && dgo(t0, t1.drop_last(), xs, s, m) { assert forall|k: int| #![trigger t1[k]] t0.len() <= k < t0.len() + m implies dev(t1[k], xs[k - t0.len()], s) by { assert(t1.drop_last()[k] == t1[k]); } }
}
// the first m arguments are lists
pub open spec fn lists(h: H, xs: Seq<int>, m: int) -> bool { forall|i: int| #![trigger xs[i]] 0 <= i < m ==> h.object_m_Type[xs[i]] == 6 }
// the first m arguments of and (i = true) or or (i = false) do not decide
pub open spec fn bev(e: Ev, a: int, s: int, i: bool) -> bool { e.a == a && e.s == s && !e.x && e.v == Val::B(i) }
#[verifier::opaque]
pub open spec fn bgo(t0: Seq<Ev>, t1: Seq<Ev>, xs: Seq<int>, s: int, m: int, i: bool) -> bool { t0.len() + m <= t1.len() && m <= xs.len() && forall|k: int| #![trigger t1[k]] t0.len() <= k < t0.len() + m ==> bev(t1[k], xs[k - t0.len()], s, i) }
pub proof fn lemma_bgo(t0: Seq<Ev>, t1: Seq<Ev>, xs: Seq<int>, s: int, m: int, i: bool)
    ensures t1.len() > 0 && bgo(t0, t1.drop_last(), xs, s, m, i) ==> bgo(t0, t1, xs, s, m, i), m >= 0 && t0.len() + m < t1.len() && m < xs.len() && bgo(t0, t1, xs, s, m, i) && bev(t1[t0.len() + m], xs[m], s, i) ==> bgo(t0, t1, xs, s, m + 1, i), t0.len() <= t1.len() ==> bgo(t0, t1, xs, s, 0, i),
        m > 0 && bgo(t0, t1, xs, s, m, i) ==> bgo(t0, t1, xs, s, m - 1, i) && bev(t1[t0.len() + m - 1], xs[m - 1], s, i)
{
    reveal(bgo);
    if t1.len() > 0 && bgo(t0, t1.drop_last(), xs, s, m, i) { assert forall|k: int| #![trigger t1[k]] t0.len() <= k < t0.len() + m implies bev(t1[k], xs[k - t0.len()], s, i) by { assert(t1.drop_last()[k] == t1[k]); } }
}
// the first m elements were handed to the function, one by one (map), or together with the value so far (reduce)
pub open spec fn mev(e: Ev, f: int, s: int, xs: Seq<X>) -> bool { e.c && e.a == f && e.s == s && e.xs =~= xs }
pub open spec fn macc(t: Seq<Ev>, n0: int, k: int, x0: X) -> X { if k == n0 { x0 } else { t[k - 1].y } }
pub open spec fn margs(t: Seq<Ev>, n0: int, k: int, x: X, x0: X, red: bool) -> Seq<X> { if red { seq![asval(x), asval(macc(t, n0, k, x0))] } else { seq![asval(x)] } }
#[verifier::opaque]
pub open spec fn mgo(t0: Seq<Ev>, t1: Seq<Ev>, f: int, s: int, xs: Seq<X>, m: int, x0: X, red: bool) -> bool { t0.len() + m <= t1.len() && m <= xs.len() && forall|k: int| #![trigger t1[k]] t0.len() <= k < t0.len() + m ==> mev(t1[k], f, s, margs(t1, t0.len() as int, k, xs[k - t0.len()], x0, red)) && !t1[k].x }
pub proof fn lemma_mgo(t0: Seq<Ev>, t1: Seq<Ev>, f: int, s: int, xs: Seq<X>, m: int, x0: X, red: bool)
    ensures t1.len() > 0 && mgo(t0, t1.drop_last(), f, s, xs, m, x0, red) ==> mgo(t0, t1, f, s, xs, m, x0, red),
        m >= 0 && t0.len() + m < t1.len() && m < xs.len() && mgo(t0, t1, f, s, xs, m, x0, red) && mev(t1[t0.len() + m], f, s, margs(t1, t0.len() as int, t0.len() + m, xs[m], x0, red)) && !t1[t0.len() + m].x ==> mgo(t0, t1, f, s, xs, m + 1, x0, red), t0.len() <= t1.len() ==> mgo(t0, t1, f, s, xs, 0, x0, red), m > 0 && mgo(t0, t1, f, s, xs, m, x0, red) ==> !t1[t0.len() + m - 1].x
{
    reveal(mgo);
    if t1.len() > 0 && mgo(t0, t1.drop_last(), f, s, xs, m, x0, red) {
        assert forall|k: int| #![trigger t1[k]] t0.len() <= k < t0.len() + m implies mev(t1[k], f, s, margs(t1, t0.len() as int, k, xs[k - t0.len()], x0, red)) && !t1[k].x by { assert(t1.drop_last()[k] == t1[k]); if k > t0.len() { assert(t1.drop_last()[k - 1] == t1[k - 1]); } }
    }
}
// the first m elements of a list are the values of the first m evaluations
#[verifier::opaque]
pub open spec fn rgo(h: H, ys: Seq<int>, t0: Seq<Ev>, t1: Seq<Ev>, m: int) -> bool { t0.len() + m <= t1.len() && m <= ys.len() && forall|k: int| #![trigger ys[k]] 0 <= k < m ==> awf(h, ys[k]) && hx(h, ys[k]) == t1[t0.len() + k].y }
pub proof fn lemma_rgo(h0: H, h1: H, ys: Seq<int>, y: int, t0: Seq<Ev>, t1: Seq<Ev>, m: int)
    ensures m == ys.len() && grow(h0, h1) && keepo(h0, h1) && t1.len() > 0 && rgo(h0, ys, t0, t1.drop_last(), m) && awf(h1, y) && t0.len() + m < t1.len() && hx(h1, y) == t1[t0.len() + m].y ==> rgo(h1, ys.push(y), t0, t1, m + 1), t0.len() <= t1.len() ==> rgo(h1, ys, t0, t1, 0), grow(h0, h1) && keepo(h0, h1) && rgo(h0, ys, t0, t1, m) ==> rgo(h1, ys, t0, t1, m)
{
    reveal(rgo);
    if m == ys.len() && grow(h0, h1) && keepo(h0, h1) && t1.len() > 0 && rgo(h0, ys, t0, t1.drop_last(), m) && awf(h1, y) && t0.len() + m < t1.len() && hx(h1, y) == t1[t0.len() + m].y {
        assert forall|k: int| #![trigger ys.push(y)[k]] 0 <= k < m + 1 implies awf(h1, ys.push(y)[k]) && hx(h1, ys.push(y)[k]) == t1[t0.len() + k].y by {
            if k < m { assert(ys.push(y)[k] == ys[k]); assert(t1.drop_last()[t0.len() + k] == t1[t0.len() + k]); }
        }
    }
}
// the elements of the list in an argument
pub open spec fn lsel(h: H, o: int) -> Seq<int> { if h.object_m_Type[o] == 6 { h.vec[h.DataType_pList[o]] } else if islx(h, o) { h.vec[h.DataType_pList[h.LispVariant_Value[h.DataType_pVariant[o]]]] } else { vels(rval(h, o)) } }
pub open spec fn islx(h: H, o: int) -> bool { h.object_m_Type[o] == 11 && h.LispVariant_Type[h.DataType_pVariant[o]] == 9 && h.object_m_Type[h.LispVariant_Value[h.DataType_pVariant[o]]] == 6 }
pub open spec fn islist(h: H, o: int) -> bool { h.object_m_Type[o] == 6 || islx(h, o) || vlist(rval(h, o)) }
pub open spec fn isfn(h: H, o: int) -> bool { h.object_m_Type[o] == 11 && h.LispVariant_Type[h.DataType_pVariant[o]] == 7 }
// the function object behind an argument
pub open spec fn fobj(h: H, o: int) -> int { h.LispFunctionWrapper_Function[h.DataType_pFunctionWrapper[hx(h, o).o]] }
pub open spec fn hstart(h: H, xs: Seq<int>) -> X { if h.object_m_Type[xs[2]] == 11 { hx(h, xs[2]) } else { hv(h, G_nil()) } }
// the list in an argument as it is when the containers are m
pub open spec fn lnow(h: H, o: int, m: Map<int,Seq<int>>) -> Seq<int> { if h.object_m_Type[o] == 11 && h.LispVariant_Type[h.DataType_pVariant[o]] == 6 { m[h.DataType_pList[h.LispVariant_Value[h.DataType_pVariant[o]]]] } else { Seq::empty() } }
pub open spec fn hxv(h: H, s: Seq<int>, sp: bool) -> Seq<X> { Seq::new(s.len(), |i: int| if sp { hx(h, s[i]) } else { asval(hx(h, s[i])) }) }
pub open spec fn espec(h: H, e: Ev) -> bool { h.LispFunctionWrapper_m_bIsSpecialForm[h.DataType_pFunctionWrapper[e.y.o]] }
pub open spec fn efun(h: H, e: Ev) -> int { h.LispFunctionWrapper_Function[h.DataType_pFunctionWrapper[e.y.o]] }
pub open spec fn isfn2(h: H, r: int) -> bool { r != 0 && h.LispVariant_Type[r] == 7 ==> h.LispFunctionWrapper_Function[h.DataType_pFunctionWrapper[h.LispVariant_Value[r]]] > 0 }
// the same value: equal data, the same elements, the same object
pub open spec fn sameval(v: Val, w: Val) -> bool { v == w || v is N && w is N || v is U && w is U }
// closure chains of equal shape and with the same bindings of a name
#[verifier::external_body]
pub proof fn ax_cfind_frame(h0: H, h1: H, s: int, n: Seq<int>)
    ensures cfr(h0, h1, s, n) ==> cfind(h1, s, n) == cfind(h0, s, n) {}
pub open spec fn cfr(h0: H, h1: H, s: int, n: Seq<int>) -> bool { chains(h0) && ok(h0, s, K_LispScope()) && (forall|a: int| #![trigger h1.map_str[a]] 0 <= a < h0.alloc ==> bound(h1, a, n) == bound(h0, a, n)) && forall|a: int| #![trigger h1.LispScope_ClosureChain[a]] 0 <= a < h0.alloc ==> h1.LispScope_ClosureChain[a] == h0.LispScope_ClosureChain[a] }
// scopes stay valid when nothing but other bindings change
pub open spec fn sext(h0: H, h1: H) -> bool {
    grow(h0, h1) && nosc(h0, h1) && (forall|a: int| #![trigger h1.map_str[a]] 0 <= a < h0.alloc ==> h1.map_str[a] == h0.map_str[a]) && (forall|a: int| #![trigger h1.LispScope_ClosureChain[a]] 0 <= a < h0.alloc ==> h1.LispScope_ClosureChain[a] == h0.LispScope_ClosureChain[a])
    && (forall|a: int| #![trigger h1.LispScope_GlobalScope[a]] 0 <= a < h0.alloc ==> h1.LispScope_GlobalScope[a] == h0.LispScope_GlobalScope[a]) && (forall|a: int| #![trigger h1.object_m_Type[a]] 0 <= a < h0.alloc ==> h1.object_m_Type[a] == h0.object_m_Type[a])
    && (forall|a: int| #![trigger h1.DataType_i[a]] 0 <= a < h0.alloc ==> h1.DataType_i[a] == h0.DataType_i[a]) && (forall|a: int| #![trigger h1.DataType_pString[a]] 0 <= a < h0.alloc ==> h1.DataType_pString[a] == h0.DataType_pString[a])
    && (forall|a: int| #![trigger h1.DataType_pList[a]] 0 <= a < h0.alloc ==> h1.DataType_pList[a] == h0.DataType_pList[a]) && (forall|a: int| #![trigger h1.DataType_pScope[a]] 0 <= a < h0.alloc ==> h1.DataType_pScope[a] == h0.DataType_pScope[a])
    && (forall|a: int| #![trigger h1.DataType_pDictionary[a]] 0 <= a < h0.alloc ==> h1.DataType_pDictionary[a] == h0.DataType_pDictionary[a]) && (forall|a: int| #![trigger h1.DataType_pVariant[a]] 0 <= a < h0.alloc ==> h1.DataType_pVariant[a] == h0.DataType_pVariant[a])
    && (forall|a: int| #![trigger h1.DataType_pFunctionWrapper[a]] 0 <= a < h0.alloc ==> h1.DataType_pFunctionWrapper[a] == h0.DataType_pFunctionWrapper[a])
}
pub proof fn lemma_sext(h0: H, h1: H, s: int) requires sext(h0, h1) ensures chains(h0) ==> chains(h1), swf(h0, s) ==> swf(h1, s)
{
    if swf(h0, s) {
        let g = h0.LispScope_GlobalScope[s];
        let m = modtab(h0, g);
        assert(h1.map_str[g] == h0.map_str[g]);
        assert(modtab(h1, g) == m);
        assert(h1.map_str[m] == h0.map_str[m]);
        assert forall|n: Seq<int>| #![trigger h1.map_str[modtab(h1, g)][n]] bound(h1, modtab(h1, g), n) implies oscope(h1, h1.map_str[modtab(h1, g)][n]) by { assert(bound(h0, m, n)); assert(oscope(h0, h0.map_str[m][n])); }
    }
    if chains(h0) {
        assert forall|q: int| #![trigger h1.LispScope_ClosureChain[q]] ok(h1, q, K_LispScope()) implies h1.LispScope_ClosureChain[q] == 0 || ok(h1, h1.LispScope_ClosureChain[q], K_LispScope()) by { assert(h1.cls[q] == K_LispScope()); assert(q < h0.alloc); assert(ok(h0, q, K_LispScope())); assert(h0.LispScope_ClosureChain[q] == h1.LispScope_ClosureChain[q]); let c = h0.LispScope_ClosureChain[q]; assert(c == 0 || h1.cls[c] == h0.cls[c]); }
    }
}
// a place holds a setter
pub open spec fn isplace(h: H, v: int) -> bool { v != 0 && h.LispVariant_Type[v] == 11 ==> h.LispVariant_Value[v] != 0 && h.object_m_Type[h.LispVariant_Value[v]] == 17 && ok(h, h.DataType_pAction[h.LispVariant_Value[v]], K_std_function_void_std_shared_ptr_object_()) }
// what a variant in an argument of a form holds (plain data: nil)
pub open spec fn vx(h: H, o: int) -> X { if h.object_m_Type[o] == 11 { hx(h, o) } else { X { t: 1, o: 0, q: true } } }
// after a definition: the binding of the name n in the scope s is new or replaced, all other bindings are as the evaluation e left them
pub open spec fn dset(e: Ev, h1: H, s: int, n: Seq<int>) -> bool {
    bound(h1, s, n) && hx(h1, h1.map_str[s][n]) == asval(e.y) && (forall|o: int| #![trigger h1.map_str[o]] 0 <= o < e.al && o != s ==> h1.map_str[o] == e.b[o]) && h1.map_str[s] =~= e.b[s].insert(n, h1.map_str[s][n])
}
// the name in a definition
pub open spec fn isplain(h: H, x: X) -> bool { isname(x) && h.object_m_Type[x.o] == 5 }
pub open spec fn isname(x: X) -> bool { x.t == 5 || x.t == 8 }
pub open spec fn dname(h0: H, h1: H, o: int) -> X { if h0.object_m_Type[o] == 6 { ev(h0, h1, 0).y } else { vx(h0, o) } }
pub open spec fn evis(h0: H, h1: H, j: int, a: int, s: int) -> bool { ev(h0, h1, j).a == a && ev(h0, h1, j).s == s }
'''
XE = ('LispException', 'LispExceptionBase', 'LispStopDebuggerException')


def contracts():
    C = []
    add = lambda *a, **k: C.append(Contract(*a, **k))
    P = ('P11',)
    add('LispInterpreter::EvalAst', mode='any', trusted=True, requires=['$1 == 0 || awf($h, $1)', 'ok($h, $2, K_LispScope())'], raises=[(XE, 'raises($h, $1, $2)')], ensures=['evd($h, $h1, $1, $2, $r)'], ensures_raise=['evx($h, $h1, $1, $2)'],
        note='an evaluation is one event of the ghost trace with its value; it cannot change local containers of its callers, nor the kind of objects, and keeps values well formed')
    add('FuncX', lam='std::shared_ptr<LispVariant>(std::vector<std::shared_ptr<object>>&,std::shared_ptr<LispScope>)', mode='any', trusted=True, resty='std::shared_ptr<LispVariant>', requires=['fargs($h, $1)', 'ok($h, $2, K_LispScope())'], raises=[(XE, 'raises($h, $self, $2)')],
        ensures=['cld($h, $h1, $self, hxs($h, $h.vec[$1]), $2, $r)'], ensures_raise=['clx($h, $h1, $self, hxs($h, $h.vec[$1]), $2)'], note='a call of a function object is one event of the ghost trace with its arguments and its value')
    add('LispScope::DumpStackToString', trusted=True, mode='pure', note='text of the call stack in a message')
    A = lambda j: '$h.vec[$1][%d]' % j
    E = lambda j: 'ev($h, $h1, %s)' % j
    IS = lambda j, a: 'evis($h, $h1, %s, %s, $2)' % (j, a)
    N = 'nev($h, $h1)'
    n = '$h.vec[$1].len()'
    REQ = ['fargs($h, $1)', 'ok($h, $2, K_LispScope())']
    # if: the condition once, then only the chosen branch
    add('if_form', mode='any', requires=REQ,
        raises=[(XE, '%s == 0 && !(%s == 2 || %s == 3) || failed($h, $h1, 1) && %s || %s == 1 && %s && !%s.x && !(%s.v is B) || failed($h, $h1, 2) && %s && %s.v is B && %s' %
                 (N, n, n, IS(0, A(0)), N, IS(0, A(0)), E(0), E(0), IS(0, A(0)), E(0), IS(1, 'if %s.v->B_0 { %s } else { %s }' % (E(0), A(1), A(2)))))],
        ensures=['pre($h, $h1)', '%s == 2 || %s == 3' % (n, n), '%s >= 1 && %s && !%s.x && %s.v is B' % (N, IS(0, A(0)), E(0), E(0)),
                 '%s.v->B_0 ==> %s == 2 && %s && $r == %s.r' % (E(0), N, IS(1, A(1)), E(1)),
                 '!%s.v->B_0 && %s == 3 ==> %s == 2 && %s && $r == %s.r' % (E(0), n, N, IS(1, A(2)), E(1)),
                 '!%s.v->B_0 && %s == 2 ==> %s == 1 && $r == 0' % (E(0), n, N)], ensures_raise=['pre($h, $h1)'], tags=P)
    # while: condition and body in turn, as long as the condition holds and no return was executed
    WG = lambda m: 'wgo(tr($h), tr($h1), %s, %s, $2, %s)' % (A(0), A(1), m)
    L = E(N + ' - 1')
    X0 = '%s == 0 && %s != 2' % (N, n)
    last = lambda m, j: '%s == %s && %s' % (N, m, j)
    WGI = lambda m: 'wgo(tr($h0), tr($h), $h0.vec[$1][0], $h0.vec[$1][1], $2, %s)' % m
    NI = 'nev($h0, $h)'
    EI = lambda j: 'ev($h0, $h, %s)' % j
    KI = ['grow($h0, $h)', 'fargs($h, $1)', '$h.vec[$1] == $h0.vec[$1]', 'ok($h, $2, K_LispScope())', 'pre($h0, $h)', 'forall|o: int| #![trigger $h.object_m_Type[o]] 0 <= o < $h0.alloc ==> $h.object_m_Type[o] == $h0.object_m_Type[o]']
    HW = lambda h0, h1: 'if %s > 0 { ' % ('nev(%s, %s)' % (h0, h1)) + ' '.join('lemma_wgo(tr(%s), tr(%s), %s.vec[$1][0], %s.vec[$1][1], $2, %s - %d);' % (h0, h1, h0, h0, 'nev(%s, %s)' % (h0, h1), d) for d in (2, 1)) + ' }'
    add('while_form', hints={'exit': [HW('$h', '$h1')], 'raise': [HW('$h', '$h1')]}, at={'after:LispInterpreter::EvalAst': [HW('$h0', '$h')]}, mode='any', part=25, rlimit=100, requires=REQ,
        raises=[(XE, '%s || %s >= 1 && %s && (%s.x && evis($h, $h1, %s - 1, if %s %% 2 == 1 { %s } else { %s }, $2) || %s %% 2 == 1 && !%s.x && evis($h, $h1, %s - 1, %s, $2) && !vboolc(%s.v))' %
                 (X0, N, WG(N + ' - 1'), L, N, N, A(0), A(1), N, L, N, A(0), L))],
        ensures=[n + ' == 2', '%s >= 1 && %s && !%s.x' % (N, WG(N + ' - 1'), L),
                 '%s %% 2 == 1 ==> evis($h, $h1, %s - 1, %s, $2) && vboolc(%s.v) && !vbool(%s.v)' % (N, N, A(0), L, L), '%s %% 2 == 0 ==> evis($h, $h1, %s - 1, %s, $2) && %s.ret && $r == %s.r' % (N, N, A(1), L, L),
                 '%s %% 2 == 1 && %s > 1 ==> $r == %s.r' % (N, N, E(N + ' - 2')), '%s == 1 ==> vwf($h1, $r) && val($h1, $r) is U' % N], ensures_raise=['pre($h, $h1)'],
        loops={'while_form:1': {'hint_entry': ['lemma_wgo(tr($h0), tr($h), $h0.vec[$1][0], $h0.vec[$1][1], $2, 0);'], 'inv': KI + ['%s >= 1 && %s %% 2 == 1' % (NI, NI), WGI(NI + ' - 1'), 'evis($h0, $h, %s - 1, $h0.vec[$1][0], $2) && !%s.x' % (NI, EI(NI + ' - 1')), 'vwf($h, @condition) && val($h, @condition) == %s.v' % EI(NI + ' - 1'),
            '%s > 1 ==> @result == %s.r' % (NI, EI(NI + ' - 2')), '%s == 1 ==> vwf($h, @result) && val($h, @result) is U' % NI]}}, tags=P)
    # do: every statement in order, the last one is the value
    DG = lambda m: 'dgo(tr($h), tr($h1), $h.vec[$1], $2, %s)' % m
    HD = lambda h0, h1: 'if %s >= 0 { lemma_dgo(tr(%s), tr(%s), %s.vec[$1], $2, %s - 1); lemma_dgo(tr(%s), tr(%s), %s.vec[$1], $2, %s); }' % (('nev(%s, %s)' % (h0, h1), h0, h1, h0, 'nev(%s, %s)' % (h0, h1)) + (h0, h1, h0, 'nev(%s, %s)' % (h0, h1)))
    add('do_form', hints={'exit': [HD('$h', '$h1')], 'raise': [HD('$h', '$h1')]}, at={'after:LispInterpreter::EvalAst': [HD('$h0', '$h')]}, mode='any', part=20, rlimit=100, requires=REQ,
        raises=[(XE, '%s && %s < %s && $h.object_m_Type[$h.vec[$1][%s]] != 6 || %s > 0 && %s && %s.x && evis($h, $h1, %s - 1, $h.vec[$1][%s - 1], $2)' % (DG(N), N, n, N, N, DG(N + ' - 1'), L, N, N))],
        ensures=['%s == 0 ==> %s == 0 && vwf($h1, $r) && val($h1, $r) is U' % (N, n), '%s > 0 ==> %s && !%s.x && evis($h, $h1, %s - 1, $h.vec[$1][%s - 1], $2) && $r == %s.r' % (N, DG(N + ' - 1'), L, N, N, L), 'lists($h, $h.vec[$1], %s)' % N,
                 '%s < %s ==> %s > 0 && %s.ret' % (N, n, N, L), '%s <= %s' % (N, n), 'pre($h, $h1)'], ensures_raise=['pre($h, $h1)'],
        loops={'do_form:1': {'hint_entry': ['lemma_dgo(tr($h0), tr($h), $h0.vec[$1], $2, 0);'], 'inv': KI + ['0 <= @__i <= $h0.vec[$1].len()', '%s == @__i' % NI, 'dgo(tr($h0), tr($h), $h0.vec[$1], $2, @__i)', 'lists($h0, $h0.vec[$1], @__i)', '@__i > 0 ==> @result == %s.r' % EI('@__i - 1'), '@__i == 0 ==> vwf($h, @result) && val($h, @result) is U']}}, tags=P)
    # and, or: from left to right up to the deciding argument
    for f, i in (('and_form', 'true'), ('or_form', 'false')):
        BG = lambda m: 'bgo(tr($h), tr($h1), $h.vec[$1], $2, %s, %s)' % (m, i)
        LE = 'evis($h, $h1, %s - 1, $h.vec[$1][%s - 1], $2)' % (N, N)
        HB = lambda h0, h1: 'if %s >= 0 { lemma_bgo(tr(%s), tr(%s), %s.vec[$1], $2, %s - 1, %s); lemma_bgo(tr(%s), tr(%s), %s.vec[$1], $2, %s, %s); }' % (('nev(%s, %s)' % (h0, h1), h0, h1, h0, 'nev(%s, %s)' % (h0, h1), i) + (h0, h1, h0, 'nev(%s, %s)' % (h0, h1), i))
        add(f, hints={'exit': [HB('$h', '$h1')], 'raise': [HB('$h', '$h1')]}, at={'after:LispInterpreter::EvalAst': [HB('$h0', '$h')]}, mode='any', requires=REQ,
            raises=[(XE, '%s > 0 && %s && %s && (%s.x || !(%s.v is B))' % (N, BG(N + ' - 1'), LE, L, L))],
            ensures=['vwf($h1, $r)', '%s <= %s && pre($h, $h1)' % (N, n), '%s == 0 ==> %s == 0 && val($h1, $r) == Val::B(%s)' % (N, n, i), '%s > 0 ==> %s && %s && !%s.x && %s.v is B && val($h1, $r) == %s.v' % (N, BG(N + ' - 1'), LE, L, L, L),
                     '%s < %s ==> %s > 0 && %s.v == Val::B(!%s)' % (N, n, N, L, i)], ensures_raise=['pre($h, $h1)'],
            loops={'bool_operation_form:1': {'hint_entry': ['lemma_bgo(tr($h0), tr($h), $h0.vec[$1], $2, 0, %s);' % i], 'inv': KI + ['0 <= @__i <= $h0.vec[$1].len()', '%s == @__i' % NI, 'bgo(tr($h0), tr($h), $h0.vec[$1], $2, @__i, %s)' % i, '@result == %s' % i]}}, tags=P)
    add('Return', mode='any', requires=REQ, raises=[(XE, '%s < 1' % n)], ensures=['quiet($h, $h1)', '$h1.LispScope_IsInReturn[$2]', 'vwf($h1, $r) && val($h1, $r) == aval($h, $h.vec[$1][0])'], ensures_raise=['quiet($h, $h1)', '$h1.LispScope_IsInReturn[$2] == $h.LispScope_IsInReturn[$2]'],
        modifies=['LispScope_IsInReturn@$2'], tags=P)
    add('quote_form', requires=REQ + ['forall|i: int| #![trigger $h.vec[$1][i]] 0 <= i < %s ==> powf($h, $h.vec[$1][i])' % n], raises=[(XE, '%s != 1' % n)], ensures=['vwf($h1, $r)', '$h.object_m_Type[$h.vec[$1][0]] == 11 || 1 <= $h.object_m_Type[$h.vec[$1][0]] <= 6 ==> sameval(val($h1, $r), aval($h, $h.vec[$1][0]))'], tags=('P12',))
    # def, gdef: the name (evaluated if it is an expression), then the value; the binding in the scope is created or replaced, nothing else
    NL = '(if $h.object_m_Type[%s] == 6 { 1int } else { 0 })' % A(0)
    for f, sc in (('def_form', '$2'), ('gdef_form', '$h.LispScope_GlobalScope[$2]')):
        DN = 'dname($h, $h1, %s)' % A(0)
        add(f, mode='any', requires=REQ + ['swf($h, $2)'], tags=('P09', 'P10'), ensures_raise=['pre($h, $h1)'],
            raises=[(XE, '%s == 0 && (%s != 2 || %s == 0 && !isname(vx($h, %s))) || %s == 1 && %s == 1 && %s && (%s.x || !isname(%s.y)) || %s == %s + 1 && %s && %s.x && %s' % (N, n, NL, A(0), N, NL, IS(0, A(0)), E(0), E(0), N, NL, IS(NL, A(1)), E(NL), 'isname(%s) && (%s == 1 ==> %s && !%s.x)' % (DN, NL, IS(0, A(0)), E(0))))],
            ensures=['pre($h, $h1)', '%s == 2 && %s == %s + 1' % (n, N, NL), '%s == 1 ==> %s && !%s.x' % (NL, IS(0, A(0)), E(0)), '%s && !%s.x' % (IS(NL, A(1)), E(NL)), 'isname(%s)' % DN, 'vwf($h1, $r) && hv($h1, $r) == %s.y' % E(NL),
                     '$h1.object_m_Type[{d}.o] == 5 ==> dset({e}, $h1, {s}, $h1.strv[$h1.DataType_pString[{d}.o]])'.format(d=DN, s=sc, e=E(NL))])
    # setf: the place is evaluated, then the value, then the place is set: by its setter, or the visible binding of the name is replaced and nothing else
    add('Setter', lam='void(std::shared_ptr<object>)', mode='any', trusted=True, resty='void', requires=['awf($h, $1)'], raises=[(XE, 'raises($h, $self, 0)')], ensures=['cld($h, $h1, $self, seq![hx($h, $1)], 0, 0)'], ensures_raise=['clx($h, $h1, $self, seq![hx($h, $1)], 0)'],
        note='a call of the setter of a place is one event of the ghost trace')
    DN = 'dname($h, $h1, %s)' % A(0)
    NM = '$h1.strv[$h1.DataType_pString[%s.o]]' % DN
    VS = 'visible($h1, $2, %s)' % NM
    VL = '!%s.x && %s && (%s == 1 ==> %s && !%s.x)' % (E(NL), IS(NL, A(1)), NL, IS(0, A(0)), E(0))
    ST = '{e}.c && {e}.a == $h1.DataType_pAction[{d}.o] && {e}.xs =~= seq![asval({v}.y)]'.format(e=E(NL + ' + 1'), d=DN, v=E(NL))
    SF = ['ax_cfind_frame($hp, $h1, $2, %s);' % NM]
    add('setf_form', mode='any', part=30, requires=REQ + ['swf($h, $2)', 'chains($h)'], exact=False, tags=('P09', 'P10'), hints={'entry': ['if $h.vec[$1].len() > 0 { assume(isplace($h, $h.DataType_pVariant[$h.vec[$1][0]])); } // ASSUME a place holds a setter'], 'exit': SF + ['if isplain($h1, %s) { assert(cfr($hp, $h1, $2, %s)); assert(visible($h1, $2, %s) == visible($hp, $2, %s)); }' % (DN, NM, NM, NM)], 'raise': SF},
        raises=[(XE, '%s == 0 && %s != 2 || %s == 1 && %s == 1 && %s && %s.x || %s == %s + 1 && (%s == 1 ==> %s && !%s.x) && %s && (%s.x || %s.t != 11 && (isplain($h1, %s) ==> %s.len() == 0 || %s == 0)) || %s == %s + 2 && %s && %s.t == 11 && %s && %s.x' %
                 (N, n, N, NL, IS(0, A(0)), E(0), N, NL, NL, IS(0, A(0)), E(0), IS(NL, A(1)), E(NL), DN, DN, NM, VS, N, NL, VL, DN, ST, E(NL + ' + 1')))],
        ensures=['pre($h, $h1)', n + ' == 2', VL, '%s.t == 11 ==> %s == %s + 2 && %s && !%s.x' % (DN, N, NL, ST, E(NL + ' + 1')), '%s.t != 11 ==> %s == %s + 1' % (DN, N, NL), 'isplain($h1, %s) ==> %s != 0 && dset(%s, $h1, %s, %s)' % (DN, VS, E(NL), VS, NM),
                 'vwf($h1, $r) && hv($h1, $r) == %s.y' % E(NL), '$h1.LispScope_NeedsLValue[$2] == $h.LispScope_NeedsLValue[$2]'], ensures_raise=['pre($h, $h1)', '$h1.LispScope_NeedsLValue[$2] == $h.LispScope_NeedsLValue[$2]'],
        at={'after:LispInterpreter::EvalAst': ['assume(isplace($h, $cr)); // ASSUME a place holds a setter'], 'LispInterpreter::EvalAst': ['lemma_sext($hp, $h, $2);'], 'after:LispScope::SetInScopes': ['assert($ch.cls[visible($ch, $2, $c1)] == K_LispScope());', 'assert(nosc($hp, $ch) && visible($ch, $2, $c1) < $hp.alloc);', 'assert(isplain($h, dname($h0, $h, $h0.vec[$1][0])) ==> isplain($ch, dname($h0, $ch, $h0.vec[$1][0])) && $c1 =~= $h.strv[$h.DataType_pString[dname($h0, $h, $h0.vec[$1][0]).o]]);', 'assert(bound($hp, visible($ch, $2, $c1), $c1));'], 'LispScope::SetInScopes': ['assert(swf($hp, $2));', 'assert(isplain($h, dname($h0, $h, $h0.vec[$1][0])) ==> $c1 =~= $h.strv[$h.DataType_pString[dname($h0, $h, $h0.vec[$1][0]).o]]);', 'lemma_sext($hp, $h, $2);', 'ax_cfind_frame($hp, $h, $2, $c1);']})
    # map: the function is called for every element in order; the result is the list of the values
    add('LispScope::GetPreviousToken', trusted=True, mode='pure', note='position in an error message')
    add('LispEnvironment::CheckForList', requires=['awf($h, $2)', 'ok($h, $3, K_LispScope())', 'gwf($h)'], raises=[(XE, '!islist($h, $2)')], ensures=['ok($h1, $r, K_vec())', '$r >= $h.alloc', '$h1.vec[$r] == lsel($h, $2)', '$h1.locv[$r]'], tags=('P07', 'P11'))
    FA = ['if $h.vec[$1].len() > 0 && isfn($h, $h.vec[$1][0]) { assume(fobj($h, $h.vec[$1][0]) > 0); } // ASSUME a function value holds a function']
    LA = ['if $h.vec[$1].len() > 1 { assume(lwf($h, lsel($h, $h.vec[$1][1]))); } // ASSUME elements of a list are valid objects']
    FN = 'fobj($h0, $h0.vec[$1][0])'
    XL = 'hxs($h0, lsel($h0, $h0.vec[$1][1]))'
    MG = lambda h0, h1, m, x0, red: 'mgo(tr(%s), tr(%s), fobj(%s, %s.vec[$1][0]), $2, hxs(%s, lsel(%s, %s.vec[$1][1])), %s, %s, %s)' % (h0, h1, h0, h0, h0, h0, h0, m, x0, red)
    X0 = 'X { t: 0, o: 0, q: true }'
    HM = lambda h0, h1, x0, red: 'if nev(%s, %s) > 0 { lemma_%s; lemma_%s; }' % (h0, h1, MG(h0, h1, 'nev(%s, %s) - 1' % (h0, h1), x0, red), MG(h0, h1, 'nev(%s, %s)' % (h0, h1), x0, red))
    add('Map', mode='any', part=30, rlimit=100, requires=REQ + ['gwf($h)'], raises=[(XE, '%s == 0 && (%s != 2 || !isfn($h, %s) || !islist($h, %s)) || %s > 0 && %s && %s.x' % (N, n, A(0), A(1), N, MG('$h', '$h1', N + ' - 1', X0, 'false'), L))], ensures=['pre($h, $h1)', MG('$h', '$h1', N, X0, 'false'), '%s == lsel($h, %s).len()' % (N, A(1)), 'vwf($h1, $r) && val($h1, $r) is L', 'rgo($h1, vels(val($h1, $r)), tr($h), tr($h1), %s)' % N, 'vels(val($h1, $r)).len() == ' + N], tags=('P07',),
        hints={'entry': FA + LA, 'exit': [HM('$h', '$h1', X0, 'false'), 'lemma_rgo($he, $h1, vels(val($h1, $r)), 0, tr($h), tr($h1), nev($h, $h1));'], 'raise': [HM('$h', '$h1', X0, 'false')]}, ensures_raise=['pre($h, $h1)'], at={'after:FuncX': ['assert(hxs($ch, $ch.vec[$c1]) =~= seq![asval(%s[nev($h0, $h) - 1])]);' % XL, HM('$h0', '$h', X0, 'false')]},
        loops={'Map:1': {'hint_back': ['assert(keepo($ht, $h));', 'lemma_rgo($ht, $h, $ht.vec[@list], $h.vec[@list].last(), tr($h0), tr($h), @__i - 1);', 'assert($h.vec[@list] =~= $ht.vec[@list].push($h.vec[@list].last()));'], 'hint_entry': ['lemma_rgo($h0, $h, $h.vec[@list], 0, tr($h0), tr($h), 0);', 'lemma_mgo(tr($h0), tr($h), %s, $2, %s, 0, %s, false);' % (FN, XL, X0)],
            'inv': KI + ['keepo($h0, $h)', '0 <= @__i <= @__n', '@__n == lsel($h0, $h0.vec[$1][1]).len()', '$h.locv[@__range]', '$h.vec[@__range] == lsel($h0, $h0.vec[$1][1])', 'lwf($h, $h.vec[@__range])', 'gwf($h)', 'ok($h, @function, K_LispFunctionWrapper())', '$h.LispFunctionWrapper_Function[@function] == %s && %s > 0' % (FN, FN), '%s == @__i' % NI, MG('$h0', '$h', '@__i', X0, 'false'), '$h.locv[@list]', 'ok($h, @list, K_vec())', 'rgo($h, $h.vec[@list], tr($h0), tr($h), @__i)', '$h.vec[@list].len() == @__i']}})
    # reduce: the function is called for every element in order with the value so far
    XR = 'hstart($h0, $h0.vec[$1])'
    AF = ['assert(hxs($ch, $ch.vec[$c1]) =~= seq![asval(%s[nev($h0, $h) - 1]), asval(macc(tr($h), tr($h0).len() as int, tr($h0).len() + nev($h0, $h) - 1, %s))]);' % (XL, XR), HM('$h0', '$h', XR, 'true')]
    add('Reduce', mode='any', part=30, rlimit=100, requires=REQ + ['gwf($h)'], raises=[(XE, '%s == 0 && (%s != 3 || !isfn($h, %s) || !islist($h, %s)) || %s > 0 && %s && %s.x' % (N, n, A(0), A(1), N, MG('$h', '$h1', N + ' - 1', 'hstart($h, $h.vec[$1])', 'true'), L))],
        ensures=['pre($h, $h1)', MG('$h', '$h1', N, 'hstart($h, $h.vec[$1])', 'true'), '%s == lsel($h, %s).len()' % (N, A(1)), 'vwf($h1, $r)', 'hv($h1, $r) == macc(tr($h1), tr($h).len() as int, tr($h1).len() as int, hstart($h, $h.vec[$1]))'], tags=('P07',),
        hints={'entry': FA + LA, 'exit': [HM('$h', '$h1', XR, 'true')], 'raise': [HM('$h', '$h1', XR, 'true')]}, ensures_raise=['pre($h, $h1)'], at={'after:FuncX': AF},
        loops={'Reduce:1': {'hint_entry': ['lemma_mgo(tr($h0), tr($h), %s, $2, %s, 0, %s, true);' % (FN, XL, XR)],
            'inv': KI + ['keepo($h0, $h)', '0 <= @__i <= @__n', '@__n == lsel($h0, $h0.vec[$1][1]).len()', '$h.locv[@__range]', '$h.vec[@__range] == lsel($h0, $h0.vec[$1][1])', 'lwf($h, $h.vec[@__range])', 'gwf($h)', 'ok($h, @function, K_LispFunctionWrapper())', '$h.LispFunctionWrapper_Function[@function] == %s && %s > 0' % (FN, FN), '%s == @__i' % NI, MG('$h0', '$h', '@__i', XR, 'true'),
                'vwf($h, @result) && hv($h, @result) == macc(tr($h), tr($h0).len() as int, tr($h).len() as int, %s)' % XR]}})
    # apply: the function expression is evaluated, then it is called once with the elements of the list
    E0 = E(0)
    CALL = '{e}.c && {e}.a == efun($h1, {e0}) && {e}.s == $2 && {e}.xs =~= hxv($h1, lnow($h1, {a}, {e0}.m), espec($h1, {e0}))'.format(e=E(1), e0=E0, a=A(1))
    OKF = IS(0, A(0)) + ' && !%s.c && !%s.x' % (E0, E0)
    add('ApplyFcn', mode='any', part=30, rlimit=100, requires=REQ + ['gwf($h)'],
        raises=[(XE, '%s == 0 && %s != 2 || %s == 1 && %s && !%s.c && (%s.x || %s.y.t != 7 || !vlist(rval($h, %s))) || %s == 2 && %s && vlist(rval($h, %s)) && %s && %s.x' % (N, n, N, IS(0, A(0)), E0, E0, E0, A(1), N, OKF, A(1), CALL, E(1)))],
        ensures=['pre($h, $h1)', '%s == 2 && %s && %s && !%s.x && vlist(rval($h, %s))' % (N, OKF, CALL, E(1), A(1)), '$r == %s.r' % E(1)], tags=('P07',), ensures_raise=['pre($h, $h1)'],
        at={'after:LispInterpreter::EvalAst': ['assume(isfn2($h, $cr)); // ASSUME a function value holds a function', 'if $h0.vec[$1].len() > 1 { assume(lwf($h, lnow($h, $h0.vec[$1][1], $h.vec))); } // ASSUME elements of a list are valid objects'], 'FuncX': ['assert(hxs($h, $h.vec[$c1]) =~= hxv($h, lnow($h, $h0.vec[$1][1], ev($h0, $h, 0).m), espec($h, ev($h0, $h, 0))));'],
            'after:FuncX': ['assert(hxv($ch, lnow($ch, $h0.vec[$1][1], ev($h0, $ch, 0).m), espec($ch, ev($h0, $ch, 0))) =~= hxv($h, lnow($h, $h0.vec[$1][1], ev($h0, $ch, 0).m), espec($h, ev($h0, $ch, 0))));']},
        loops={'ApplyFcn:1': {'inv': ['grow($hl, $h)', 'keepo($hl, $h)', 'quiet($hl, $h)', 'gwf($h)', 'fargs($h, $1)', '$h.vec[$1] == $h0.vec[$1]', 'ok($h, $2, K_LispScope())', 'ok($h, @argumentsArray, K_vec()) && $h.locv[@argumentsArray]', '0 <= @i <= $hl.vec[@argumentsArray].len()', '$h.vec[@argumentsArray].len() == $hl.vec[@argumentsArray].len()', 'lwf($h, $h.vec[@argumentsArray])',
            'forall|k: int| #![trigger $h.vec[@argumentsArray][k]] 0 <= k < $hl.vec[@argumentsArray].len() ==> if k < @i { hx($h, $h.vec[@argumentsArray][k]) == asval(hx($hl, $hl.vec[@argumentsArray][k])) } else { $h.vec[@argumentsArray][k] == $hl.vec[@argumentsArray][k] }']}})
    return C
