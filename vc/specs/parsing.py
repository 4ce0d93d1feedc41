"""P03 reading of a program"""
from sym import Contract

TAGS = ('P03',)
FIELDS = {'LispScope_Tokens': 'Map<int,int>'}
NEEDS = ('reading', 'copies')
TEXT = '''
// ---- the tree of a program: atoms with their type, value and position, and lists
// (the name of a quote form has no position)
pub struct Atom { pub ty: int, pub v: Val, pub pos: bool, pub line: int, pub start: int, pub stop: int }
pub enum Tree { A(Atom), L(Seq<Tree>) }
// a token: its kind and the atom it stands for
pub struct Tk { pub kind: int, pub at: Atom }
pub open spec fn atype(h: H, t: int) -> int { if h.LispToken_Type[t] == 13 { 1 } else if h.LispToken_Type[t] == 2 { 8 } else { typeof_(h.object_m_Type[h.LispToken_Value[t]]) } }
pub open spec fn aobval(h: H, ty: int, o: int) -> Val { if ty == 1 { Val::N(0) } else { obval(h, o) } }
pub open spec fn tka(h: H, t: int) -> Tk { Tk { kind: h.LispToken_Type[t], at: Atom { ty: atype(h, t), v: aobval(h, atype(h, t), h.LispToken_Value[t]), pos: true, line: h.LispToken_LineNo[t], start: h.LispToken_StartPos[t], stop: h.LispToken_StopPos[t] } } }
pub open spec fn tks(h: H, x: Seq<int>) -> Seq<Tk> { Seq::new(x.len(), |k: int| tka(h, x[k])) }
#[verifier::opaque]
pub open spec fn toksok(h: H, x: Seq<int>) -> bool { forall|k: int| #![trigger x[k]] 0 <= k < x.len() ==> tokwf(h, x[k]) }
// ---- reading: one expression from position i on, and the position behind it
pub enum Rd { No, Yes(Tree, int) }
pub open spec fn isquote(k: int) -> bool { 6 <= k <= 9 }
pub open spec fn qname(k: int) -> Tree { Tree::A(Atom { ty: 8, v: Val::S(if k == 6 { LIT("quote") } else if k == 7 { LIT("quasiquote") } else if k == 8 { LIT("_unquote") } else { LIT("_unquotesplicing") }), pos: false, line: 0, start: 0, stop: 0 }) }
pub open spec fn quoted(k: int, r: Rd) -> Rd { match r { Rd::Yes(t, j) => Rd::Yes(Tree::L(seq![qname(k), t]), j), x => x } }
#[verifier::opaque]
pub open spec fn rd(ts: Seq<Tk>, i: int) -> Rd decreases ts.len() - i, 0int {
    if i < 0 || i >= ts.len() { Rd::No } else {
        let k = ts[i].kind;
        if k == 12 { rd(ts, i + 1) } else if k == 0 { rdl(ts, i + 1, Seq::empty()) } else if k == 1 { Rd::No } else if isquote(k) { quoted(k, rd(ts, i + 1)) } else { Rd::Yes(Tree::A(ts[i].at), i + 1) }
    }
}
// the rest of a list, behind the elements acc
#[verifier::opaque]
pub open spec fn rdl(ts: Seq<Tk>, i: int, acc: Seq<Tree>) -> Rd decreases ts.len() - i, 1int {
    if i < 0 || i >= ts.len() { Rd::No } else if ts[i].kind == 12 { rdl(ts, i + 1, acc) } else if ts[i].kind == 1 { Rd::Yes(Tree::L(acc), i + 1) }
    else { match rd(ts, i) { Rd::Yes(t, j) => if j <= i || j > ts.len() { Rd::No } else { rdl(ts, j, acc.push(t)) }, x => x } }
}
#[verifier::opaque]
pub open spec fn onlycomments(ts: Seq<Tk>, i: int) -> bool { forall|k: int| #![trigger ts[k]] i <= k < ts.len() ==> ts[k].kind == 12 }
// a program: one list, with comments before and behind it
#[verifier::opaque]
pub open spec fn rdp(ts: Seq<Tk>, i: int) -> Rd decreases ts.len() - i {
    if i < 0 || i >= ts.len() { Rd::No } else if ts[i].kind == 12 { rdp(ts, i + 1) } else if ts[i].kind == 0 { rdend(ts, rd(ts, i)) } else { Rd::No }
}
pub open spec fn rdend(ts: Seq<Tk>, r: Rd) -> Rd { match r { Rd::Yes(t, j) => if onlycomments(ts, j) { r } else { Rd::No }, x => x } }
pub open spec fn rdt(ts: Seq<Tk>, i: int, top: bool) -> Rd { if top { rdp(ts, i) } else { rd(ts, i) } }
// reading goes forward
pub proof fn lemma_rd(ts: Seq<Tk>, i: int) ensures rd(ts, i) is Yes ==> i < rd(ts, i)->Yes_1 <= ts.len() decreases ts.len() - i, 0int {
    reveal(rd); reveal(rdl); if 0 <= i < ts.len() { let k = ts[i].kind; if k == 12 || isquote(k) { lemma_rd(ts, i + 1); } else if k == 0 { lemma_rdl(ts, i + 1, Seq::empty()); } }
}
pub proof fn lemma_rdl(ts: Seq<Tk>, i: int, acc: Seq<Tree>) ensures rdl(ts, i, acc) is Yes ==> i < rdl(ts, i, acc)->Yes_1 <= ts.len() decreases ts.len() - i, 1int {
    reveal(rd); reveal(rdl); if 0 <= i < ts.len() { if ts[i].kind == 12 { lemma_rdl(ts, i + 1, acc); } else if ts[i].kind != 1 { lemma_rd(ts, i); match rd(ts, i) { Rd::Yes(t, j) => { lemma_rdl(ts, j, acc.push(t)); }, x => {} } } }
}
// the rest of the reading with the open lists g (the elements read so far of each, innermost last)
pub open spec fn into(g: Seq<Seq<Tree>>, t: Tree) -> Seq<Seq<Tree>> { g.drop_last().push(g.last().push(t)) }
#[verifier::opaque]
pub open spec fn unwind(ts: Seq<Tk>, i: int, g: Seq<Seq<Tree>>) -> Rd decreases g.len() {
    if g.len() == 0 { Rd::No } else { match rdl(ts, i, g.last()) { Rd::Yes(t, j) => if g.len() == 1 { Rd::Yes(t, j) } else { unwind(ts, j, into(g.drop_last(), t)) }, x => x } }
}
#[verifier::opaque]
pub open spec fn todo(ts: Seq<Tk>, i: int, g: Seq<Seq<Tree>>, top: bool) -> Rd { if g.len() == 0 { rdt(ts, i, top) } else if top { rdend(ts, unwind(ts, i, g)) } else { unwind(ts, i, g) } }
// one token at a time
pub proof fn lemma_unwind(ts: Seq<Tk>, i: int, g: Seq<Seq<Tree>>) requires 0 <= i < ts.len(), g.len() > 0
    ensures ({  let k = ts[i].kind; let u = unwind(ts, i, g);
        if k == 12 { u == unwind(ts, i + 1, g) } else if k == 0 { u == unwind(ts, i + 1, g.push(Seq::empty())) } else if k == 1 { u == (if g.len() == 1 { Rd::Yes(Tree::L(g[0]), i + 1) } else { unwind(ts, i + 1, into(g.drop_last(), Tree::L(g.last()))) }) }
        else if isquote(k) { match rd(ts, i + 1) { Rd::Yes(t, j) => i + 1 < j <= ts.len() && u == unwind(ts, j, into(g, Tree::L(seq![qname(k), t]))), x => u is No } }
        else { u == unwind(ts, i + 1, into(g, Tree::A(ts[i].at))) } })
{ reveal(rd); reveal(rdl); reveal(unwind);
    let k = ts[i].kind;
    lemma_rd(ts, i); lemma_rd(ts, i + 1);
    assert forall|t: Tree| #![trigger into(g, t)] true implies into(g, t).last() == g.last().push(t) && into(g, t).len() == g.len() && into(g, t).drop_last() == g.drop_last() by { assert(into(g, t).drop_last() =~= g.drop_last()); }
    let e = g.push(Seq::empty());
    assert(e.drop_last() =~= g && e.last() == Seq::<Tree>::empty());
    reveal_with_fuel(unwind, 3);
    if g.len() == 1 { assert(g.last() == g[0]); }
    if k == 0 { match rd(ts, i) { Rd::Yes(t, j) => { assert(rdl(ts, i + 1, Seq::empty()) == rd(ts, i)); assert(unwind(ts, i + 1, e) == unwind(ts, j, into(g, t))); }, x => {} } }
}
pub proof fn lemma_todo(ts: Seq<Tk>, i: int, g: Seq<Seq<Tree>>, top: bool) requires 0 <= i < ts.len()
    ensures ({  let k = ts[i].kind; let u = todo(ts, i, g, top);
        if k == 12 { u == todo(ts, i + 1, g, top) } else if k == 0 { u == todo(ts, i + 1, g.push(Seq::empty()), top) }
        else if k == 1 { if g.len() == 0 { u is No } else if g.len() == 1 { u == (if top && !onlycomments(ts, i + 1) { Rd::No } else { Rd::Yes(Tree::L(g[0]), i + 1) }) } else { u == todo(ts, i + 1, into(g.drop_last(), Tree::L(g.last())), top) } }
        else if isquote(k) { match rd(ts, i + 1) { Rd::Yes(t, j) => i + 1 < j <= ts.len() && if g.len() > 0 { u == todo(ts, j, into(g, Tree::L(seq![qname(k), t])), top) } else if top { u is No } else { u == Rd::Yes(Tree::L(seq![qname(k), t]), j) }, x => u is No } }
        else if g.len() == 0 { if top { u is No } else { u == Rd::Yes(Tree::A(ts[i].at), i + 1) } } else { u == todo(ts, i + 1, into(g, Tree::A(ts[i].at)), top) } })
{ reveal(todo); reveal(rd); reveal(rdl); reveal(rdp); reveal(unwind);
    lemma_rd(ts, i + 1);
    if g.len() > 0 { lemma_unwind(ts, i, g); if g.len() > 1 { assert(into(g.drop_last(), Tree::L(g.last())).len() > 0); } }
    else { let e = g.push(Seq::empty()); assert(e.drop_last() =~= g && e.last() == Seq::<Tree>::empty()); assert(unwind(ts, i + 1, e) == rdl(ts, i + 1, Seq::empty())); }
}
// ---- the tree of an object in memory: its lists are not before lo and not among ex
#[verifier::opaque]
pub open spec fn ist(h: H, o: int, t: Tree, lo: int, ex: Seq<int>) -> bool decreases t {
    match t {
        Tree::A(a) => isatom(h, o, a),
        Tree::L(s) => powf(h, o) && h.object_m_Type[o] == 6 && lo <= h.DataType_pList[o] && !ex.contains(h.DataType_pList[o]) && h.vec[h.DataType_pList[o]].len() == s.len() && forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> ist(h, h.vec[h.DataType_pList[o]][k], s[k], lo, ex)
    }
}
pub open spec fn isatom(h: H, o: int, a: Atom) -> bool {
    let w = h.DataType_pVariant[o];
    let k = h.LispVariant_Token[w];
    powf(h, o) && h.object_m_Type[o] == 11 && h.LispVariant_Type[w] == a.ty && h.LispVariant_Value[w] != 0 && aobval(h, a.ty, h.LispVariant_Value[w]) == a.v && if !a.pos { k == 0 } else { ok(h, k, K_LispToken()) && h.LispToken_LineNo[k] == a.line && h.LispToken_StartPos[k] == a.start && h.LispToken_StopPos[k] == a.stop }
}
// the elements of a list in memory
#[verifier::opaque]
pub open spec fn isl(h: H, x: Seq<int>, s: Seq<Tree>, lo: int, ex: Seq<int>) -> bool { x.len() == s.len() && forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> ist(h, x[k], s[k], lo, ex) }
// nothing but the vectors ex has changed
pub open spec fn extx(h0: H, h1: H, ex: Seq<int>) -> bool { extv(h0, h1) && forall|v: int| #![trigger h1.vec[v]] 0 < v < h0.alloc && !ex.contains(v) ==> h1.vec[v] == h0.vec[v] }
pub open spec fn exnew(h0: H, ex: Seq<int>, ex1: Seq<int>, lo: int) -> bool { forall|k: int| #![trigger ex1[k]] 0 <= k < ex1.len() ==> ex.contains(ex1[k]) || ex1[k] >= h0.alloc || ex1[k] < lo }
pub proof fn lemma_ist(h0: H, h1: H, o: int, t: Tree, lo: int, ex: Seq<int>, lo1: int, ex1: Seq<int>) requires ist(h0, o, t, lo, ex), extx(h0, h1, ex), exnew(h0, ex, ex1, lo), lo1 <= lo ensures ist(h1, o, t, lo1, ex1) decreases t {
    reveal(ist);
    match t { Tree::A(a) => { lemma_powf(h0, h1, o); lemma_isatom(h0, h1, o, a); }, Tree::L(s) => {
        lemma_powf(h0, h1, o);
        let p = h0.DataType_pList[o]; let hh = H { vec: h0.vec, ..h1 };
        assert(hh.DataType_pList[o] == p && hh.object_m_Type[o] == 6);
        assert(h1.vec[p] == h0.vec[p]);
        if ex1.contains(p) { let k = choose|k: int| 0 <= k < ex1.len() && ex1[k] == p; assert(ex1[k] == p); }
        assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies ist(h1, h1.vec[p][k], s[k], lo1, ex1) by { lemma_ist(h0, h1, h0.vec[p][k], s[k], lo, ex, lo1, ex1); }
    } }
}
pub proof fn lemma_okv(h0: H, h1: H, v: int) requires ok(h0, v, K_vec()), extv(h0, h1) ensures ok(h1, v, K_vec()) { let hh = H { vec: h0.vec, ..h1 }; assert(ok(hh, v, K_vec())); }
pub proof fn lemma_powf(h0: H, h1: H, o: int) requires powf(h0, o), extv(h0, h1) ensures powf(h1, o) { let hh = H { vec: h0.vec, ..h1 }; assert(powf(hh, o)); }
pub proof fn lemma_isatom(h0: H, h1: H, o: int, a: Atom) requires isatom(h0, o, a), extv(h0, h1) ensures isatom(h1, o, a) { let hh = H { vec: h0.vec, ..h1 }; assert(isatom(hh, o, a)); }
pub proof fn lemma_isl(h0: H, h1: H, x: Seq<int>, s: Seq<Tree>, lo: int, ex: Seq<int>, lo1: int, ex1: Seq<int>) requires isl(h0, x, s, lo, ex), extx(h0, h1, ex), exnew(h0, ex, ex1, lo), lo1 <= lo ensures isl(h1, x, s, lo1, ex1) {
    reveal(isl);
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies ist(h1, x[k], s[k], lo1, ex1) by { lemma_ist(h0, h1, x[k], s[k], lo, ex, lo1, ex1); }
}
pub proof fn lemma_tks(h0: H, h1: H, x: Seq<int>) requires extv(h0, h1), toksok(h0, x) ensures tks(h1, x) == tks(h0, x), toksok(h1, x) {
    reveal(toksok);
    let hh = H { vec: h0.vec, ..h1 };
    assert forall|k: int| #![trigger x[k]] 0 <= k < x.len() implies tokwf(h1, x[k]) && tka(h1, x[k]) == tka(h0, x[k]) by { assert(tokwf(h0, x[k])); assert(tokwf(hh, x[k])); assert(tka(hh, x[k]) == tka(h0, x[k])); }
    assert(tks(h1, x) =~= tks(h0, x));
}
// the open lists st (all of them new, different, not the stack q itself) hold the elements g
#[verifier::opaque]
pub open spec fn open(h: H, q: int, lo: int, g: Seq<Seq<Tree>>) -> bool {
    let st = h.vec[q];
    let ex = st.push(q);
    ok(h, q, K_vec()) && q >= lo && st.len() == g.len() && (forall|k: int| #![trigger st[k]] 0 <= k < st.len() ==> ok(h, st[k], K_vec()) && lo <= st[k] && st[k] != q) && (forall|j: int, k: int| #![trigger st[j], st[k]] 0 <= j < k < st.len() ==> st[j] != st[k])
    && forall|k: int| #![trigger g[k]] 0 <= k < g.len() ==> isl(h, h.vec[st[k]], g[k], lo, ex)
}
#[verifier::opaque]
pub open spec fn pstate(h: H, q: int, lo: int, g: Seq<Seq<Tree>>, ts: Seq<Tk>, i: int, top: bool, target: Rd) -> bool { open(h, q, lo, g) && todo(ts, i, g, top) == target }
// a new list
pub proof fn lemma_open_new(ho: H, h: H, q: int, lo: int, g: Seq<Seq<Tree>>, c: int)
    requires open(ho, q, lo, g), lo <= ho.alloc <= c, c != q, ok(h, c, K_vec()), extv(ho, h), forall|v: int| #![trigger h.vec[v]] 0 < v < ho.alloc && v != q ==> h.vec[v] == ho.vec[v], h.vec[q] == ho.vec[q].push(c), h.vec[c].len() == 0
    ensures open(h, q, lo, g.push(Seq::empty()))
{ reveal(open); reveal(isl); lemma_okv(ho, h, q); 
    let st = ho.vec[q]; let ex = st.push(q); let st1 = h.vec[q]; let ex1 = st1.push(q); let g1 = g.push(Seq::empty());
    assert forall|k: int| #![trigger ex1[k]] 0 <= k < ex1.len() implies ex.contains(ex1[k]) || ex1[k] >= ho.alloc || ex1[k] < lo by { if k < st.len() { assert(ex[k] == ex1[k]); } else if k == st.len() { } else { assert(ex[st.len() as int] == q); } }
    assert(ex[st.len() as int] == q); assert(st1 == st.push(c));
    assert forall|k: int| #![trigger g1[k]] 0 <= k < g1.len() implies isl(h, h.vec[st1[k]], g1[k], lo, ex1) by { if k < g.len() { assert(st1[k] == st[k]); assert(isl(ho, ho.vec[st[k]], g[k], lo, ex)); assert(h.vec[st[k]] == ho.vec[st[k]]); lemma_isl(ho, h, ho.vec[st[k]], g[k], lo, ex, lo, ex1); } }
    assert forall|k: int| #![trigger st1[k]] 0 <= k < st1.len() implies ok(h, st1[k], K_vec()) && lo <= st1[k] && st1[k] != q by { if k < st.len() { assert(st1[k] == st[k]); assert(ok(ho, st[k], K_vec())); assert(lo <= st[k] && st[k] != q); lemma_okv(ho, h, st[k]); } else { assert(st1.len() == st.len() + 1); assert(k == st.len()); assert(st.push(c)[k] == c); assert(st1[k] == c); assert(c != q); assert(ok(h, c, K_vec())); } }
    assert forall|j: int, k: int| #![trigger st1[j], st1[k]] 0 <= j < k < st1.len() implies st1[j] != st1[k] by { if k < st.len() { assert(st[j] != st[k]); } else { assert(st1[j] == st[j]); assert(ok(ho, st[j], K_vec())); } }
}
// the innermost list has a further element
pub proof fn lemma_open_push(ho: H, h: H, q: int, lo: int, g: Seq<Seq<Tree>>, t: Tree, o: int)
    requires open(ho, q, lo, g), g.len() > 0, lo <= ho.alloc, extv(ho, h), forall|v: int| #![trigger h.vec[v]] 0 < v < ho.alloc && v != ho.vec[q].last() ==> h.vec[v] == ho.vec[v], h.vec[ho.vec[q].last()] == ho.vec[ho.vec[q].last()].push(o), ist(h, o, t, lo, ho.vec[q].push(q))
    ensures open(h, q, lo, into(g, t))
{ reveal(open); reveal(isl); lemma_okv(ho, h, q); 
    let st = ho.vec[q]; let ex = st.push(q); let g1 = into(g, t); let n = st.len() - 1;
    assert(st[n] == st.last() && st[n] != q);
    assert(h.vec[q] == st);
    assert(ex[n] == st[n]);
    assert forall|k: int| #![trigger ex[k]] 0 <= k < ex.len() implies ex.contains(ex[k]) by { }
    assert forall|k: int| #![trigger g1[k]] 0 <= k < g1.len() implies isl(h, h.vec[st[k]], g1[k], lo, ex) by {
        assert(isl(ho, ho.vec[st[k]], g[k], lo, ex));
        lemma_isl(ho, h, ho.vec[st[k]], g[k], lo, ex, lo, ex);
        if k < n { assert(st[k] != st[n]); assert(g1[k] == g[k]); assert(h.vec[st[k]] == ho.vec[st[k]]); } else {
            let x1 = h.vec[st[k]]; assert(g1[k] == g[k].push(t)); assert forall|m: int| #![trigger g1[k][m]] 0 <= m < g1[k].len() implies ist(h, x1[m], g1[k][m], lo, ex) by { if m < g[k].len() { assert(g1[k][m] == g[k][m]); assert(x1[m] == ho.vec[st[k]][m]); } }
        }
    }
    assert forall|k: int| #![trigger st[k]] 0 <= k < st.len() implies ok(h, st[k], K_vec()) && lo <= st[k] && st[k] != q by { assert(ok(ho, st[k], K_vec())); lemma_okv(ho, h, st[k]); }
}
// the innermost list is closed
pub proof fn lemma_open_pop(ho: H, h: H, q: int, lo: int, g: Seq<Seq<Tree>>)
    requires open(ho, q, lo, g), g.len() > 0, lo <= ho.alloc, extv(ho, h), forall|v: int| #![trigger h.vec[v]] 0 < v < ho.alloc && v != q ==> h.vec[v] == ho.vec[v], h.vec[q] == ho.vec[q].drop_last()
    ensures open(h, q, lo, g.drop_last()), isl(h, ho.vec[ho.vec[q].last()], g.last(), lo, ho.vec[q].push(q)), isl(h, ho.vec[ho.vec[q].last()], g.last(), lo, h.vec[q].push(q))
{ reveal(open); reveal(isl); lemma_okv(ho, h, q); 
    let st = ho.vec[q]; let ex = st.push(q); let st1 = h.vec[q]; let ex1 = st1.push(q); let g1 = g.drop_last(); let n = st.len() - 1;
    assert forall|k: int| #![trigger ex1[k]] 0 <= k < ex1.len() implies ex.contains(ex1[k]) by { if k < n { assert(ex[k] == ex1[k]); } else { assert(ex[n + 1] == q); } }
    assert(ex[n + 1] == q);
    assert forall|k: int| #![trigger ex[k]] 0 <= k < ex.len() implies ex.contains(ex[k]) by { }
    assert(isl(ho, ho.vec[st[n]], g[n], lo, ex));
    lemma_isl(ho, h, ho.vec[st[n]], g[n], lo, ex, lo, ex1);
    lemma_isl(ho, h, ho.vec[st[n]], g[n], lo, ex, lo, ex);
    assert forall|k: int| #![trigger g1[k]] 0 <= k < g1.len() implies isl(h, h.vec[st1[k]], g1[k], lo, ex1) by { assert(st1[k] == st[k]); assert(isl(ho, ho.vec[st[k]], g[k], lo, ex)); assert(st[k] != q); assert(ok(ho, st[k], K_vec())); lemma_isl(ho, h, ho.vec[st[k]], g[k], lo, ex, lo, ex1); }
    assert forall|k: int| #![trigger st1[k]] 0 <= k < st1.len() implies ok(h, st1[k], K_vec()) && lo <= st1[k] && st1[k] != q by { assert(st1[k] == st[k]); assert(ok(ho, st[k], K_vec())); lemma_okv(ho, h, st[k]); }
    assert forall|j: int, k: int| #![trigger st1[j], st1[k]] 0 <= j < k < st1.len() implies st1[j] != st1[k] by { assert(st[j] != st[k]); }
}
// nothing about open lists has changed
pub proof fn lemma_open(ho: H, h: H, q: int, lo: int, g: Seq<Seq<Tree>>) requires open(ho, q, lo, g), ext(ho, h) ensures open(h, q, lo, g) {
    reveal(open); reveal(isl); lemma_okv(ho, h, q);
    let st = ho.vec[q]; let ex = st.push(q);
    assert forall|k: int| #![trigger ex[k]] 0 <= k < ex.len() implies ex.contains(ex[k]) by { }
    assert forall|k: int| #![trigger g[k]] 0 <= k < g.len() implies isl(h, h.vec[st[k]], g[k], lo, ex) by { assert(ok(ho, st[k], K_vec())); lemma_isl(ho, h, ho.vec[st[k]], g[k], lo, ex, lo, ex); }
    assert forall|k: int| #![trigger st[k]] 0 <= k < st.len() implies ok(h, st[k], K_vec()) && lo <= st[k] && st[k] != q by { assert(ok(ho, st[k], K_vec())); lemma_okv(ho, h, st[k]); }
}
pub open spec fn below(ex: Seq<int>, n: int) -> bool { forall|k: int| #![trigger ex[k]] 0 <= k < ex.len() ==> ex[k] < n }
pub open spec fn rng(a: int, b: int) -> Seq<int> { Seq::new(if a < b { (b - a) as nat } else { 0 }, |i: int| a + i) }
// a copy of an object has the same tree
pub proof fn lemma_copy(hq: H, hc: H, h: H, o: int, w: int, t: Tree, lo: int, ex: Seq<int>)
    requires ist(hq, o, t, lo, ex), extx(hq, hc, ex), extx(hq, h, ex), ocopy(hc, o, h, w), powf(h, w), below(ex, hq.alloc), lo <= hq.alloc <= hc.alloc, h.object_m_Type[w] == 6 ==> payload(h, w) >= hc.alloc
    ensures ist(h, w, t, lo, ex)
{ reveal(ist); reveal(isl); 
    assert forall|k: int| #![trigger ex[k]] 0 <= k < ex.len() implies ex.contains(ex[k]) by { }
    lemma_ist(hq, hc, o, t, lo, ex, lo, ex); lemma_ist(hq, h, o, t, lo, ex, lo, ex);
    match t { Tree::A(a) => {
        let p = hq.DataType_pVariant[o]; let h1 = H { vec: hq.vec, ..h }; let h2 = H { vec: hq.vec, ..hc };
        assert(h1.DataType_pVariant[o] == p && h2.DataType_pVariant[o] == p); assert(h1.LispVariant_Value[p] == hq.LispVariant_Value[p] && h2.LispVariant_Value[p] == hq.LispVariant_Value[p]); assert(h1.LispVariant_Token[p] == hq.LispVariant_Token[p] && h2.LispVariant_Token[p] == hq.LispVariant_Token[p]);
        assert(isatom(h, o, a)); assert(isatom(hc, o, a)); assert(isatom(h, w, a));
    }, Tree::L(s) => {
        let p = h.DataType_pList[w];
        if ex.contains(p) { let k = choose|k: int| 0 <= k < ex.len() && ex[k] == p; assert(ex[k] == p); }
        let x = h.vec[p];
        let h1 = H { vec: hq.vec, ..h }; let h2 = H { vec: hq.vec, ..hc };
        assert(h1.DataType_pList[o] == hq.DataType_pList[o] && h2.DataType_pList[o] == hq.DataType_pList[o]);
        assert(x == hc.vec[hc.DataType_pList[o]]);
        assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies ist(h, x[k], s[k], lo, ex) by { assert(hc.DataType_pList[o] == hq.DataType_pList[o]); lemma_ist(hq, h, x[k], s[k], lo, ex, lo, ex); }
    } }
}
// an object made of a list
pub proof fn lemma_mklist(hq: H, hc: H, h: H, v: int, w: int, x: Seq<int>, s: Seq<Tree>, lo: int, ex: Seq<int>)
    requires isl(hq, x, s, lo, ex), extx(hq, hc, ex), extx(hq, h, ex), hc.vec[v] == x, h.object_m_Type[w] == 6, h.vec[h.DataType_pList[w]] == x, powf(h, w), below(ex, hq.alloc), lo <= hq.alloc <= hc.alloc, payload(h, w) >= hc.alloc
    ensures ist(h, w, Tree::L(s), lo, ex)
{ reveal(ist); reveal(isl); 
    assert forall|k: int| #![trigger ex[k]] 0 <= k < ex.len() implies ex.contains(ex[k]) by { }
    let p = h.DataType_pList[w];
    if ex.contains(p) { let k = choose|k: int| 0 <= k < ex.len() && ex[k] == p; assert(ex[k] == p); }
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies ist(h, x[k], s[k], lo, ex) by { lemma_ist(hq, h, x[k], s[k], lo, ex, lo, ex); }
}
pub proof fn lemma_rng(ho: H, hb: H, q: int, lo: int, g: Seq<Seq<Tree>>) requires open(ho, q, lo, g), ho.alloc <= hb.alloc
    ensures ({  let ex = ho.vec[q].push(q); let exq = ex + rng(ho.alloc, hb.alloc); below(ex, ho.alloc) && below(exq, hb.alloc) && exnew(ho, ex, exq, lo) && exnew(ho, ex, ex, lo) && exnew(ho, exq, ex, lo) && exnew(ho, exq, exq, lo)
        && (forall|v: int| #![trigger exq.contains(v)] exq.contains(v) <==> ex.contains(v) || ho.alloc <= v < hb.alloc) && (forall|v: int| #![trigger ex.contains(v)] ex.contains(v) <==> v == q || ho.vec[q].contains(v)) })
{ reveal(open); reveal(isl);
    let st = ho.vec[q]; let ex = st.push(q); let r = rng(ho.alloc, hb.alloc); let exq = ex + r;
    assert forall|k: int| #![trigger ex[k]] 0 <= k < ex.len() implies ex[k] < ho.alloc && ex.contains(ex[k]) by { if k < st.len() { assert(ok(ho, st[k], K_vec())); } }
    assert forall|k: int| #![trigger exq[k]] 0 <= k < exq.len() implies exq[k] < hb.alloc && exq.contains(exq[k]) && (ex.contains(exq[k]) || exq[k] >= ho.alloc) by { if k < ex.len() { assert(exq[k] == ex[k]); } else { assert(exq[k] == r[k - ex.len()]); } }
    assert forall|v: int| #![trigger exq.contains(v)] exq.contains(v) <==> ex.contains(v) || ho.alloc <= v < hb.alloc by {
        if ex.contains(v) { let k = choose|k: int| 0 <= k < ex.len() && ex[k] == v; assert(exq[k] == v); }
        if ho.alloc <= v < hb.alloc { assert(exq[ex.len() + v - ho.alloc] == v); }
        if exq.contains(v) { let k = choose|k: int| 0 <= k < exq.len() && exq[k] == v; if k < ex.len() { assert(ex[k] == v); } else { assert(exq[k] == r[k - ex.len()]); } }
    }
    assert forall|v: int| #![trigger ex.contains(v)] ex.contains(v) <==> v == q || st.contains(v) by {
        if st.contains(v) { let k = choose|k: int| 0 <= k < st.len() && st[k] == v; assert(ex[k] == v); } if v == q { assert(ex[st.len() as int] == q); }
        if ex.contains(v) { let k = choose|k: int| 0 <= k < ex.len() && ex[k] == v; if k < st.len() { assert(st[k] == v); } }
    }
}
// what the code needs to know of the open lists
pub proof fn lemma_open0(h: H, q: int, lo: int, g: Seq<Seq<Tree>>) requires open(h, q, lo, g)
    ensures ok(h, q, K_vec()), q >= lo, h.vec[q].len() == g.len(), (forall|k: int| #![trigger h.vec[q][k]] 0 <= k < g.len() ==> ok(h, h.vec[q][k], K_vec()) && h.vec[q][k] >= lo && h.vec[q][k] != q), g.len() > 0 ==> ({ let v = h.vec[q][g.len() - 1]; v == h.vec[q].last() && ok(h, v, K_vec()) && v >= lo && v != q && g.last() == g[g.len() - 1] && h.vec[v].len() == g.last().len() && isl(h, h.vec[v], g.last(), lo, h.vec[q].push(q)) })
{ reveal(open); reveal(isl); let st = h.vec[q]; if g.len() > 0 { assert(st[g.len() - 1] == st.last()); assert(isl(h, h.vec[st[g.len() - 1]], g[g.len() - 1], lo, st.push(q))); } }
pub proof fn lemma_open_none(h: H, q: int, lo: int) requires ok(h, q, K_vec()), q >= lo, h.vec[q].len() == 0 ensures open(h, q, lo, Seq::empty()) { reveal(open); }
pub proof fn lemma_atom(h: H, o: int, a: Atom, lo: int, ex: Seq<int>) requires isatom(h, o, a) ensures ist(h, o, Tree::A(a), lo, ex) { reveal(ist); }
pub proof fn lemma_isl2(h: H, x: Seq<int>, a: Tree, b: Tree, lo: int, ex: Seq<int>) requires x.len() == 2, ist(h, x[0], a, lo, ex), ist(h, x[1], b, lo, ex) ensures isl(h, x, seq![a, b], lo, ex) { reveal(isl); }
pub proof fn lemma_todo0(ts: Seq<Tk>, i: int, top: bool) ensures todo(ts, i, Seq::empty(), top) == rdt(ts, i, top) { reveal(todo); }
// at the end of the text
pub proof fn lemma_end(ts: Seq<Tk>, i: int, g: Seq<Seq<Tree>>, top: bool) requires i >= ts.len() ensures todo(ts, i, g, top) is No { reveal(todo); reveal(rd); reveal(rdl); reveal(rdp); reveal(unwind); }
pub proof fn lemma_ist0(h: H, o: int, t: Tree, lo: int, ex: Seq<int>) requires ist(h, o, t, lo, ex) ensures powf(h, o) { reveal(ist); }
pub proof fn lemma_atomex(h: H, o: int, a: Atom, lo: int, ex: Seq<int>, ex1: Seq<int>) requires ist(h, o, Tree::A(a), lo, ex) ensures ist(h, o, Tree::A(a), lo, ex1) { reveal(ist); }
pub proof fn lemma_nocomment(ts: Seq<Tk>, i: int) requires i >= ts.len() ensures onlycomments(ts, i) { reveal(onlycomments); }
// the tokens of a program text as the reader sees them
pub open spec fn tkof(k: Tok) -> Tk {
    let t = tkind(k.text);
    let ty = if t == 13 { 1int } else if t == 2 { 8 } else { match tval(k.text) { Val::I(i) => 3, Val::F(d) => 4, Val::B(b) => 2, _ => 5 } };
    Tk { kind: t, at: Atom { ty: ty, v: if ty == 1 { Val::N(0) } else { tval(k.text) }, pos: true, line: k.line, start: k.start, stop: k.stop } }
}
pub open spec fn tkseq(y: Seq<Tok>) -> Seq<Tk> { Seq::new(y.len(), |k: int| tkof(y[k])) }
pub proof fn lemma_tkof(h: H, t: int, k: Tok) requires tokm(h, t, k) ensures tka(h, t) == tkof(k) { }
pub proof fn lemma_tkseq(h: H, x: Seq<int>, y: Seq<Tok>) requires toksm(h, x, Lex::Ok(y), Lex::Ok(Seq::empty())) ensures tks(h, x) == tkseq(y), toksok(h, x) {
    reveal(toksok);
    assert(x.len() == y.len()) by { let z = y.subrange(x.len() as int, y.len() as int); assert(z =~= Seq::<Tok>::empty()); assert(z.len() == y.len() - x.len()); }
    assert forall|k: int| #![trigger x[k]] 0 <= k < x.len() implies tokwf(h, x[k]) && tka(h, x[k]) == tkof(y[k]) by { assert(tokm(h, x[k], y[k])); lemma_tkof(h, x[k], y[k]); }
    assert(tks(h, x) =~= tkseq(y));
}
// reading of a program text
pub open spec fn rdtext(s: Seq<int>, off: int) -> Rd { match lex(s, off) { Lex::Bad => Rd::No, Lex::Ok(y) => rdp(tkseq(y), 0) } }
pub proof fn lemma_pstate(h: H, q: int, lo: int, g: Seq<Seq<Tree>>, ts: Seq<Tk>, i: int, top: bool, target: Rd) requires open(h, q, lo, g), todo(ts, i, g, top) == target ensures pstate(h, q, lo, g, ts, i, top, target) { reveal(pstate); }
pub proof fn lemma_pstate0(h: H, q: int, lo: int, g: Seq<Seq<Tree>>, ts: Seq<Tk>, i: int, top: bool, target: Rd) requires pstate(h, q, lo, g, ts, i, top, target) ensures open(h, q, lo, g), todo(ts, i, g, top) == target { reveal(pstate); }
pub proof fn lemma_tokat(h: H, x: Seq<int>, i: int) requires toksok(h, x), 0 <= i < x.len() ensures tokwf(h, x[i]), tks(h, x)[i] == tka(h, x[i]) { reveal(toksok); }
'''


def contracts():
    C = []
    add = lambda *a, **k: C.append(Contract(*a, **k))
    P = ('P03',)
    add('LispParser::OnlyCommentTokensFrom', mode='pure', requires=['ok($h, $1, K_vec())', 'toksok($h, $h.vec[$1])', '0 <= $2'], result='onlycomments(tks($h, $h.vec[$1]), $2)', tags=P,
        loops={'LispParser::OnlyCommentTokensFrom:1': {'inv': ['$2 <= @n', '$h == $h0', 'forall|k: int| #![trigger $h.vec[$1][k]] $2 <= k < @n && k < $h.vec[$1].len() ==> $h.LispToken_Type[$h.vec[$1][k]] == 12'],
               'hint_top': ['if @n < $h.vec[$1].len() { assert(tks($h, $h.vec[$1])[@n].kind == $h.LispToken_Type[$h.vec[$1][@n]]); }']}},
        hints={'entry': ['reveal(onlycomments); reveal(toksok);']})
    TS = 'tks($h, $h.vec[$2])'
    Q = '@listStack'
    EX = '$h.vec[@listStack].push(@listStack)'
    R = 'rdt(%s, $3, $5)' % TS
    VNEW = ['LispVariant_%s@$self' % f for f in ('Type', 'Value', 'Token', 'IsUnQuoted', 'CachedFunction')]
    add('LispVariant::LispVariant', key='LispVariant(token)', types=['shared_ptr<LispToken>', 'LispUnQuoteModus'], nparams=2, requires=['tokwf($h, $1)'], modifies=VNEW,
        ensures=['vwf($h1, $self)', '$h1.LispVariant_Type[$self] == atype($h, $1)', '$h1.LispVariant_Value[$self] == $h.LispToken_Value[$1]', '$h1.LispVariant_Token[$self] == $1', '$h1.LispVariant_IsUnQuoted[$self] == $2'], tags=P)
    PS = 'pstate($h, @listStack, $h0.alloc, %s, ts, @i as int, $5, rdt(ts, $3, $5))'
    add('LispParser::ParseTokens', requires=['ok($h, $2, K_vec())', 'toksok($h, $h.vec[$2])', '0 <= $3', '$3 <= 0x8000_0000'], out=[4], raises=[('LispException', 'rdt(%s, $3, $5) is No' % TS)],
        ensures=['%s is Yes' % R, '$r == %s->Yes_1 - 1' % R, 'ist($h1, $o4, %s->Yes_0, $h.alloc, Seq::empty())' % R], tags=P, part=10, rlimit=1000,
        hints={'exit': ['lemma_ist(hq, $h1, rq, tq, lo, exq, lo, Seq::empty());'], 'entry': ['let ghost ts = %s; assume(ts.len() <= 0x7fff_ffff); // ASSUME a program has less than 2^31 tokens' % TS]},
        # ghost state: rq is the object that was read here, in heap hq, with tree tq; rs (in heap hs) the name of the quote form
        at={'LispParser::ParseTokens': ['let ghost hb = $h; lemma_tks($h0, hb, $h0.vec[$2]);'], 'LispParser::OnlyCommentTokensFrom': ['lemma_tks($h0, $h, $h0.vec[$2]);'],
            'after:LispParser::ParseTokens': ['let ghost hq = $h; let ghost rq = $co4; let ghost tq = t1; let ghost exq = ex + rng(ho.alloc, hb.alloc); lemma_tks($h0, hq, $h0.vec[$2]); lemma_rng(ho, hb, q, $h0.alloc, g);',
                                              'lemma_ist(hq, hq, rq, tq, hb.alloc, Seq::empty(), lo, exq); lemma_ist0(hq, rq, tq, lo, exq); lemma_atomex(hs, rs, qname(kk)->A_0, lo, ex, exq);'],
            'after:object(variant)': ['if isquote(kk) { assert(isatom($h, $cself, qname(kk)->A_0)); lemma_atom($h, $cself, qname(kk)->A_0, lo, exq); } let ghost hs = if isquote(kk) { $h } else { hs }; let ghost rs = if isquote(kk) { $cself } else { rs };',
                                      'if !isquote(kk) { assert(isatom($h, $cself, ts[ii].at)); lemma_atom($h, $cself, ts[ii].at, lo, exq); } let ghost hq = if isquote(kk) { hq } else { $h }; let ghost rq = if isquote(kk) { rq } else { $cself };'],
            'after:object(copy)': ['if $c1 == rq { lemma_copy(hq, $ch, $h, rq, $cself, tq, lo, exq); } else if $c1 == rs && rq == 0 { lemma_copy(hs, $ch, $h, rs, $cself, qname(kk), lo, exq); }',
                                   'let ghost hq = if $c1 == rq { $h } else { hq }; let ghost hs = if $c1 == rs && rq == 0 { $h } else { hs }; let ghost rs = if $c1 == rs && rq == 0 { $cself } else { rs }; let ghost rq = if $c1 == rq { $cself } else { rq };'],
            'after:object(list)': ['let ghost xq = $ch.vec[$c1]; let ghost sq = if kk == 1 { g.last() } else { seq![qname(kk), tq] };',
                                   'if kk == 1 { assert($c1 == st[g.len() - 1]); assert(xq == ho.vec[$c1]); }', 'if kk != 1 { assert(xq.len() == 2); }', 'if kk != 1 { assert(xq[1] == rq); }', 'if kk != 1 { assert(xq[0] == rs); }', 'if kk != 1 { lemma_ist(hs, hq, rs, qname(kk), lo, exq, lo, exq); lemma_isl2(hq, xq, qname(kk), tq, lo, exq); }',
                                   'lemma_mklist(hq, $ch, $h, $c1, $cself, xq, sq, lo, exq);', 'let ghost hq = $h; let ghost rq = $cself; let ghost tq = Tree::L(sq);']},
        loops={'LispParser::ParseTokens:1': {
            'inv': ['$3 <= @i', '$3 <= $h0.vec[$2].len() ==> @i <= $h0.vec[$2].len()', 'ext($h0, $h)', 'exists|g: Seq<Seq<Tree>>| #[trigger] ' + PS % 'g', '@listStack >= $h0.alloc', '@current == (if $h.vec[@listStack].len() > 0 { $h.vec[@listStack].last() } else { 0 })'],
            'hint_entry': ['lemma_open_none($h, @listStack, $h0.alloc); lemma_todo0(ts, $3, $5); lemma_' + PS % 'Seq::empty()' + '; if $3 >= ts.len() { lemma_end(ts, $3, Seq::empty(), $5); }'],
            'hint_top': ['let ghost g = choose|g: Seq<Seq<Tree>>| #[trigger] ' + PS % 'g' + '; let ghost ho = $h; let ghost q = @listStack; let ghost ii = @i as int; let ghost kk = if ii < ts.len() { ts[ii].kind } else { -1 }; let ghost lo = $h0.alloc; lemma_tks($h0, ho, $h0.vec[$2]);',
                         'lemma_pstate0(ho, q, lo, g, ts, ii, $5, rdt(ts, $3, $5)); if ii < ts.len() { lemma_todo(ts, ii, g, $5); lemma_tokat(ho, ho.vec[$2], ii); lemma_rd(ts, ii + 1); }', 'let ghost st = ho.vec[q]; let ghost ex = st.push(q); let ghost t1 = rd(ts, ii + 1)->Yes_0; let ghost hb = ho;',
                         'let ghost hq = ho; let ghost rq = 0int; let ghost tq = Tree::A(ts[ii].at); let ghost exq = ex; let ghost hs = ho; let ghost rs = 0int; lemma_rng(ho, ho, q, lo, g); lemma_open0(ho, q, lo, g); if ii + 1 >= ts.len() { lemma_nocomment(ts, ii + 1); }'],
            'hint_exit': ['lemma_end(ts, ii, g, $5);'],
            'hint_back': ['let ghost gn = if kk == 12 { g } else if kk == 0 { g.push(Seq::empty()) } else if kk == 1 { into(g.drop_last(), Tree::L(g.last())) } else if isquote(kk) { into(g, Tree::L(seq![qname(kk), t1])) } else { into(g, Tree::A(ts[ii].at)) };',
                          'if kk == 0 { lemma_open_new(ho, $h, q, lo, g, $h.vec[q].last()); }', 'let ghost hm = H { vec: ho.vec.insert(q, st.drop_last()), ..ho };',
                          'if kk == 1 { lemma_open_pop(ho, hm, q, lo, g); lemma_rng(hm, hm, q, lo, g.drop_last()); lemma_ist(hq, $h, rq, tq, lo, exq, lo, hm.vec[q].push(q)); lemma_open_push(hm, $h, q, lo, g.drop_last(), tq, rq); }',
                          'if kk != 0 && kk != 1 && kk != 12 { lemma_ist(hq, $h, rq, tq, lo, exq, lo, ex); lemma_open_push(ho, $h, q, lo, g, tq, rq); }', 'if kk == 12 { lemma_open(ho, $h, q, lo, g); }',
                          'assert(todo(ts, @i as int, gn, $5) == rdt(ts, $3, $5));',
                          'assert(open($h, q, $h0.alloc, gn));',
                          'lemma_' + PS % 'gn' + ';'],
        }})
    # a program text: its tokens, then the tree
    add('LispParser::Parse', requires=['$3 != 0 ==> ok($h, $3, K_LispScope()) && ok($h, $h.LispScope_Tokens[$3], K_vec())'], modifies=['vec@$h.LispScope_Tokens[$3]'], raises=[(('LispException', 'LispExceptionBase'), 'rdtext($1, $2) is No')],
        ensures=['rdtext($1, $2) is Yes', 'ist($h1, $r, rdtext($1, $2)->Yes_0, $h.alloc, Seq::empty())'], tags=P,
        at={'after:LispTokenizer::Tokenize': ['let ghost ht = $h; let ghost xt = $h.vec[$cr]; let ghost y = lex($1, $2)->Ok_0;'],
            'LispParser::ParseTokens': ['assert($h.vec[$c2] == xt);', 'lemma_toks(ht, $h, xt, lex($1, $2), Lex::Ok(Seq::empty())); lemma_tkseq($h, xt, y);'],
            'after:LispParser::ParseTokens': ['lemma_ist($h, $h, $co4, rdp(tkseq(y), 0)->Yes_0, $ch.alloc, Seq::empty(), $h0.alloc, Seq::empty());']})
    return C
