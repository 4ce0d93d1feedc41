"""P04 arithmetic, P05 comparison"""
from sym import Contract
import core

TEXT = '''
pub enum Res { Ok(Val), Raise }
pub open spec fn both(a: Val, b: Val) -> bool { vconv(a) && vconv(b) }
pub open spec fn vadd(h: H, a: Val, b: Val) -> Res {
    if a is S || b is S { Res::Ok(Val::S(vtext(h, a) + vtext(h, b))) }
    else if a is F || b is F { if both(a, b) { Res::Ok(Val::F(d_add(vdbl(a), vdbl(b)))) } else { Res::Raise } }
    else if a is I || b is I { if both(a, b) { Res::Ok(Val::I(i32w(vint(a) + vint(b)))) } else { Res::Raise } }
    else if vlist(a) && vlist(b) { Res::Ok(Val::L(vels(a) + vels(b))) } else { Res::Raise }
}
pub open spec fn vsub(h: H, a: Val, b: Val) -> Res {
    if (a is F || b is F) && both(a, b) { Res::Ok(Val::F(d_sub(vdbl(a), vdbl(b)))) }
    else if (a is I || b is I) && both(a, b) { Res::Ok(Val::I(i32w(vint(a) - vint(b)))) } else { Res::Raise }
}
pub open spec fn vmul(h: H, a: Val, b: Val) -> Res {
    if (a is F || b is F) && both(a, b) { Res::Ok(Val::F(d_mul(vdbl(a), vdbl(b)))) }
    else if (a is I || b is I) && both(a, b) { Res::Ok(Val::I(i32w(mulx(vint(a), vint(b))))) } else { Res::Raise }
}
pub open spec fn vdiv(h: H, a: Val, b: Val) -> Res {
    if a is F || b is F { if both(a, b) { Res::Ok(Val::F(d_div(vdbl(a), vdbl(b)))) } else { Res::Raise } }
    else if (a is I || b is I) && both(a, b) && vint(b) != 0 { Res::Ok(Val::I(i32w(tdiv(vint(a), vint(b))))) } else { Res::Raise }
}
pub open spec fn vmod(h: H, a: Val, b: Val) -> Res {
    if a is F || b is F { if both(a, b) { Res::Ok(Val::F(d_mod(vdbl(a), vdbl(b)))) } else { Res::Raise } }
    else if (a is I || b is I) && both(a, b) && vint(b) != 0 { Res::Ok(Val::I(tmod(vint(a), vint(b)))) } else { Res::Raise }
}
#[verifier::opaque]
pub open spec fn vop(op: int, h: H, a: Val, b: Val) -> Res {
    if op == 1 { vadd(h, a, b) } else if op == 2 { vsub(h, a, b) } else if op == 3 { vmul(h, a, b) } else if op == 4 { vdiv(h, a, b) } else { vmod(h, a, b) }
}
// the operators fold their arguments from left to right
pub open spec fn vfold(op: int, h: H, xs: Seq<int>, n: int) -> Res decreases n {
    if n <= 0 { Res::Raise } else if n == 1 { Res::Ok(aval(h, xs[0])) }
    else { match vfold(op, h, xs, n - 1) { Res::Raise => Res::Raise, Res::Ok(a) => vop(op, h, a, aval(h, xs[n - 1])) } }
}
pub open spec fn vneg(a: Val) -> Res { match a { Val::I(i) => Res::Ok(Val::I(i32w(0 - i))), Val::F(d) => Res::Ok(Val::F(d_neg(d))), _ => Res::Raise } }
pub proof fn lemma_vfold(op: int, h: H, xs: Seq<int>, i: int, n: int) requires 1 <= i <= n ensures vfold(op, h, xs, i) is Raise ==> vfold(op, h, xs, n) is Raise decreases n - i {
    if i < n { lemma_vfold(op, h, xs, i, n - 1); }
}
pub proof fn lemma_argsint(h: H, a: int) requires argok(h, a)
    ensures forall|i: int| #![trigger h.vec[a][i]] 0 <= i < h.vec[a].len() ==> vok(h, aval(h, h.vec[a][i])) && vok(h, rval(h, h.vec[a][i])) {}
pub proof fn lemma_shr(a: int, n: int) ensures p2(n) >= 1 && -0x8000_0000 <= a <= 0x7fff_ffff ==> -0x8000_0000 <= shr_i32(a, n) <= 0x7fff_ffff {
    if p2(n) >= 1 && -0x8000_0000 <= a <= 0x7fff_ffff {
        let p = p2(n);
        assert(a >= 0 ==> 0 <= a / p <= a) by(nonlinear_arith) requires p >= 1;
        assert(a < 0 ==> a <= a / p <= 0) by(nonlinear_arith) requires p >= 1;
    }
}
pub proof fn lemma_vopok(op: int, h0: H, h: H, a: Val, b: Val, r: Val) requires vop(op, h0, a, b) == Res::Ok(r), vok(h, r) ensures vok(h0, r) { reveal(vop); }
pub proof fn lemma_vop(op: int, h0: H, h1: H, a: Val, b: Val) requires ext(h0, h1), vok(h0, a), vok(h0, b) ensures vop(op, h1, a, b) == vop(op, h0, a, b) {
    reveal(vop); lemma_texts(h0, h1, a); lemma_texts(h0, h1, b);
}
// ---- comparison
pub enum Cmp { Ok(bool), Raise }
pub open spec fn vlt(h: H, a: Val, b: Val) -> Cmp {
    if a is F || b is F { if both(a, b) { Cmp::Ok(d_lt(vdbl(a), vdbl(b))) } else { Cmp::Raise } }
    else if a is I || b is I { if both(a, b) { Cmp::Ok(vint(a) < vint(b)) } else { Cmp::Raise } }
    else if a is S || b is S { Cmp::Ok(s_cmp(pv(h, a), pv(h, b)) < 0) } else { Cmp::Raise }
}
pub open spec fn vle(h: H, a: Val, b: Val) -> Cmp {
    if a is F || b is F { if both(a, b) { Cmp::Ok(d_le(vdbl(a), vdbl(b))) } else { Cmp::Raise } }
    else if a is I || b is I { if both(a, b) { Cmp::Ok(vint(a) <= vint(b)) } else { Cmp::Raise } }
    else if a is S || b is S { Cmp::Ok(s_cmp(pv(h, a), pv(h, b)) <= 0) } else { Cmp::Raise }
}
pub open spec fn vtag(v: Val) -> int { match v { Val::U(o) => 0int, Val::N(o) => 1, Val::B(b) => 2, Val::I(i) => 3, Val::F(d) => 4, Val::S(s) => 5, Val::L(xs) => 6, Val::O(t, o) => t } }
pub open spec fn vaddr(v: Val) -> int { match v { Val::U(o) => o, Val::N(o) => o, Val::O(t, o) => o, _ => 0 } }
pub open spec fn vsym(v: Val) -> bool { match v { Val::O(t, o) => t == 8, _ => false } }
pub open spec fn vnat(v: Val) -> bool { match v { Val::O(t, o) => t == 9, _ => false } }
pub open spec fn bnum(v: Val) -> bool { v is I || v is F || v is B }
pub open spec fn deq(a: D, b: D) -> bool { d_eq(a, b) || d_lt(d_abs(d_sub(a, b)), DLIT(1e-8)) }
// equality of the language
pub open spec fn eq0(h: H, a: Val, b: Val) -> Cmp {
    if vnat(a) && vnat(b) { Cmp::Ok(vaddr(a) == vaddr(b)) }
    else if vsym(a) || vsym(b) { Cmp::Ok(vsym(a) && vsym(b) && pv(h, a) == pv(h, b)) }
    else if a is B && b is B { Cmp::Ok(a->B_0 == b->B_0) }
    else if a is N || b is N { Cmp::Ok(a is N && b is N) }
    else if a is L && b is L { leq(h, vels(a), vels(b)) }
    else if a is U || b is U { Cmp::Ok(a is U && b is U) }
    else if a is S || b is S { Cmp::Ok(pv(h, a) == pv(h, b)) }
    else if a is F || b is F { if both(a, b) { Cmp::Ok(deq(vdbl(a), vdbl(b))) } else { Cmp::Raise } }
    else if a is I || b is I { if both(a, b) { Cmp::Ok(vint(a) == vint(b)) } else { Cmp::Raise } }
    else { Cmp::Raise }
}
pub open spec fn eqe(h: H, a: Val, b: Val) -> Cmp {
    if !(bnum(a) && bnum(b)) && !(a is S) && !(b is S) && vtag(a) != vtag(b) { Cmp::Ok(false) }
    else if !(bnum(a) && bnum(b)) && !(a is S) && !(b is S) && (vtag(a) == 7 || vtag(a) == 11 || vtag(a) == 999) { Cmp::Ok(vaddr(a) == vaddr(b)) }
    else { eq0(h, a, b) }
}
// equality of lists, element by element up to the first difference; the elements are compared by eqe (a recursion along the structure of the lists)
pub uninterp spec fn leq(h: H, xs: Seq<int>, ys: Seq<int>) -> Cmp;
pub open spec fn leqn(h: H, xs: Seq<int>, ys: Seq<int>, i: int) -> Cmp decreases i {
    if i <= 0 { Cmp::Ok(true) } else { match leqn(h, xs, ys, i - 1) { Cmp::Ok(true) => eqe(h, aval(h, xs[i - 1]), aval(h, ys[i - 1])), r => r } }
}
#[verifier::external_body]
pub proof fn ax_leq(h: H, xs: Seq<int>, ys: Seq<int>) ensures leq(h, xs, ys) == (if xs.len() != ys.len() { Cmp::Ok(false) } else { leqn(h, xs, ys, xs.len() as int) }) {}
#[verifier::external_body]
pub proof fn ax_leqext(h0: H, h1: H, xs: Seq<int>, ys: Seq<int>) requires ext(h0, h1) ensures leq(h1, xs, ys) == leq(h0, xs, ys) {}
pub proof fn lemma_eqext(h0: H, h1: H, a: Val, b: Val) requires ext(h0, h1), vok(h0, a), vok(h0, b) ensures eqe(h1, a, b) == eqe(h0, a, b), eq0(h1, a, b) == eq0(h0, a, b), vlt(h1, a, b) == vlt(h0, a, b), vle(h1, a, b) == vle(h0, a, b) {
    lemma_texts(h0, h1, a); lemma_texts(h0, h1, b); ax_leqext(h0, h1, vels(a), vels(b));
}
// a comparison that failed or found a difference stays so
pub proof fn lemma_leqn(h: H, xs: Seq<int>, ys: Seq<int>, i: int, n: int) requires 0 <= i <= n, leqn(h, xs, ys, i) != Cmp::Ok(true) ensures leqn(h, xs, ys, n) == leqn(h, xs, ys, i) decreases n - i {
    if i < n { lemma_leqn(h, xs, ys, i, n - 1); }
}
// structures do not contain themselves
pub uninterp spec fn depth(h: H, xs: Seq<int>) -> nat;
#[verifier::external_body]
pub proof fn ax_depth(h: H, xs: Seq<int>, i: int) requires 0 <= i < xs.len(), aval(h, xs[i]) is L ensures depth(h, vels(aval(h, xs[i]))) < depth(h, xs) {}
#[verifier::external_body]
pub proof fn ax_dsym(a: D, b: D) ensures d_eq(a, b) == d_eq(b, a), d_abs(d_sub(a, b)) == d_abs(d_sub(b, a)) {}
// LAW: equality is symmetric
pub proof fn lemma_law_sym(h: H, a: Val, b: Val) ensures eq0(h, a, b) == eq0(h, b, a), eqe(h, a, b) == eqe(h, b, a) decreases depth(h, vels(a)), 1int, 0int {
    ax_dsym(vdbl(a), vdbl(b));
    if a is L && b is L { lemma_leq_sym(h, vels(a), vels(b)); }
}
pub proof fn lemma_leq_sym(h: H, xs: Seq<int>, ys: Seq<int>) ensures leq(h, xs, ys) == leq(h, ys, xs) decreases depth(h, xs), 0int, xs.len() + 1 {
    ax_leq(h, xs, ys); ax_leq(h, ys, xs);
    if xs.len() == ys.len() { lemma_leqn_sym(h, xs, ys, xs.len() as int); }
}
pub proof fn lemma_leqn_sym(h: H, xs: Seq<int>, ys: Seq<int>, n: int) requires n <= xs.len(), xs.len() == ys.len() ensures leqn(h, xs, ys, n) == leqn(h, ys, xs, n) decreases depth(h, xs), 0int, n {
    if n > 0 {
        lemma_leqn_sym(h, xs, ys, n - 1);
        let a = aval(h, xs[n - 1]); let b = aval(h, ys[n - 1]);
        ax_dsym(vdbl(a), vdbl(b));
        if a is L && b is L { ax_depth(h, xs, n - 1); lemma_law_sym(h, a, b); }
    }
}
pub open spec fn nan_free(v: Val) -> bool { match v { Val::F(d) => d_eq(d, d), _ => true } }
// LAW: a comparable value equals itself
pub proof fn lemma_law_refl(h: H, a: Val) requires !(a is L), nan_free(a), vtag(a) != 7 && vtag(a) != 11 && vtag(a) != 999, vtag(a) <= 11, a is O ==> vtag(a) == 8 || vtag(a) == 9 ensures eq0(h, a, a) == Cmp::Ok(true), eqe(h, a, a) == Cmp::Ok(true) {}
#[verifier::external_body]
pub proof fn ax_dord(a: D, b: D) requires d_eq(a, a), d_eq(b, b) ensures d_lt(a, b) ==> !d_eq(a, b) && !d_lt(b, a), d_eq(a, b) ==> !d_lt(b, a), d_lt(a, b) || d_eq(a, b) || d_lt(b, a), d_le(a, b) == (d_lt(a, b) || d_eq(a, b)) {}
#[verifier::external_body]
pub proof fn ax_scmp(a: Seq<int>, b: Seq<int>) ensures (s_cmp(a, b) < 0) == (s_cmp(b, a) > 0), (s_cmp(a, b) == 0) == (a == b) {}
// LAW: of two numbers or strings exactly one is smaller, or they are the same; <= is < or the same
pub proof fn lemma_law_order(h: H, a: Val, b: Val) requires (a is I && b is I) || (a is S && b is S) || (bnum(a) && bnum(b) && (a is F || b is F) && d_eq(vdbl(a), vdbl(a)) && d_eq(vdbl(b), vdbl(b)))
    ensures vlt(h, a, b) is Ok, vlt(h, b, a) is Ok, !(vlt(h, a, b) == Cmp::Ok(true) && vlt(h, b, a) == Cmp::Ok(true)), vle(h, a, b) == (match vlt(h, b, a) { Cmp::Ok(x) => Cmp::Ok(!x), r => r }),
        vlt(h, a, b) == Cmp::Ok(false) && vlt(h, b, a) == Cmp::Ok(false) ==> eq0(h, a, b) == Cmp::Ok(true)
{
    if a is F || b is F { ax_dord(vdbl(a), vdbl(b)); ax_dord(vdbl(b), vdbl(a)); ax_dsym(vdbl(a), vdbl(b)); } ax_scmp(pv(h, a), pv(h, b)); ax_scmp(pv(h, b), pv(h, a));
}
pub open spec fn keyless(h: H, a: Val, b: Val) -> bool {
    if (a is I || a is F) && (b is I || b is F) { d_lt(vdbl(a), vdbl(b)) || (!d_eq(vdbl(a), vdbl(a)) && d_eq(vdbl(b), vdbl(b))) }
    else if a is I || a is F || b is I || b is F { b is I || b is F }
    else if vtag(a) != vtag(b) { vtag(a) < vtag(b) }
    else { s_cmp(pv(h, a), pv(h, b)) < 0 }
}
pub proof fn lemma_mulw(a: int, b: int)
    ensures i32w(u32w(mulx(u32w(a), u32w(b)))) == i32w(mulx(a, b)), i32w(mulx(u32w(a), u32w(b))) == i32w(mulx(a, b))
{
    reveal(mulx);
    let m = 0x1_0000_0000int;
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(a, b, m);
    vstd::arithmetic::div_mod::lemma_mod_twice(a * b, m);
    vstd::arithmetic::div_mod::lemma_mod_twice((a % m) * (b % m), m);
}
pub proof fn lemma_tdiv(a: int, b: int)
    requires -0x8000_0000 <= a <= 0x7fff_ffff, -0x8000_0000 <= b <= 0x7fff_ffff, b != 0
    ensures b != -1 ==> -0x8000_0000 <= tdiv(a, b) <= 0x7fff_ffff, b == -1 ==> tdiv(a, b) == -a, b == -1 ==> tmod(a, b) == 0, -0x8000_0000 <= tmod(a, b) <= 0x7fff_ffff
{
    reveal(mulx);
    let x = if a >= 0 { a } else { -a };
    let y = if b >= 0 { b } else { -b };
    let q = x / y;
    let r = x % y;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y);
    assert(0 <= r < y) by { vstd::arithmetic::div_mod::lemma_mod_bound(x, y); }
    assert(q >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, y); }
    assert(y * q + r == x);
    if y == 1 { assert(1 * q == q) by(nonlinear_arith); assert(r == 0); assert(q == x); }
    else { assert(y * q >= 2 * q) by(nonlinear_arith) requires y >= 2, q >= 0; }
    assert(q * y == y * q) by(nonlinear_arith);
    assert((-q) * (-y) == y * q) by(nonlinear_arith);
    assert((-q) * y == -(y * q)) by(nonlinear_arith);
    assert(q * (-y) == -(y * q)) by(nonlinear_arith);
    assert(tdiv(a, b) == (if (a >= 0) == (b > 0) { q } else { -q }));
    assert(b == (if b > 0 { y } else { -y }));
    assert(mulx(tdiv(a, b), b) == (if a >= 0 { y * q } else { -(y * q) }));
}
'''


def contracts():
    C = []
    XE2 = ('LispException', 'LispExceptionBase')
    add = lambda *a, **k: C.append(Contract(*a, **k))
    B = ['vwf($h, $self)', 'vwf($h, $1)']
    P4, P5 = ('P04',), ('P05',)
    for i, (op, hint) in enumerate([('+', []), ('-', []), ('*', ['lemma_mulw(vint(val($h, $self)), vint(val($h, $1)));']),
                                    ('/', ['if vint(val($h, $1)) != 0 { lemma_tdiv(vint(val($h, $self)), vint(val($h, $1))); }']),
                                    ('%', ['if vint(val($h, $1)) != 0 { lemma_tdiv(vint(val($h, $self)), vint(val($h, $1))); }'])]):
        e = 'vop(%d, $h, val($h, $self), val($h, $1))' % (i + 1)
        add('LispVariant::operator' + op, requires=B, raises=[(XE2, e + ' is Raise')], ensures=['vwf($h1, $r)', e + ' == Res::Ok(val($h1, $r))'],
            hints={'entry': ['reveal(vop); lemma_vint($h, $self); lemma_vint($h, $1);'] + hint}, tags=P4)
    LT = 'vlt($h, val($h, $self), val($h, $1))'
    LE = 'vle($h, val($h, $self), val($h, $1))'
    TX = {'entry': ['lemma_vint($h, $self); lemma_vint($h, $1); lemma_vok($h, $self); lemma_vok($h, $1);']}
    add('LispVariant::operator<', mode='pure', requires=B, raises=[(XE2, LT + ' is Raise')], ensures=[LT + ' == Cmp::Ok($r)'], hints=TX, tags=P5)
    add('LispVariant::operator<=', mode='pure', requires=B, raises=[(XE2, LE + ' is Raise')], ensures=[LE + ' == Cmp::Ok($r)'], hints=TX, tags=P5)
    E0 = 'eq0($h, val($h, $1), val($h, $2))'
    EE = 'eqe($h, val($h, $self), val($h, $1))'
    XS, YS = 'vels(val($h0, $1))', 'vels(val($h0, $2))'
    AW = ' '.join('assume(forall|i: int| 0 <= i < %s.len() ==> awf($h0, #[trigger] %s[i]));' % (x, x) for x in (XS, YS)) + ' // ASSUME elements of lists are valid objects'
    add('LispVariant::EqualOp', mode='pure', requires=['vwf($h, $1)', 'vwf($h, $2)'], raises=[(XE2, E0 + ' is Raise')], ensures=[E0 + ' == Cmp::Ok($r)'],
        hints={'entry': ['lemma_vint($h, $1); lemma_vint($h, $2); lemma_vok($h, $1); lemma_vok($h, $2); ax_leq($h, vels(val($h, $1)), vels(val($h, $2)));', AW]},
        loops={'LispVariant::EqualOp:1': {'inv': ['0 <= @i <= %s.len()' % XS, '%s.len() == %s.len()' % (XS, YS), 'ext($h0, $h)', 'leqn($h0, %s, %s, @i) == Cmp::Ok(true)' % (XS, YS)],
               'hint_top': ['if @i < %s.len() { let ghost xa = %s[@i]; let ghost ya = %s[@i]; lemma_aval($h0, $h, xa); lemma_aval($h0, $h, ya); lemma_avok($h0, xa); lemma_avok($h0, ya); '
                            'assert(leqn($h0, %s, %s, @i + 1) == eqe($h0, aval($h0, xa), aval($h0, ya))); if leqn($h0, %s, %s, @i + 1) != Cmp::Ok(true) { lemma_leqn($h0, %s, %s, @i + 1, %s.len() as int); } }'
                            % (XS, XS, YS, XS, YS, XS, YS, XS, YS, XS)]}},
        at={'LispVariant::operator!=': ['lemma_vok($ch, $cself); lemma_vok($ch, $c1); lemma_eqext($h0, $ch, val($ch, $cself), val($ch, $c1));']}, tags=P5)
    add('LispVariant::operator==', mode='pure', requires=B, raises=[(XE2, EE + ' is Raise')], ensures=[EE + ' == Cmp::Ok($r)'], tags=P5)
    add('LispVariant::operator!=', mode='pure', requires=B, raises=[(XE2, EE + ' is Raise')], ensures=[EE + ' == Cmp::Ok(!$r)'], tags=P5)
    add('LispVariant::KeyLess', mode='pure', requires=['vwf($h, $1)', 'vwf($h, $2)'], result='keyless($h, val($h, $1), val($h, $2))', tags=P5 + ('P14',))
    # ---- builtins
    XE = ('LispException', 'LispExceptionBase')
    XS = '$h.vec[$1]'
    N = XS + '.len()'
    A = lambda i: 'aval($h, %s[%d])' % (XS, i)
    R = lambda i: 'rval($h, %s[%d])' % (XS, i)
    AR = ['argok($h, $1)']
    AE = {'entry': ['lemma_argsint($h, $1);']}

    def bi(name, err, res, tags, **k):
        h = dict(AE)
        h.update(k.pop('hints', {}))
        add(name, requires=AR, raises=[(XE, err)], ensures=['vwf($h1, $r)', '$r >= $h.alloc'] + res, tags=tags, hints=h, **k)
    for i, nm in enumerate(['Addition', 'Subtraction', 'Multiplication', 'Division', 'Modulo']):
        op = i + 1
        f = 'vfold(%d, $h, %s, %s.len() as int)' % (op, XS, XS)
        f0 = f.replace('$h', '$h0')
        lp = {'ArithmetricOperation:1': {'inv': ['0 <= @__i', 'ext($h0, $h)', '@result == 0 || (vwf($h, @result) && @result >= $h0.alloc)', '(@result == 0) == (@__i == 0)', '@result != 0 ==> vok($h0, val($h, @result))', '@__n == $h0.vec[$1].len()',
                                                '@__i > 0 ==> vfold(%d, $h0, $h0.vec[$1], @__i) == Res::Ok(val($h, @result))' % op],
                                        'hint_top': ['lemma_args($h0, $h, $1); if 0 <= @__i < $h0.vec[$1].len() { lemma_vfold(%d, $h0, $h0.vec[$1], @__i + 1, $h0.vec[$1].len() as int); lemma_avok($h0, $h0.vec[$1][@__i]); }' % op,
                                                     'let ghost hq = $h; let ghost rq = @result;'],
                                        'hint_back': ['lemma_vok($h, @result); if rq != 0 { lemma_vopok(%d, $h0, $h, val(hq, rq), aval($h0, $h0.vec[$1][@__i - 1]), val($h, @result)); }' % op]}}
        e, r = f + ' is Raise', [f + ' == Res::Ok(val($h1, $r))']
        if nm == 'Subtraction':
            u = 'vneg(%s)' % A(0)
            e = 'if %s == 1 { %s is Raise } else { %s }' % (N, u, e)
            r = ['if %s == 1 { %s == Res::Ok(val($h1, $r)) } else { %s }' % (N, u, r[0])]
        OPN = 'LispVariant::operator' + '+-*/%'[i]
        bi(nm, e, r, P4, loops=lp, at={OPN: ['lemma_vop(%d, $h0, $ch, val($ch, $cself), val($ch, $c1));' % op]})
    for nm, e, r in [('LeftShift', 'shl_u32(u32w(vint(%s)), bitand_i(vint(%s), 31))', 1), ('RightShift', 'shr_i32(vint(%s), bitand_i(vint(%s), 31))', 0), ('BinaryOr', 'bitor_i(vint(%s), vint(%s))', 0),
                     ('BinaryAnd', 'bitand_i(vint(%s), vint(%s))', 0), ('BinaryXOr', 'bitxor_i(vint(%s), vint(%s))', 0)]:
        x = e % (R(0), R(1))
        x = 'i32w(%s)' % x
        bi(nm, '%s != 2 || !(%s is I) || !(%s is I)' % (N, R(0), R(1)), ['val($h1, $r) == Val::I(%s)' % x], P4, hints={'entry': AE['entry'] + ['ax_bits(vint(%s), vint(%s)); ax_and31(vint(%s)); ax_p2(bitand_i(vint(%s), 31)); lemma_shr(vint(%s), bitand_i(vint(%s), 31));' % (R(0), R(1), R(1), R(1), R(0), R(1))]})
    bi('BinaryNot', '%s != 1 || !(%s is I)' % (N, R(0)), ['val($h1, $r) == Val::I(-1 - vint(%s))' % R(0)], P4)
    bi('Not', '%s != 1 || !(%s is B)' % (N, R(0)), ['val($h1, $r) == Val::B(!vbool(%s))' % R(0)], P4)
    for nm, e in [('LessTest', 'vlt($h, {0}, {1})'), ('GreaterTest', 'vlt($h, {1}, {0})'), ('LessEqualTest', 'vle($h, {0}, {1})'), ('GreaterEqualTest', 'vle($h, {1}, {0})'), ('EqualTest', 'eq0($h, {0}, {1})'),
                  ('NotEqualTest', 'eq0($h, {0}, {1})')]:
        x = e.format(R(0), R(1))
        hint = 'lemma_vok($ch, $c%s); lemma_vok($ch, $c%s); lemma_eqext($h0, $ch, val($ch, $c%s), val($ch, $c%s));' % (('1', '2', '1', '2') if 'qual' in nm and nm in ('EqualTest', 'NotEqualTest') else ('self', '1', 'self', '1'))
        key = {'L': 'LispVariant::operator<', 'G': 'LispVariant::operator<'}.get(nm[0] if 'Equal' not in nm else '', 'LispVariant::operator<=' if nm[0] in 'LG' else 'LispVariant::EqualOp')
        bi(nm, '%s != 2 || %s is Raise' % (N, x), ['val($h1, $r) is B', '%s == Cmp::Ok(%s(val($h1, $r)->B_0))' % (x, '!' if nm[0] == 'N' else '')], P5, at={key: [hint]})
    return C
