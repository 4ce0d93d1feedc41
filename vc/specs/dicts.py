"""P14 dictionaries"""
from sym import Contract
from lists import XE, XS, N, A, R, AR, AE

TEXT = '''
// ---- dictionaries: keys that are neither smaller nor larger are one key. kcls is the class of a key.
pub uninterp spec fn kcls(h: H, v: Val) -> int;
pub open spec fn keyeq(h: H, a: Val, b: Val) -> bool { !keyless(h, a, b) && !keyless(h, b, a) }
#[verifier::external_body]
pub proof fn ax_kcls(h: H, a: Val, b: Val) ensures (kcls(h, a) == kcls(h, b)) == keyeq(h, a, b) {}
#[verifier::external_body]
pub proof fn ax_kclsext(h0: H, h1: H, v: Val) requires ext(h0, h1), vok(h0, v) ensures kcls(h1, v) == kcls(h0, v) {}
// the order of the keys is a strict weak order: what std::map requires, and what makes kcls well defined
#[verifier::external_body]
pub proof fn ax_dnan(a: D, b: D) ensures !d_eq(a, a) ==> !d_lt(a, b) && !d_lt(b, a) && !d_eq(a, b) && !d_eq(b, a) {}
#[verifier::external_body]
pub proof fn ax_dtrans(a: D, b: D, c: D) ensures d_lt(a, b) && d_lt(b, c) ==> d_lt(a, c), d_eq(a, b) && d_eq(b, c) ==> d_eq(a, c), d_lt(a, b) && d_eq(b, c) ==> d_lt(a, c), d_eq(a, b) && d_lt(b, c) ==> d_lt(a, c) {}
#[verifier::external_body]
pub proof fn ax_scmp3(a: Seq<int>, b: Seq<int>, c: Seq<int>) ensures s_cmp(a, b) < 0 && s_cmp(b, c) < 0 ==> s_cmp(a, c) < 0 {}
#[verifier::rlimit(60)]
pub proof fn lemma_law_keyorder(h: H, a: Val, b: Val, c: Val)
    ensures !keyless(h, a, a), keyless(h, a, b) ==> !keyless(h, b, a), keyless(h, a, b) && keyless(h, b, c) ==> keyless(h, a, c), keyeq(h, a, b) && keyeq(h, b, c) ==> keyeq(h, a, c)
{
    let x = vdbl(a); let y = vdbl(b); let z = vdbl(c);
    ax_dnan(x, y); ax_dnan(y, x); ax_dnan(x, z); ax_dnan(z, x); ax_dnan(y, z); ax_dnan(z, y); ax_dnan(x, x); ax_dnan(y, y); ax_dnan(z, z);
    ax_dsym(x, y); ax_dsym(y, z); ax_dsym(x, z);
    if d_eq(x, x) { ax_dord(x, x); }
    if d_eq(x, x) && d_eq(y, y) { ax_dord(x, y); ax_dord(y, x); }
    if d_eq(z, z) && d_eq(y, y) { ax_dord(z, y); ax_dord(y, z); }
    if d_eq(x, x) && d_eq(z, z) { ax_dord(x, z); ax_dord(z, x); }
    ax_dtrans(x, y, z); ax_dtrans(z, y, x); ax_dtrans(x, z, y); ax_dtrans(y, z, x); ax_dtrans(y, x, z); ax_dtrans(z, x, y);
    let p = pv(h, a); let q = pv(h, b); let r = pv(h, c);
    ax_scmp(p, p); ax_scmp(p, q); ax_scmp(q, p); ax_scmp(p, r); ax_scmp(r, p); ax_scmp(q, r); ax_scmp(r, q); ax_scmp3(p, q, r); ax_scmp3(r, q, p);
}
// LAW: numbers are the same key exactly if they are numerically the same, other keys if type and text are the same
pub proof fn lemma_law_samekey(h: H, a: Val, b: Val)
    ensures (a is I || a is F) && (b is I || b is F) && d_eq(vdbl(a), vdbl(a)) && d_eq(vdbl(b), vdbl(b)) ==> ((kcls(h, a) == kcls(h, b)) == d_eq(vdbl(a), vdbl(b))),
        (a is I || a is F) != (b is I || b is F) ==> kcls(h, a) != kcls(h, b),
        !(a is I || a is F) && !(b is I || b is F) ==> ((kcls(h, a) == kcls(h, b)) == (vtag(a) == vtag(b) && pv(h, a) == pv(h, b)))
{
    let x = vdbl(a); let y = vdbl(b);
    ax_kcls(h, a, b); ax_dnan(x, y); ax_dnan(y, x); ax_dsym(x, y); if d_eq(x, x) && d_eq(y, y) { ax_dord(x, y); ax_dord(y, x); }
    ax_scmp(pv(h, a), pv(h, b)); ax_scmp(pv(h, b), pv(h, a));
}
pub open spec fn isdict(h: H, v: Val) -> bool { vnat(v) && h.object_m_Type[vaddr(v)] == 18 }
pub open spec fn dicto(h: H, o: int) -> int { h.DataType_pDictionary[h.LispVariant_Value[h.DataType_pVariant[o]]] }
// entries of a dictionary: a key of the class, and a valid value
pub open spec fn dwf(h: H, d: int) -> bool {
    ok(h, d, K_map_var()) && h.map_vark[d].dom() =~= h.map_var[d].dom()
    && forall|c: int| #![trigger h.map_var[d].contains_key(c)] #![trigger h.map_var[d][c]] h.map_var[d].contains_key(c) ==> awf(h, h.map_var[d][c]) && vwf(h, h.map_vark[d][c])
}
// a copy of a variant shares its data
pub open spec fn copyof(h0: H, v0: int, h: H, v: int) -> bool { ok(h, v, K_LispVariant()) && h.LispVariant_Type[v] == h0.LispVariant_Type[v0] && h.LispVariant_Value[v] == h0.LispVariant_Value[v0] }
// search of a value in the first n entries
pub open spec fn dsearch(h: H, m: Map<int, int>, v: Val, n: int) -> Cmp decreases n {
    if n <= 0 { Cmp::Ok(false) } else { match dsearch(h, m, v, n - 1) { Cmp::Ok(false) => { let o = m[mkeys_map_var(m)[n - 1]]; if h.object_m_Type[o] == 11 { eqe(h, rval(h, o), v) } else { Cmp::Ok(false) } }, r => r } }
}
pub proof fn lemma_dsearch(h: H, m: Map<int, int>, v: Val, i: int, n: int) requires 0 <= i <= n, dsearch(h, m, v, i) != Cmp::Ok(false) ensures dsearch(h, m, v, n) == dsearch(h, m, v, i) decreases n - i { if i < n { lemma_dsearch(h, m, v, i, n - 1); } }
pub proof fn lemma_dsext(h0: H, h1: H, d: int, a: Val, n: int) requires ext(h0, h1), dwf(h0, d), vok(h0, a), 0 <= n <= mkeys_map_var(h0.map_var[d]).len() ensures dsearch(h1, h0.map_var[d], a, n) == dsearch(h0, h0.map_var[d], a, n) decreases n {
    let m = h0.map_var[d];
    if n > 0 { lemma_dsext(h0, h1, d, a, n - 1); lemma_mkeys1_map_var(m); lemma_mkeys_map_var(m, n - 1); assert(m.contains_key(mkeys_map_var(m)[n - 1])); let o = m[mkeys_map_var(m)[n - 1]]; assert(awf(h0, o)); lemma_avok(h0, o); lemma_aval(h0, h1, o); lemma_eqext(h0, h1, rval(h0, o), a); }
}
'''


def contracts():
    C = []
    add = lambda *a, **k: C.append(Contract(*a, **k))
    P = ('P14',)
    add('std::less<CppLisp::LispVariant>::operator()', mode='pure', requires=['vwf($h, $1)', 'vwf($h, $2)'], result='keyless($h, val($h, $1), val($h, $2))', tags=P)
    V0, V1 = R(0), R(1)
    D = 'dicto($h, %s[0])' % XS
    K = 'kcls($h, %s)' % V1
    M, MK = '$h.map_var[%s]' % D, '$h.map_vark[%s]' % D
    M1 = '$h1.map_var[%s]' % D
    DW = ['%s.len() > 0 && isdict($h, %s) ==> dwf($h, %s)' % (XS, V0, D)]

    def bi(name, err, res, hints=None, entry=(), requires=(), **k):
        h = {'entry': AE + list(entry)}
        h.update(hints or {})
        add(name, requires=AR + list(requires), raises=[(XE, err)] if err else [], ensures=['vwf($h1, $r)', '$r >= $h.alloc'] + res, tags=k.pop('tags', P), hints=h, **k)
    ND = lambda n: '%s != %d || !isdict($h, %s)' % (N, n, V0)
    bi('MakeDict', N + ' != 0', ['isdict($h1, val($h1, $r))', '$h1.map_var[$h1.DataType_pDictionary[$h1.LispVariant_Value[$r]]] == Map::<int, int>::empty()', 'dwf($h1, $h1.DataType_pDictionary[$h1.LispVariant_Value[$r]])', '$h1.DataType_pDictionary[$h1.LispVariant_Value[$r]] >= $h.alloc'])
    bi('DictContainsKey', ND(2), ['val($h1, $r) == Val::B(%s.contains_key(%s))' % (M, K)], requires=DW)
    bi('DictGet', ND(2), ['if %s.contains_key(%s) { val($h1, $r) == aval($h, %s[%s]) } else { val($h1, $r) is U }' % (M, K, M, K)], requires=DW)
    MOD = ['map_var@' + D, 'map_vark@' + D]
    bi('DictRemove', ND(2), ['val($h1, $r) == Val::B(%s.contains_key(%s))' % (M, K), '%s == %s.remove(%s)' % (M1, M, K), 'dwf($h1, %s)' % D], requires=DW, modifies=MOD)
    bi('DictClear', ND(1), ['%s == Map::<int, int>::empty()' % M1, 'dwf($h1, %s)' % D], requires=DW, modifies=MOD)
    bi('DictSet', ND(3), ['%s =~= %s.insert(%s, %s[%s])' % (M1, M, K, M1, K), 'if %s.contains_key(%s) { $h1.map_vark[%s] == %s } else { $h1.map_vark[%s] =~= %s.insert(%s, $h1.map_vark[%s][%s]) && val($h1, $h1.map_vark[%s][%s]) == %s }' % (M, K, D, MK, D, MK, K, D, K, D, K, V1), 'dwf($h1, %s)' % D, '%s[%s] >= $h.alloc && aval($h1, %s[%s]) == %s' % (M1, K, M1, K, R(2)), 'val($h1, $r) == ' + R(2)], requires=DW, modifies=MOD, rlimit=150)
    KY = 'mkeys_map_var(%s)' % M
    bi('DictKeys', ND(1), ['val($h1, $r) is L', 'vels(val($h1, $r)).len() == %s.dom().len()' % M,
        'forall|i: int| #![trigger vels(val($h1, $r))[i]] 0 <= i < vels(val($h1, $r)).len() ==> copyof($h, %s[%s[i]], $h1, rvar($h1, vels(val($h1, $r))[i]))' % (MK, KY)], requires=DW,
        entry=['lemma_mkeys1_map_var(%s);' % M],
        loops={'DictKeys:1': {'inv': ['0 <= @__i <= @__n', 'ext($h0, $h)', 'ok($h, @result, K_vec())', '@result >= $h0.alloc', '$h.vec[@result].len() == @__i', '@__n == %s.len()' % KY.replace('$h', '$h0'),
            '$h.vec[@__range] == $hl.vec[@__range]', '@__n == $h.vec[@__range].len()', 'ok($h, @__range, K_vec())', '@__range != @result',
            'forall|i: int| #![trigger $h.vec[@__range][i]] 0 <= i < $h.vec[@__range].len() ==> vwf($h, $h.vec[@__range][i]) && copyof($h0, %s[%s[i]], $h, $h.vec[@__range][i])' % (MK.replace('$h', '$h0'), KY.replace('$h', '$h0')),
            'forall|i: int| #![trigger $h.vec[@result][i]] 0 <= i < $h.vec[@result].len() ==> $h0.alloc <= $h.vec[@result][i] && ok($h, $h.vec[@result][i], K_object()) && $h.object_m_Type[$h.vec[@result][i]] == 11 && copyof($h0, %s[%s[i]], $h, $h.DataType_pVariant[$h.vec[@result][i]])' % (MK.replace('$h', '$h0'), KY.replace('$h', '$h0'))]}})
    GK = 'Dictionary<CppLisp::LispVariant,std::shared_ptr<CppLisp::object>>::GetKeys'
    KS = 'mkeys_map_var($h0.map_var[$self])'
    add(GK, requires=['dwf($h, $self)'], ensures=['ok($h1, $r, K_vec())', '$r >= $h.alloc', '$h1.vec[$r].len() == %s.len()' % KS.replace('$h0', '$h'),
        'forall|i: int| #![trigger $h1.vec[$r][i]] 0 <= i < $h1.vec[$r].len() ==> vwf($h1, $h1.vec[$r][i]) && copyof($h, $h.map_vark[$self][%s[i]], $h1, $h1.vec[$r][i])' % KS.replace('$h0', '$h')],
        loops={GK + ':1': {'inv': ['0 <= @__i <= @__n', '@__n == %s.len()' % KS, 'ext($h0, $h)', 'ok($h, @keys, K_vec())', '@keys >= $h0.alloc', '$h.vec[@keys].len() == @__i',
            'forall|i: int| #![trigger $h.vec[@keys][i]] 0 <= i < $h.vec[@keys].len() ==> $h0.alloc <= $h.vec[@keys][i] && copyof($h0, $h0.map_vark[$self][%s[i]], $h, $h.vec[@keys][i])' % KS],
            'hint_exit': ['assert forall|i: int| #![trigger $h.vec[@keys][i]] 0 <= i < $h.vec[@keys].len() implies vwf($h, $h.vec[@keys][i]) && copyof($h0, $h0.map_vark[$self][%s[i]], $h, $h.vec[@keys][i]) by { assert($h0.map_var[$self].contains_key(%s[i])) by { lemma_mkeys_map_var($h0.map_var[$self], i); } }' % (KS, KS)],
            'hint_top': ['if 0 <= @__i < %s.len() { lemma_mkeys_map_var($h0.map_var[$self], @__i); assert($h0.map_var[$self].contains_key(%s[@__i])); lemma_val($h0, $h, $h0.map_vark[$self][%s[@__i]]); }' % (KS, KS, KS)]}}, tags=P)
    OE = 'eqe($h, rval($h, $self), rval($h, $1))'
    add('object::operator==', mode='pure', requires=['awf($h, $self)', 'awf($h, $1)', '$h.object_m_Type[$1] == 11'], raises=[(('LispException', 'LispExceptionBase'), '$h.object_m_Type[$self] == 11 && %s is Raise' % OE)],
        ensures=['if $h.object_m_Type[$self] == 11 { %s == Cmp::Ok($r) } else { !$r }' % OE], tags=P)
    DS = lambda h, n: 'dsearch(%s, %s, %s, %s)' % (h, M.replace('$h', '$h0'), R(1).replace('$h', '$h0'), n)
    KL = 'mkeys_map_var(%s).len() as int' % M
    CV = 'Dictionary<CppLisp::LispVariant,std::shared_ptr<CppLisp::object>>::ContainsValue'
    M0 = '$h0.map_var[$self]'
    KC = 'mkeys_map_var(%s)' % M0
    S0 = lambda n: 'dsearch($h0, %s, rval($h0, $1), %s)' % (M0, n)
    E1 = 'dsearch($h, $h.map_var[$self], rval($h, $1), mkeys_map_var($h.map_var[$self]).len() as int)'
    # the keys in iteration order up to the first match or the first value that cannot be compared
    add(CV, mode='pure', requires=['dwf($h, $self)', 'awf($h, $1)', '$h.object_m_Type[$1] == 11'], raises=[(('LispException', 'LispExceptionBase'), E1 + ' is Raise')], ensures=[E1 + ' == Cmp::Ok($r)'], tags=P, hints={'entry': ['lemma_mkeys1_map_var(%s);' % M0]},
        loops={CV + ':1': {'inv': ['0 <= @iter <= %s.len()' % KC, 'ext($h0, $h)', S0('@iter') + ' == Cmp::Ok(false)'],
            'hint_top': ['if @iter < %s.len() { lemma_mkeys_map_var(%s, @iter); let ghost oo = %s[%s[@iter]]; assert(%s.contains_key(%s[@iter])); lemma_avok($h0, oo); lemma_aval($h0, $h, oo); lemma_avok($h0, $1); lemma_aval($h0, $h, $1); lemma_eqext($h0, $h, rval($h0, oo), rval($h0, $1)); if %s != Cmp::Ok(false) { lemma_dsearch($h0, %s, rval($h0, $1), @iter + 1, %s.len() as int); } }' % (KC, M0, M0, KC, M0, KC, S0('@iter + 1'), M0, KC)]}})
    bi('DictContainsValue', at={CV: ['lemma_avok($h0, %s[1]); lemma_avok($h0, %s[0]); lemma_dsext($h0, $ch, $cself, %s, %s);' % (XS.replace('$h', '$h0'), XS.replace('$h', '$h0'), R(1).replace('$h', '$h0'), KL.replace('$h', '$h0'))]}, err=ND(2) + ' || dsearch($h, %s, %s, %s) is Raise' % (M, R(1), KL), res=['dsearch($h, %s, %s, %s) == Cmp::Ok(val($h1, $r)->B_0)' % (M, R(1), KL), 'val($h1, $r) is B'], requires=DW)
    return C
