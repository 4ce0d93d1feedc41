"""P08 strings"""
from sym import Contract
from lists import XE, XS, N, A, R, AR, AE

TEXT = '''
// ---- strings
// std::string::find gives the first position at or behind pos where t occurs, or npos
#[verifier::external_body]
pub proof fn ax_find(s: Seq<int>, t: Seq<int>, pos: int) ensures find_ok(s, t, pos, s_find(s, t, pos)) {}
pub open spec fn smax(s: Seq<int>) -> bool { s.len() <= 0x7fff_ffff_ffff_ffff }
pub proof fn lemma_findtail(s: Seq<int>, t: Seq<int>, pos: int)
    requires 0 <= pos <= s.len(), smax(s)
    ensures s_find(s, t, pos) == (if s_find(s.subrange(pos, s.len() as int), t, 0) == npos() { npos() } else { s_find(s.subrange(pos, s.len() as int), t, 0) + pos }),
        s_find(s, t, pos) != npos() ==> pos <= s_find(s, t, pos) && s_find(s, t, pos) + t.len() <= s.len()
{
    let u = s.subrange(pos, s.len() as int);
    let a = s_find(s, t, pos); let b = s_find(u, t, 0);
    ax_find(s, t, pos); ax_find(u, t, 0);
    assert forall|p: int| 0 <= p implies #[trigger] s_match(u, t, p) == s_match(s, t, p + pos) by { if p + t.len() <= u.len() { assert(u.subrange(p, p + t.len()) =~= s.subrange(p + pos, p + pos + t.len())); } }
    if b != npos() { assert(s_match(s, t, b + pos)); }
    if a != npos() { assert(s_match(u, t, a - pos)); }
    if a == npos() && b != npos() { assert(false); }
    if a != npos() && b != npos() && a < b + pos { assert(!s_match(u, t, a - pos)); }
    if a != npos() && b != npos() && a > b + pos { assert(!s_match(s, t, b + pos)); }
}
pub open spec fn hit(s: Seq<int>, t: Seq<int>) -> bool { t.len() > 0 && 0 <= s_find(s, t, 0) && s_find(s, t, 0) + t.len() <= s.len() }
pub proof fn lemma_hit(s: Seq<int>, t: Seq<int>) requires smax(s), t.len() > 0 ensures hit(s, t) == (s_find(s, t, 0) != npos()) { ax_find(s, t, 0); }
// every occurrence, from left to right and without overlap, is replaced
pub open spec fn srep(s: Seq<int>, t: Seq<int>, r: Seq<int>) -> Seq<int> decreases s.len() {
    if hit(s, t) { let p = s_find(s, t, 0); s.subrange(0, p) + r + srep(s.subrange(p + t.len(), s.len() as int), t, r) } else { s }
}
// the parts between the separators
pub open spec fn ssplit(s: Seq<int>, t: Seq<int>) -> Seq<Seq<int>> decreases s.len() {
    if hit(s, t) { let p = s_find(s, t, 0); seq![s.subrange(0, p)] + ssplit(s.subrange(p + t.len(), s.len() as int), t) } else { seq![s] }
}
pub proof fn lemma_seqadd() ensures forall|a: Seq<int>, b: Seq<int>| a.len() == 0 ==> #[trigger] (a + b) == b, forall|a: Seq<int>, b: Seq<int>| b.len() == 0 ==> #[trigger] (a + b) == a {
    assert forall|a: Seq<int>, b: Seq<int>| a.len() == 0 implies #[trigger] (a + b) == b by { assert(a + b =~= b); }
    assert forall|a: Seq<int>, b: Seq<int>| b.len() == 0 implies #[trigger] (a + b) == a by { assert(a + b =~= a); }
}
// white space is removed at the ends
pub open spec fn sp(c: int) -> bool { c_isspace(c) != 0 }
pub open spec fn ltrim(s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() > 0 && sp(s[0]) { ltrim(s.subrange(1, s.len() as int)) } else { s } }
pub open spec fn rtrim(s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() > 0 && sp(s[s.len() - 1]) { rtrim(s.subrange(0, s.len() - 1)) } else { s } }
pub open spec fn strim(s: Seq<int>) -> Seq<int> { rtrim(ltrim(s)) }
pub proof fn lemma_ltrim(s: Seq<int>, i: int) requires 0 <= i <= s.len(), forall|j: int| #![trigger s[j]] 0 <= j < i ==> sp(s[j]), i < s.len() ==> !sp(s[i]) ensures ltrim(s) == s.subrange(i, s.len() as int) decreases s.len() {
    if i > 0 { let u = s.subrange(1, s.len() as int); assert(sp(s[0])); assert forall|j: int| #![trigger u[j]] 0 <= j < i - 1 implies sp(u[j]) by { assert(sp(s[j + 1])); } lemma_ltrim(u, i - 1); assert(u.subrange(i - 1, u.len() as int) =~= s.subrange(i, s.len() as int)); }
    else { assert(s.subrange(0, s.len() as int) =~= s); }
}
pub proof fn lemma_rtrim(s: Seq<int>, i: int) requires 0 <= i <= s.len(), forall|j: int| #![trigger s[j]] s.len() - i <= j < s.len() ==> sp(s[j]), i < s.len() ==> !sp(s[s.len() - 1 - i]) ensures rtrim(s) == s.subrange(0, s.len() - i) decreases s.len() {
    if i > 0 { let u = s.subrange(0, s.len() - 1); assert(sp(s[s.len() - 1])); assert forall|j: int| #![trigger u[j]] u.len() - (i - 1) <= j < u.len() implies sp(u[j]) by { assert(sp(s[j])); } lemma_rtrim(u, i - 1); assert(u.subrange(0, u.len() - (i - 1)) =~= s.subrange(0, s.len() - i)); }
    else { assert(s.subrange(0, s.len() as int) =~= s); }
}
pub open spec fn supper(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |i: int| c_toupper(s[i])) }
pub open spec fn slower(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |i: int| c_tolower(s[i])) }
pub open spec fn sstarts(s: Seq<int>, t: Seq<int>) -> bool { t.len() <= s.len() && s.subrange(0, t.len() as int) =~= t }
pub open spec fn sends(s: Seq<int>, t: Seq<int>) -> bool { t.len() <= s.len() && s.subrange(s.len() - t.len(), s.len() as int) =~= t }
pub open spec fn ssub(s: Seq<int>, p: int, n: int) -> Seq<int> { if p <= s.len() { s_substr(s, p, n) } else { Seq::empty() } }
pub open spec fn sindex(s: Seq<int>, t: Seq<int>, p: int, n: int) -> int { let q = s_find(s, t, p); if q != npos() && q - p + t.len() <= n { q } else { npos() } }
// the end of a format item {n} or {n,width} at position i, or npos if there is none
pub open spec fn fend(s: Seq<int>, i: int) -> int {
    if i + 2 >= s.len() || s[i] != 123 || s[i + 1] < 48 || s[i + 1] > 52 { npos() }
    else if s[i + 2] == 125 { i + 2 }
    else {
        let e = s_find(s, seq![125int], i + 2);
        if s[i + 2] != 44 || e == npos() { npos() } else {
            let m = ssub(s, i + 3, e - i - 3); let rest = c_strtol_rest(m, 10); let v = c_strtol(m, 10);
            if rest == m || s_at(rest, 0) != 0 || v > 0xffff || v < -0xffff { npos() } else { e }
        }
    }
}
pub open spec fn fwidth(s: Seq<int>, i: int) -> int { if fend(s, i) == npos() || s[i + 2] == 125 { 0 } else { c_strtol(ssub(s, i + 3, fend(s, i) - i - 3), 10) } }
pub open spec fn spaces(n: int) -> Seq<int> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| 32int) }
pub open spec fn spad(a: Seq<int>, w: int) -> Seq<int> { if w > 0 { spaces(w - a.len()) + a } else { a + spaces(-w - a.len()) } }
pub enum Fmt { Bad, Ok(Seq<int>) }
// the text with every format item replaced by its argument; an argument that is missing is an error
pub open spec fn fmt(s: Seq<int>, a: Seq<Seq<int>>, i: int) -> Fmt decreases s.len() - i {
    if i < 0 || i >= s.len() { Fmt::Ok(Seq::empty()) } else {
        let e = fend(s, i);
        if !(i < e < s.len()) { match fmt(s, a, i + 1) { Fmt::Ok(r) => Fmt::Ok(seq![s[i]] + r), x => x } }
        else if a[s[i + 1] - 48] == s_missing() { Fmt::Bad }
        else { match fmt(s, a, e + 1) { Fmt::Ok(r) => Fmt::Ok(spad(a[s[i + 1] - 48], fwidth(s, i)) + r), x => x } }
    }
}
pub open spec fn ssearch(s: Seq<int>, t: Seq<int>, p: int, n: int) -> int { if p == npos() { s_find(s, t, 0) } else if n == npos() { s_find(s, t, p) } else { sindex(s, t, p, n) } }
// the first element with the text t, or npos
pub open spec fn lsearch(h: H, xs: Seq<int>, t: Seq<int>, i: int) -> int decreases xs.len() - i { if i < 0 || i >= xs.len() { npos() } else if ostr(h, xs[i]) == t { i } else { lsearch(h, xs, t, i + 1) } }
pub proof fn lemma_ostra(h0: H, h1: H, o: int) requires ext(h0, h1), awf(h0, o) ensures ostr(h1, o) == ostr(h0, o) {
    if h0.object_m_Type[o] == 11 { ax_otext(h0, h1, o); } else { lemma_ostr(h0, h1, o); }
}
// ---- LAWS: what the definitions above mean
// a replaced text is the text itself if the pattern does not occur; the pieces of a split, joined by the separator, are the text again
pub open spec fn sjoin(x: Seq<Seq<int>>, t: Seq<int>) -> Seq<int> decreases x.len() { if x.len() == 0 { Seq::empty() } else if x.len() == 1 { x[0] } else { x[0] + t + sjoin(x.subrange(1, x.len() as int), t) } }
pub proof fn lemma_law_splitjoin(s: Seq<int>, t: Seq<int>) requires smax(s) ensures ssplit(s, t).len() >= 1, sjoin(ssplit(s, t), t) == s decreases s.len() {
    if hit(s, t) {
        let p = s_find(s, t, 0); let u = s.subrange(p + t.len(), s.len() as int);
        lemma_law_splitjoin(u, t); ax_find(s, t, 0);
        let x = ssplit(s, t);
        assert(x.subrange(1, x.len() as int) =~= ssplit(u, t));
        assert(s.subrange(p, p + t.len()) =~= t);
        assert(s =~= s.subrange(0, p) + t + u);
    }
}
pub proof fn lemma_law_replsame(s: Seq<int>, t: Seq<int>) requires smax(s) ensures srep(s, t, t) == s decreases s.len() {
    if hit(s, t) { let p = s_find(s, t, 0); let u = s.subrange(p + t.len(), s.len() as int); lemma_law_replsame(u, t); ax_find(s, t, 0); assert(s.subrange(p, p + t.len()) =~= t); assert(s =~= s.subrange(0, p) + t + u); }
}
// trimming removes white space only at the ends: what is left is a part of the text without white space at its ends
pub proof fn lemma_law_trim(s: Seq<int>) ensures strim(s).len() > 0 ==> !sp(strim(s)[0]) && !sp(strim(s)[strim(s).len() - 1]), strim(strim(s)) == strim(s) {
    lemma_lt(s); lemma_rt(ltrim(s)); lemma_lt(strim(s)); lemma_rt(ltrim(strim(s)));
}
pub proof fn lemma_lt(s: Seq<int>) ensures ltrim(s).len() > 0 ==> !sp(ltrim(s)[0]), s.len() > 0 && !sp(s[0]) ==> ltrim(s) == s decreases s.len() { if s.len() > 0 && sp(s[0]) { lemma_lt(s.subrange(1, s.len() as int)); } }
pub proof fn lemma_rt(s: Seq<int>) ensures rtrim(s).len() > 0 ==> !sp(rtrim(s)[rtrim(s).len() - 1]) && rtrim(s)[0] == s[0], s.len() > 0 && !sp(s[s.len() - 1]) ==> rtrim(s) == s, rtrim(s).len() <= s.len() decreases s.len() { if s.len() > 0 && sp(s[s.len() - 1]) { lemma_rt(s.subrange(0, s.len() - 1)); } }
'''
GLOBALS = {'string::NoArgument': 's_missing()'}


def contracts():
    C = []
    add = lambda *a, **k: C.append(Contract(*a, **k))
    P = ('P08',)
    S = '$self'
    add('do_replace', mode='pure', out=[1], ensures=['$o1 == srep($1, $2, $3)', '$r == $o1'], tags=P,
        loops={'do_replace:1': {'inv': ['0 <= @pos <= @s.len()', '@s.subrange(0, @pos) + srep(@s.subrange(@pos, @s.len() as int), $2, $3) =~= srep($1, $2, $3)'],
            'hint_entry': ['assert($1.subrange(0, $1.len() as int) =~= $1);'],
            'hint_top': ['assume(smax(@s)); // ASSUME the length of a string is at most std::string::max_size()', 'let ghost so = @s; let ghost po = @pos; let ghost tl = so.subrange(po, so.len() as int); lemma_findtail(so, $2, po); lemma_hit(tl, $2); let ghost q = s_find(tl, $2, 0); let ghost u = tl.subrange(q + $2.len(), tl.len() as int);',
                'if !hit(tl, $2) { assert(so.subrange(0, po) + tl =~= so); }'],
            'hint_back': ['assert(@pos == po + q + $3.len()); assert(@s.subrange(@pos, @s.len() as int) =~= u); assert(srep(tl, $2, $3) == tl.subrange(0, q) + $3 + srep(u, $2, $3)); assert(@s.subrange(0, @pos) =~= so.subrange(0, po) + tl.subrange(0, q) + $3); assert(@s.subrange(0, @pos) + srep(u, $2, $3) =~= so.subrange(0, po) + srep(tl, $2, $3));']}})
    add('string::Substring', mode='pure', result='ssub($self, $1, $2)', tags=P)
    add('string::Replace', mode='pure', result='srep($self, $1, $2)', tags=P)
    add('string::StartsWith', mode='pure', result='s_cmp(s_substr($self, 0, $1.len() as int), $1) == 0', tags=P)
    add('string::EndsWith', mode='pure', ensures=['$r == sends($self, $1)'], tags=P)
    add('string::ToUpper', mode='pure', result='supper($self)', tags=P)
    add('string::ToLower', mode='pure', result='slower($self)', tags=P)
    add('string::Trim', mode='pure', result='strim($self)', tags=P, hints={'entry': ['lemma_seqadd();',
        'assert forall|i: int| 0 <= i <= $self.len() && (forall|j: int| #![trigger $self[j]] 0 <= j < i ==> sp($self[j])) && (i < $self.len() ==> !sp($self[i])) implies #[trigger] $self.subrange(i, $self.len() as int) == ltrim($self) by { lemma_ltrim($self, i); }',
        'assert forall|u: Seq<int>, k: int| 0 <= k <= u.len() && (forall|j: int| #![trigger u[j]] k <= j < u.len() ==> sp(u[j])) && (0 < k ==> !sp(u[k - 1])) implies #[trigger] u.subrange(0, k) == rtrim(u) by { lemma_rtrim(u, u.len() - k); }']})
    FI = lambda pos: 's_find($self, $1, %s)' % pos
    add('string::IndexOf', key='IndexOf(case)', nparams=2, mode='pure', types=['const string &', 'const string &'], result=FI('0'), tags=P)
    add('string::IndexOf', key='IndexOf(pos)', nparams=2, mode='pure', types=['const string &', 'size_t'], result=FI('$2'), tags=P)
    # only the count characters from the position on are searched
    add('string::IndexOf', key='IndexOf(count)', nparams=3, mode='pure', types=['const string &', 'size_t', 'size_t'], result='sindex($self, $1, $2, $3)', tags=P,
        hints={'entry': ['assume(smax($self)); // ASSUME the length of a string is at most std::string::max_size()', 'ax_find($self, $1, $2);']})
    SS = 'ssplit($self, $1)'
    add('string::Split', mode='pure', ensures=['ok($h1, $r, K_vec())', '$r >= $h.alloc', '$h1.vecs[$r] =~= ' + SS], tags=P, loops={'string::Split:1': {
        'inv': ['0 <= @prev_pos <= @s.len()', '@pos == @prev_pos', '@s == $self', 'ext($h0, $h)', 'ok($h, @output, K_vec())', '@output >= $h0.alloc', '$h.vecs[@output] + ssplit($self.subrange(@pos, $self.len() as int), $1) =~= ' + SS],
        'hint_entry': ['assert($self.subrange(0, $self.len() as int) =~= $self);'],
        'hint_top': ['assume(smax(@s)); // ASSUME the length of a string is at most std::string::max_size()', 'let ghost so = @s; let ghost po = @pos; let ghost oo = $h.vecs[@output]; let ghost tl = so.subrange(po, so.len() as int); lemma_findtail(so, $1, po); if $1.len() > 0 { lemma_hit(tl, $1); } let ghost q = s_find(tl, $1, 0); let ghost u = tl.subrange(q + $1.len(), tl.len() as int); if !hit(tl, $1) { assert(oo + seq![tl] =~= ' + SS + '); assert(oo.push(tl) =~= oo + seq![tl]); }'],
        'hint_back': ['assert(@pos == po + q + $1.len()); assert(@s.subrange(@pos, @s.len() as int) =~= u); assert(so.subrange(po, po + q) =~= tl.subrange(0, q)); assert(ssplit(tl, $1) =~= seq![tl.subrange(0, q)] + ssplit(u, $1)); assert($h.vecs[@output] =~= oo + seq![tl.subrange(0, q)]); assert($h.vecs[@output] + ssplit(u, $1) =~= oo + ssplit(tl, $1));']}})
    add('FindEndOfFormatItem', mode='pure', out=[3], requires=['0 <= $2 <= $1.len()'], result='fend($1, $2)', ensures=['$o3 == fwidth($1, $2)', 'fend($1, $2) == npos() || $2 + 1 < fend($1, $2) < $1.len()'], tags=P,
        hints={'entry': ['assume(smax($1)); // ASSUME the length of a string is at most std::string::max_size()', 'ax_find($1, seq![125int], $2 + 2); let ghost e0 = s_find($1, seq![125int], $2 + 2); if e0 != npos() { assert(s_match($1, seq![125int], e0)); assert($1.subrange(e0, e0 + 1)[0] == 125); }']})
    FM = 'fmt($1, seq![$2, $3, $4, $5, $6], 0)'
    FN = FM.replace(', 0)', ', @i)')
    add('string::Format', mode='pure', raises=[('LispExceptionBase', FM + ' is Bad')], ensures=[FM + ' == Fmt::Ok($r)'], tags=P,
        hints={'entry': ['assume(smax($1)); // ASSUME the length of a string is at most std::string::max_size()']},
        loops={'string::Format:1': {'inv': ['0 <= @i <= $1.len()', 'match %s { Fmt::Ok(r) => %s == Fmt::Ok(@ret + r), x => %s is Bad }' % (FN, FM, FM)],
            'hint_top': ['let ghost ro = @ret; let ghost io = @i; lemma_seqadd();'],
            'hint_back': ['let ghost pd = if fend($1, io) == npos() { seq![$1[io]] } else { spad(seq![$2, $3, $4, $5, $6][$1[io + 1] - 48], fwidth($1, io)) }; assert(@ret =~= ro + pd); match %s { Fmt::Ok(r) => { assert(%s == Fmt::Ok(pd + r)); assert(@ret + r =~= ro + (pd + r)); } _ => {} }' % (FN, FN.replace('@i', 'io'))]}})
    def bi(name, err, res, hints=None, entry=(), **k):
        h = {'entry': AE + list(entry)}
        h.update(hints or {})
        add(name, requires=AR, raises=[(XE, err)] if err else [], ensures=['vwf($h1, $r)', '$r >= $h.alloc'] + res, tags=k.pop('tags', P), hints=h, **k)
    T = lambda i: 'pv($h, %s)' % A(i)
    for nm, f in (('Trim', 'strim'), ('LowerCase', 'slower'), ('UpperCase', 'supper')):
        bi(nm, N + ' != 1', ['val($h1, $r) == Val::S(%s(pv($h, %s)))' % (f, R(0))])
    AT = {'LispVariant::ToString': ['lemma_avok($h0, {0}); lemma_texts($h0, $ch, aval($h0, {0}));'.format('$h0.vec[$1][0]')]}
    OS = lambda i: 'ostr($h, %s[%d])' % (XS, i)
    bi('Replace', N + ' != 3', ['val($h1, $r) == Val::S(srep(%s, %s, %s))' % (OS(0), OS(1), OS(2))])
    bi('Slice', at=AT, err='%s != 3 || !vconv(%s) || !vconv(%s)' % (N, A(1), A(2)), res=['val($h1, $r) == Val::S(ssub(%s, u64w(vint(%s)), if vint(%s) >= 0 { vint(%s) } else { npos() }))' % (T(0), A(1), A(2), A(2))])
    PP = '(if %s > 2 { u64w(vint(%s)) } else { npos() })' % (N, A(2))
    LL = '(if %s > 3 { u64w(vint(%s)) } else { npos() })' % (N, A(3))
    bi('Search', at=AT, loops={'Search:1': {'inv': ['0 <= @__i <= @__n', '@i == @__i', '@__n == vels(%s).len()' % R(1).replace('$h', '$h0'), 'ext($h0, $h)', '@foundPos == npos()', 'lsearch($h0, vels(%s), %s, 0) == lsearch($h0, vels(%s), %s, @i)' % ((R(1).replace('$h', '$h0'), T(0).replace('$h', '$h0')) * 2)],
        'hint_top': ['if @__i < @__n { let ghost eo = vels(%s)[@__i]; assume(awf($h0, eo)); lemma_ostra($h0, $h, eo); lemma_aval($h0, $h, eo); } // ASSUME elements of lists are valid objects' % R(1).replace('$h', '$h0')]}}, err='%s < 2 || %s > 4 || %s > 2 && !vconv(%s) || %s > 3 && !vconv(%s) || !(%s is S || vlist(%s))' % (N, N, N, A(2), N, A(3), R(1), R(1)),
       res=['val($h1, $r) == Val::I(i32w(if %s is S { ssearch(%s->S_0, %s, %s, %s) } else { lsearch($h, vels(%s), %s, 0) }))' % (R(1), R(1), T(0), PP, LL, R(1), T(0))])
    AL = 'seq![%s]' % ', '.join('if %s > %d { %s } else { s_missing() }' % (N, i, OS(i)) for i in range(1, 6))
    FB = 'fmt(%s, %s, 0)' % (OS(0), AL)
    bi('Format', '%s < 1 || %s > 6 || %s is Bad' % (N, N, FB), ['val($h1, $r) is S && %s == Fmt::Ok(val($h1, $r)->S_0)' % FB])
    return C
