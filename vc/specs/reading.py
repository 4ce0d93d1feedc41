"""P01, P02 tokens"""
from sym import Contract

TAGS = ('P01', 'P02', 'P03')

FIELDS = {'LispToken_Type': 'Map<int,int>', 'LispToken_Value': 'Map<int,int>', 'LispToken_StartPos': 'Map<int,int>', 'LispToken_StopPos': 'Map<int,int>', 'LispToken_LineNo': 'Map<int,int>'}
CLASSES = ['LispToken']
TEXT = '''
// ---- tokens: the kind and the value of a token text
pub open spec fn isint(s: Seq<int>) -> bool { c_stoi_st(s, 10) != 1 && c_stoi_st(s, 10) != 2 && c_stoi_len(s, 10) >= s.len() }
pub open spec fn isdbl(s: Seq<int>) -> bool { c_stod_st(s) != 1 && c_stod_st(s) != 2 && c_stod_len(s) >= s.len() }
pub open spec fn tkind(s: Seq<int>) -> int {
    if s.len() > 0 && s[0] == 34 { 3 } else if s == LIT("\'") { 6 } else if s == LIT("`") { 7 } else if s == LIT(",") { 8 } else if s == LIT(",@") { 9 } else if s == LIT("(") { 0 } else if s == LIT(")") { 1 }
    else if isint(s) { 4 } else if isdbl(s) { 5 } else if s == LIT("true") || s == LIT("#t") { 10 } else if s == LIT("false") || s == LIT("#f") { 11 }
    else if supper(s) == LIT("NIL") { 13 } else if s.len() > 0 && s[0] == 59 { 12 } else { 2 }
}
pub open spec fn tval(s: Seq<int>) -> Val {
    let t = tkind(s);
    if t == 3 { Val::S(ssub(s, 1, u64w(s.len() - 2))) } else if t == 4 { Val::I(c_stoi(s, 10)) } else if t == 5 { Val::F(c_stod(s)) } else if t == 10 { Val::B(true) } else if t == 11 { Val::B(false) } else { Val::S(s) }
}
pub open spec fn tokwf(h: H, t: int) -> bool { ok(h, t, K_LispToken()) && awf(h, h.LispToken_Value[t]) && h.object_m_Type[h.LispToken_Value[t]] != 11 }
pub open spec fn obval(h: H, o: int) -> Val {
    let t = h.object_m_Type[o];
    if t == 2 { Val::B(h.DataType_b[o]) } else if t == 3 { Val::I(h.DataType_i[o]) } else if t == 4 { Val::F(h.DataType_d[o]) } else if t == 5 { Val::S(h.strv[h.DataType_pString[o]]) } else if t == 1 { Val::N(0) } else { Val::U(0) }
}
pub proof fn lemma_start1(s: Seq<int>, t: Seq<int>) requires t.len() == 1 ensures (s_cmp(s_substr(s, 0, t.len() as int), t) == 0) == (s.len() > 0 && s[0] == t[0]) { ax_scmp(s_substr(s, 0, 1), t); let u = s_substr(s, 0, 1); if s.len() > 0 && s[0] == t[0] { assert(u =~= t); } if u == t { assert(u[0] == t[0]); assert(u.len() == 1); } }
pub proof fn lemma_tokstart(s: Seq<int>) ensures (s_cmp(s_substr(s, 0, LIT("\\"").len() as int), LIT("\\"")) == 0) == (s.len() > 0 && s[0] == 34), (s_cmp(s_substr(s, 0, LIT(";").len() as int), LIT(";")) == 0) == (s.len() > 0 && s[0] == 59) {
    reveal(LITNAME("\\"")); reveal(LITNAME(";")); lemma_start1(s, LIT("\\"")); lemma_start1(s, LIT(";"));
}
// the token t was made of the text s
pub open spec fn tokof(h: H, t: int, s: Seq<int>, start: int, stop: int, line: int) -> bool {
    tokwf(h, t) && h.LispToken_Type[t] == tkind(s) && (tkind(s) != 13 ==> obval(h, h.LispToken_Value[t]) == tval(s)) && h.LispToken_StartPos[t] == start && h.LispToken_StopPos[t] == stop && h.LispToken_LineNo[t] == line
}
// ---- the tokens of a program text
pub struct Tok { pub text: Seq<int>, pub start: int, pub stop: int, pub line: int }
pub enum Lex { Bad, Ok(Seq<Tok>) }
// position of the end of the line: its newline, or the end of the text
pub open spec fn eol(s: Seq<int>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { i } else if s[i] == 10 { i } else { eol(s, i + 1) } }
// one step of reading at position i: the tokens that end here, and the state behind it. cur: part of the token that is read already, m: it is a symbol (1), a string (2)
// or there is none (0); bs: behind a backslash
pub struct Ls { pub i: int, pub cur: Seq<int>, pub start: int, pub line: int, pub m: int, pub bs: bool }
pub enum Step { Bad, Go(Seq<Tok>, Ls) }
pub open spec fn lstep(s: Seq<int>, off: int, l: Ls) -> Step {
    let c = s[l.i];
    let n = Ls { i: l.i + 1, bs: false, ..l };
    // the token that ends in front of this position
    let t1 = Tok { text: l.cur, start: u64w(l.start - off), stop: u64w(l.i - off), line: l.line };
    let pre = if l.m == 1 { seq![t1] } else { Seq::empty() };
    // start of a token that begins here (behind the end of the token before)
    let st = if l.m == 1 { l.i + 1 } else { l.start };
    let one = Tok { text: seq![c], start: u64w(st - off), stop: u64w(l.i - off), line: l.line };
    let fresh = Ls { cur: Seq::empty(), start: l.i + 1, m: 0, ..n };
    if l.m == 2 {
        // in a string literal
        if c == 34 && !l.bs { Step::Go(seq![Tok { text: seq![34int] + l.cur + seq![34int], ..t1 }], fresh) }
        else if c == 92 && !l.bs { Step::Go(Seq::empty(), Ls { bs: true, ..n }) }
        else if l.bs && !sp(c) && !delim(c) && c != 34 && c != 92 { if escc(c) == 0 { Step::Bad } else { Step::Go(Seq::empty(), Ls { cur: l.cur.push(escc(c)), ..n }) } }
        else { Step::Go(Seq::empty(), Ls { cur: l.cur.push(c), line: if c == 10 { l.line + 1 } else { l.line }, ..n }) }
    } else if sp(c) {
        let nl = if c == 10 { l.line + 1 } else { l.line };
        if l.m == 1 { Step::Go(pre, Ls { line: nl, ..fresh }) } else { Step::Go(pre, Ls { line: nl, ..n }) }
    } else if c == 92 {
        if l.bs { Step::Go(Seq::empty(), Ls { cur: l.cur.push(c), m: 1, ..n }) } else { Step::Go(Seq::empty(), Ls { bs: true, ..n }) }
    } else if c == 34 {
        if l.bs { Step::Go(Seq::empty(), Ls { cur: l.cur.push(c), m: 1, ..n }) } else { Step::Go(pre, Ls { cur: Seq::empty(), start: st, m: 2, ..n }) }
    } else if c == 59 {
        // a comment ends at the end of its line
        let e = eol(s, l.i + 1);
        if e < s.len() { Step::Go(pre.push(Tok { text: s.subrange(l.i, e + 1), ..one }), Ls { i: e + 1, line: l.line + 1, ..fresh }) } else { Step::Go(pre.push(Tok { text: s.subrange(l.i, s.len() as int), ..one }), Ls { i: s.len() as int, line: l.line + 1, ..fresh }) }
    } else if c == 44 && l.i + 1 < s.len() && s[l.i + 1] == 64 { Step::Go(pre.push(Tok { text: seq![44int, 64int], stop: u64w(l.i + 1 - off), ..one }), Ls { i: l.i + 2, start: l.i + 2, ..fresh }) }
    else if delim(c) { Step::Go(pre.push(one), fresh) }
    else if l.bs { if escc(c) == 0 { Step::Bad } else { Step::Go(Seq::empty(), Ls { cur: l.cur.push(escc(c)), m: 1, ..n }) } }
    else { Step::Go(Seq::empty(), Ls { cur: l.cur.push(c), m: 1, ..n }) }
}
// the tokens from a state on
pub open spec fn lx(s: Seq<int>, off: int, l: Ls) -> Lex decreases s.len() - l.i {
    if l.i < 0 || l.i >= s.len() { if l.cur.len() > 0 { Lex::Ok(seq![Tok { text: l.cur, start: u64w(l.start - off), stop: u64w(npos() - off), line: l.line }]) } else { Lex::Ok(Seq::empty()) } }
    else { match lstep(s, off, l) { Step::Bad => Lex::Bad, Step::Go(t, n) => if n.i <= l.i { Lex::Bad } else { emits(t, lx(s, off, n)) } } }
}
pub open spec fn emits(t: Seq<Tok>, r: Lex) -> Lex { match r { Lex::Ok(x) => Lex::Ok(t + x), y => y } }
pub proof fn lemma_eol(s: Seq<int>, i: int) requires 0 <= i <= s.len() ensures i <= eol(s, i) <= s.len(), eol(s, i) < s.len() ==> s[eol(s, i)] == 10, forall|j: int| i <= j < eol(s, i) ==> s[j] != 10 decreases s.len() - i { if i < s.len() && s[i] != 10 { lemma_eol(s, i + 1); } }
// the end of the line as the tokenizer finds it
pub proof fn lemma_eolfind(s: Seq<int>, i: int) requires 0 <= i <= s.len(), smax(s)
    ensures i <= eol(s, i) <= s.len(), s_find(s.subrange(i, s.len() as int), LIT("\\n"), 0) == (if eol(s, i) < s.len() { eol(s, i) - i } else { npos() })
{
    reveal(LITNAME("\\n")); let u = s.subrange(i, s.len() as int); let t = LIT("\\n"); let e = eol(s, i); lemma_eol(s, i); ax_find(u, t, 0); let p = s_find(u, t, 0);
    if e < s.len() { assert(u.subrange(e - i, e - i + 1) =~= t); assert(s_match(u, t, e - i)); if p != npos() && p < e - i { assert(u.subrange(p, p + 1)[0] == 10); assert(s[i + p] == 10); } if p != npos() && p > e - i { assert(!s_match(u, t, e - i)); } }
    else if p != npos() { assert(u.subrange(p, p + 1)[0] == 10); assert(s[i + p] == 10); }
}
// brackets, comment and quote marks
pub open spec fn delim(c: int) -> bool { c == 40 || c == 41 || c == 59 || c == 39 || c == 96 || c == 44 }
// character of an escape (0: none)
pub open spec fn escc(c: int) -> int { if c == 110 { 10 } else if c == 114 { 13 } else if c == 116 { 9 } else { 0 } }
pub open spec fn lex(s: Seq<int>, off: int) -> Lex { lx(s, off, Ls { i: 0, cur: Seq::empty(), start: 0, line: 1, m: 0, bs: false }) }
pub open spec fn tokm(h: H, t: int, k: Tok) -> bool { tokof(h, t, k.text, k.start, k.stop, k.line) }
// the tokens of a vector are the first ones of F, and r are the others
pub open spec fn toksm(h: H, x: Seq<int>, f: Lex, r: Lex) -> bool {
    match f { Lex::Bad => r is Bad, Lex::Ok(y) => r is Ok && x.len() <= y.len() && r->Ok_0 =~= y.subrange(x.len() as int, y.len() as int) && forall|k: int| #![trigger x[k]] 0 <= k < x.len() ==> tokm(h, x[k], y[k]) }
}
// how the tokenizer puts token texts together
pub proof fn lemma_toktexts(s: Seq<int>, l: Ls) requires 0 <= l.i < s.len()
    ensures LIT("\\"") + l.cur + LIT("\\"") == seq![34int] + l.cur + seq![34int], Seq::<int>::empty() + seq![s[l.i]] == seq![s[l.i]], l.i + 1 < s.len() ==> Seq::<int>::empty() + seq![s[l.i]] + seq![s[l.i + 1]] == seq![s[l.i], s[l.i + 1]],
        forall|e: int| #![trigger s.subrange(l.i + 1, e)] l.i < e <= s.len() ==> Seq::<int>::empty() + seq![s[l.i]] + s.subrange(l.i + 1, e) == s.subrange(l.i, e),
        smax(s) ==> ssub(s, l.i + 1, npos()) == s.subrange(l.i + 1, s.len() as int), forall|k: int| #![trigger ssub(s.subrange(l.i + 1, s.len() as int), 0, k)] 0 <= k < s.len() - l.i ==> ssub(s.subrange(l.i + 1, s.len() as int), 0, k) == s.subrange(l.i + 1, l.i + 1 + k)
{
    let rest = s.subrange(l.i + 1, s.len() as int); if smax(s) { assert(ssub(s, l.i + 1, npos()) =~= rest); } assert forall|k: int| #![trigger ssub(rest, 0, k)] 0 <= k < s.len() - l.i implies ssub(rest, 0, k) == s.subrange(l.i + 1, l.i + 1 + k) by { assert(ssub(rest, 0, k) =~= s.subrange(l.i + 1, l.i + 1 + k)); }
    reveal(LITNAME("\\"")); assert(LIT("\\"") + l.cur + LIT("\\"") =~= seq![34int] + l.cur + seq![34int]); assert(Seq::<int>::empty() + seq![s[l.i]] =~= seq![s[l.i]]);
    if l.i + 1 < s.len() { assert(Seq::<int>::empty() + seq![s[l.i]] + seq![s[l.i + 1]] =~= seq![s[l.i], s[l.i + 1]]); }
    assert forall|e: int| #![trigger s.subrange(l.i + 1, e)] l.i < e <= s.len() implies Seq::<int>::empty() + seq![s[l.i]] + s.subrange(l.i + 1, e) == s.subrange(l.i, e) by { assert(Seq::<int>::empty() + seq![s[l.i]] + s.subrange(l.i + 1, e) =~= s.subrange(l.i, e)); }
}
// nothing but vectors has changed
pub open spec fn extv(h0: H, h1: H) -> bool { ext(h0, H { vec: h0.vec, ..h1 }) }
pub proof fn lemma_tokext(h0: H, h1: H, t: int, k: Tok) requires extv(h0, h1), tokm(h0, t, k) ensures tokm(h1, t, k) { let hh = H { vec: h0.vec, ..h1 }; assert(tokm(hh, t, k)); }
pub proof fn lemma_toks(h0: H, h1: H, x: Seq<int>, f: Lex, r: Lex) requires extv(h0, h1), toksm(h0, x, f, r) ensures toksm(h1, x, f, r) {
    match f { Lex::Bad => {}, Lex::Ok(y) => { assert forall|k: int| #![trigger x[k]] 0 <= k < x.len() implies tokm(h1, x[k], y[k]) by { lemma_tokext(h0, h1, x[k], y[k]); } } }
}
// further tokens
pub proof fn lemma_tokadd(h0: H, h: H, x: Seq<int>, z: Seq<int>, f: Lex, t: Seq<Tok>, r: Lex)
    requires extv(h0, h), toksm(h0, x, f, emits(t, r)), z.len() == x.len() + t.len(), forall|k: int| 0 <= k < x.len() ==> z[k] == x[k], forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> tokm(h, z[x.len() + k], t[k])
    ensures toksm(h, z, f, r)
{
    lemma_toks(h0, h, x, f, emits(t, r));
    match f { Lex::Bad => {}, Lex::Ok(y) => {
        let e = t + r->Ok_0;
        assert(e =~= y.subrange(x.len() as int, y.len() as int));
        assert(r->Ok_0 =~= e.subrange(t.len() as int, e.len() as int));
        assert forall|k: int| #![trigger z[k]] 0 <= k < z.len() implies tokm(h, z[k], y[k]) by { if k < x.len() { assert(z[k] == x[k]); } else { let j = k - x.len(); assert(t[j] == e[j]); assert(e[j] == y[k]); assert(tokm(h, z[x.len() + j], t[j])); } }
    } }
}
'''


def contracts():
    C = []
    add = lambda *a, **k: C.append(Contract(*a, **k))
    P2 = ('P02',)
    add('Int32_TryParse', mode='pure', out=[2], result='isint($1)', ensures=['isint($1) ==> -0x8000_0000 <= c_stoi($1, 10) <= 0x7fff_ffff', 'isint($1) ==> $o2 == u64w(c_stoi($1, 10))'], tags=P2)
    add('Double_TryParse', mode='pure', out=[4], result='isdbl($1)', ensures=['isdbl($1) ==> $o4 == c_stod($1)'], tags=P2)
    NEW = ['LispToken_%s@$self' % f for f in ('Type', 'Value', 'StartPos', 'StopPos', 'LineNo')]
    add('LispToken::LispToken', nparams=4, modifies=NEW, ensures=['tokof($h1, $self, $1, $2, $3, $4)', '$h1.LispToken_Value[$self] >= $h.alloc'], tags=P2,
        hints={'entry': ['lemma_tokstart($1);', 'assert(-0x8000_0000 <= c_stoi($1, 10) <= 0x7fff_ffff ==> i32w(u64w(c_stoi($1, 10))) == c_stoi($1, 10));']})
    add('LispToken::ToString', mode='pure', requires=['tokwf($h, $self)'], result='if $h.LispToken_Type[$self] == 13 { LIT("NIL") } else { ostr($h, $h.LispToken_Value[$self]) }', tags=P2)
    add('LispToken::operator==', mode='pure', requires=['tokwf($h, $self)', 'tokwf($h, $1)'], tags=P2)
    LS = 'Ls { i: @i, cur: @currentToken, start: @currentTokenStartPos, line: @lineCount, m: if @isInString { 2 } else if @isInSymbol { 1 } else { 0 }, bs: @wasLastBackslash }'
    F = 'lex($1, $2)'
    X = '$h.vec[@tokens]'
    add('LispTokenizer::ProcessCharAfterBackslash', mode='pure', raises=[('LispExceptionBase', 'escc($1) == 0 && $1 != 92')], result='if $1 == 92 { 92 } else { escc($1) }', tags=('P01',))
    add('LispTokenizer::Tokenize', raises=[('LispExceptionBase', F + ' is Bad')], ensures=['ok($h1, $r, K_vec())', 'toksm($h1, $h1.vec[$r], %s, Lex::Ok(Seq::empty()))' % F], tags=('P01',),
        part=15, rlimit=200, hints={'exit': ['let ghost te = seq![Tok { text: le.cur, start: u64w(le.start - $2), stop: u64w(npos() - $2), line: le.line }]; let ghost re = Lex::Ok(Seq::empty()); let ghost xz = $h1.vec[$r];', 'assert(emits(te, re)->Ok_0 =~= te);', 'assert(le.cur.len() == 0 ==> le.cur =~= Seq::empty());',
                                  'if le.cur.len() > 0 { assert(xz.len() == xx.len() + 1); }', 'if le.cur.len() > 0 { assert(tokm($h1, xz[xx.len() as int], te[0])); }', 'if le.cur.len() > 0 { lemma_tokadd(hx, $h1, xx, xz, %s, te, re); }' % F, 'if le.cur.len() == 0 { assert(xz =~= xx); lemma_toks(hx, $h1, xx, %s, Lex::Ok(Seq::empty())); }' % F], 'entry': ['assume($1.len() <= 0x7fff_ffff); // ASSUME a program text has less than 2^31 characters']},
        loops={'LispTokenizer::Tokenize:1': {
            'inv': ['0 <= @i <= $1.len()', 'ext($h0, $h)', 'ok($h, @tokens, K_vec())', '@tokens >= $h0.alloc', '!(@isInString && @isInSymbol)', '@isInString || @isInSymbol || @currentToken.len() == 0', '0 <= @lineCount <= @i + 1', '0 <= @currentTokenStartPos <= @i + 1', 'toksm($h, %s, %s, lx($1, $2, %s))' % (X, F, LS)],
            'hint_entry': ['assert(%s =~= Seq::<int>::empty()); if %s is Ok { let y = %s->Ok_0; assert(y.subrange(0, y.len() as int) =~= y); }' % (X, F, F)],
            'hint_top': ['if @i < $1.len() { ax_isspace($1[@i]); } let ghost ls = %s; let ghost xo = %s; let ghost ho = $h; let ghost stp = lstep($1, $2, ls); if @i < $1.len() { lemma_eolfind($1, @i + 1); }' % (LS, X)],
            'hint_exit': ['let ghost le = %s; let ghost xx = %s; let ghost hx = $h;' % (LS, X)],
            'hint_back': ['let ghost ln = %s; let ghost xn = %s;' % (LS, X), 'assert(stp is Go);', 'assert(stp->Go_1.cur =~= ln.cur);', 'assert(stp->Go_1 == ln);', 'assert(xn.len() == xo.len() + stp->Go_0.len());', 'assert(stp->Go_0.len() <= 2);',
                          'if stp->Go_0.len() > 0 { lemma_toktexts($1, ls); }', 'if stp->Go_0.len() > 0 { assert(tokm($h, xn[xo.len() as int], stp->Go_0[0])); }', 'if stp->Go_0.len() > 1 { assert(tokm($h, xn[xo.len() as int + 1], stp->Go_0[1])); }', 'lemma_tokadd(ho, $h, xo, xn, %s, stp->Go_0, lx($1, $2, ln));' % F]}})
    return C
