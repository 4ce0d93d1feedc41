"""Vocabulary shared by the specifications: the value of a LispVariant, class invariants, texts of values."""
from sym import Contract

FIELDS = {'DataType_pFunctionWrapper': 'Map<int,int>', 'object_m_Type': 'Map<int,int>', 'DataType_b': 'Map<int,bool>', 'DataType_i': 'Map<int,int>', 'DataType_d': 'Map<int,D>',
          'DataType_pString': 'Map<int,int>', 'DataType_pVariant': 'Map<int,int>', 'DataType_pList': 'Map<int,int>', 'DataType_pDictionary': 'Map<int,int>', 'map_var': 'Map<int,Map<int,int>>', 'map_vark': 'Map<int,Map<int,int>>', 'strv': 'Map<int,Seq<int>>',
          'vec': 'Map<int,Seq<int>>', 'LispVariant_Type': 'Map<int,int>', 'LispVariant_Value': 'Map<int,int>', 'LispVariant_Token': 'Map<int,int>',
          'LispVariant_IsUnQuoted': 'Map<int,int>', 'LispVariant_CachedFunction': 'Map<int,int>'}
CLASSES = ['Dictionary<LispVariant, std::shared_ptr<object>>', 'object', 'LispVariant', 'IEnumerable<std::shared_ptr<object>>', 'string', 'LispToken', 'LispFunctionWrapper']
T = dict(U=0, Nil=1, Bool=2, Int=3, Double=4, String=5, List=6, Function=7, Symbol=8, Native=9, LValue=11, Error=999)

TEXT = '''
// ---- the value of a variant ----------------------------------------------------------------------
// U undefined, N nil, O every other kind (function, symbol, native object, setter, error): with the object behind the value
pub enum Val { U(int), N(int), B(bool), I(int), F(D), S(Seq<int>), L(Seq<int>), O(int, int) }
pub open spec fn vnum(v: Val) -> bool { v is I || v is F }
// text of a list: a function of its elements
pub uninterp spec fn ltext(h: H, xs: Seq<int>) -> Seq<int>;
// text of an object of another kind
pub uninterp spec fn otext(h: H, o: int) -> Seq<int>;
pub open spec fn ostr(h: H, o: int) -> Seq<int> {
    let t = h.object_m_Type[o];
    if t == 3 { i_str(h.DataType_i[o]) } else if t == 4 { d_str(h.DataType_d[o]) } else if t == 5 { h.strv[h.DataType_pString[o]] }
    else if t == 2 { btext(h.DataType_b[o]) } else if t == 6 { ltext(h, h.vec[h.DataType_pList[o]]) } else { otext(h, o) }
}
pub open spec fn btext(b: bool) -> Seq<int> { if b { LIT("true") } else { LIT("false") } }
#[verifier::external_body]
pub proof fn ax_ltext(h0: H, h1: H, xs: Seq<int>) requires ext(h0, h1) ensures ltext(h1, xs) == ltext(h0, xs) {}
#[verifier::external_body]
pub proof fn ax_otext(h0: H, h1: H, o: int) requires ext(h0, h1), 0 < o < h0.alloc ensures otext(h1, o) == otext(h0, o) {}
pub open spec fn svalue(h: H, v: int) -> Seq<int> { if h.LispVariant_Value[v] == 0 { LIT("null") } else { ostr(h, h.LispVariant_Value[v]) } }
pub open spec fn val(h: H, v: int) -> Val {
    let t = h.LispVariant_Type[v];
    let o = h.LispVariant_Value[v];
    if t == 0 { Val::U(o) } else if t == 1 { Val::N(o) } else if t == 2 { Val::B(h.DataType_b[o]) }
    else if t == 3 { Val::I(h.DataType_i[o]) } else if t == 4 { Val::F(h.DataType_d[o]) } else if t == 5 { Val::S(h.strv[h.DataType_pString[o]]) }
    else if t == 6 { Val::L(h.vec[h.DataType_pList[o]]) } else { Val::O(t, o) }
}
pub open spec fn otext0(h: H, o: int) -> Seq<int> { if o == 0 { LIT("null") } else { ostr(h, o) } }
// text of a value as an operand of a string operation
pub open spec fn vtext(h: H, v: Val) -> Seq<int> {
    match v { Val::U(o) => otext0(h, o), Val::N(o) => otext0(h, o), Val::B(b) => btext(b), Val::I(i) => i_str(i), Val::F(d) => d_str(d), Val::S(s) => s, Val::L(xs) => ltext(h, xs), Val::O(t, o) => otext0(h, o) }
}
// class invariants
// kinds of objects in use
pub open spec fn okind(t: int) -> bool { (0 <= t <= 6) || t == 11 || t == 12 || t == 16 || t == 17 || t == 18 || t == 100 || t == 101 }
pub open spec fn owf(h: H, o: int) -> bool {
    ok(h, o, K_object()) && (h.object_m_Type[o] == 5 ==> ok(h, h.DataType_pString[o], K_string())) && (h.object_m_Type[o] == 6 ==> ok(h, h.DataType_pList[o], K_vec())) && (h.object_m_Type[o] == 18 ==> ok(h, h.DataType_pDictionary[o], K_map_var()))
    && okind(h.object_m_Type[o]) && (h.object_m_Type[o] == 11 ==> ok(h, h.DataType_pVariant[o], K_LispVariant())) && (h.object_m_Type[o] == 12 ==> ok(h, h.DataType_pFunctionWrapper[o], K_LispFunctionWrapper())) && (h.object_m_Type[o] == 3 ==> -0x8000_0000 <= h.DataType_i[o] <= 0x7fff_ffff)
}
pub open spec fn vwf(h: H, v: int) -> bool {
    let t = h.LispVariant_Type[v];
    let o = h.LispVariant_Value[v];
    ok(h, v, K_LispVariant()) && (o != 0 ==> owf(h, o) && h.object_m_Type[o] != 11) && (2 <= t <= 6 ==> o != 0 && h.object_m_Type[o] == t) && (t == 7 ==> o != 0 && h.object_m_Type[o] == 12) && (t == 8 || t == 9 || t == 999 ==> o != 0) && 0 <= o && (0 <= t <= 9 || t == 11 || t == 999)
}
// an object that holds a value: a variant, or the plain data
pub open spec fn awf(h: H, o: int) -> bool { owf(h, o) && (h.object_m_Type[o] == 11 ==> vwf(h, h.DataType_pVariant[o])) }
// type of a variant made of plain data
pub open spec fn convt(t: int) -> int {
    if t == 12 { 7 } else if t == 13 { 5 } else if t == 14 { 6 } else if 0 <= t <= 9 || t == 999 { t } else { 0 }
}
pub open spec fn aval(h: H, o: int) -> Val {
    if h.object_m_Type[o] == 11 { val(h, h.DataType_pVariant[o]) } else {
        let t = convt(h.object_m_Type[o]);
        if t == 0 { Val::U(o) } else if t == 1 { Val::N(o) } else if t == 2 { Val::B(h.DataType_b[o]) } else if t == 3 { Val::I(h.DataType_i[o]) }
        else if t == 4 { Val::F(h.DataType_d[o]) } else if t == 5 { Val::S(h.strv[h.DataType_pString[o]]) } else if t == 6 { Val::L(h.vec[h.DataType_pList[o]]) }
        else { Val::O(t, o) }
    }
}
pub open spec fn vint(v: Val) -> int { match v { Val::B(b) => if b { 1int } else { 0int }, Val::I(i) => i, Val::F(d) => d_toi(d), Val::S(s) => c_atoi(s), _ => 0 } }
pub open spec fn vdbl(v: Val) -> D { match v { Val::B(b) => if b { d_of(1) } else { d_of(0) }, Val::I(i) => d_of(i), Val::F(d) => d, Val::S(s) => c_atof(s), _ => d_of(0) } }
pub open spec fn vboolc(v: Val) -> bool { v is B || v is I || v is F }
pub open spec fn vbool(v: Val) -> bool { match v { Val::B(b) => b, Val::I(i) => i != 0, Val::F(d) => d_lt(DLIT(1e-8), d_abs(d)), _ => false } }
pub open spec fn typeof_(t: int) -> int {
    if t == 3 { 3int } else if t == 4 { 4 } else if t == 2 { 2 } else if t == 5 { 5 } else if t == 14 || t == 6 { 6 } else if t == 12 { 7 } else if t == 13 { 8 } else { 0 }
}
pub open spec fn vconv(v: Val) -> bool { v is B || v is I || v is F || v is S }
pub proof fn lemma_vint(h: H, v: int) requires vwf(h, v) ensures -0x8000_0000 <= vint(val(h, v)) <= 0x7fff_ffff {
    match val(h, v) { Val::F(d) => ax_toi(d), Val::S(s) => ax_atoi(s), _ => {} }
}
pub proof fn lemma_aint(h: H, v: int) requires awf(h, v) ensures -0x8000_0000 <= vint(aval(h, v)) <= 0x7fff_ffff {
    match aval(h, v) { Val::F(d) => ax_toi(d), Val::S(s) => ax_atoi(s), _ => {} }
}
// no scope was created
pub open spec fn nosc(h0: H, h1: H) -> bool { forall|a: int| #![trigger h1.cls[a]] h0.alloc <= a < h1.alloc ==> h1.cls[a] != K_LispScope() }
// objects with static storage: the nil value and the empty list (never changed)
pub uninterp spec fn G_nil() -> int;
pub uninterp spec fn G_empty() -> int;
pub uninterp spec fn G_emptylist() -> int;
pub open spec fn gwf(h: H) -> bool {
    ok(h, G_nil(), K_LispVariant()) && h.LispVariant_Type[G_nil()] == 1 && h.LispVariant_Value[G_nil()] == 0 && ok(h, G_empty(), K_vec()) && h.vec[G_empty()].len() == 0
    && ok(h, G_emptylist(), K_vec()) && h.vec[G_emptylist()].len() == 0
}
// value seen through a reference to the variant in an object: nil when the object holds plain data
pub open spec fn rval(h: H, o: int) -> Val { if h.object_m_Type[o] == 11 { val(h, h.DataType_pVariant[o]) } else { Val::N(0) } }
pub open spec fn vlist(a: Val) -> bool { a is L || a is N }
pub open spec fn vels(a: Val) -> Seq<int> { match a { Val::L(xs) => xs, _ => Seq::empty() } }
// the arguments of a function: valid objects
pub open spec fn argok(h: H, a: int) -> bool { ok(h, a, K_vec()) && forall|i: int| #![trigger h.vec[a][i]] 0 <= i < h.vec[a].len() ==> awf(h, h.vec[a][i]) }
// printed form of a value
pub open spec fn pv(h: H, v: Val) -> Seq<int> {
    match v { Val::S(s) => s, Val::I(i) => i_str(i), Val::F(d) => d_str(d), Val::B(b) => if b { LIT("#t") } else { LIT("#f") }, Val::N(o) => LIT("NIL"), Val::U(o) => LIT("<undefined>"),
        Val::L(xs) => ptlist(h, xs), Val::O(t, o) => if t == 8 { ostr(h, o) } else if t == 999 { LIT("Error: ") + ostr(h, o) } else { ptother(h, t, o) } }
}
pub open spec fn ptext(h: H, v: int) -> Seq<int> { pv(h, val(h, v)) }
pub uninterp spec fn ptlist(h: H, xs: Seq<int>) -> Seq<int>;
pub uninterp spec fn ptother(h: H, t: int, o: int) -> Seq<int>;
// texts depend on existing objects only
#[verifier::external_body]
pub proof fn ax_ptlist(h0: H, h1: H, xs: Seq<int>) requires ext(h0, h1) ensures ptlist(h1, xs) == ptlist(h0, xs) {}
#[verifier::external_body]
pub proof fn ax_ptother(h0: H, h1: H, t: int, o: int) requires ext(h0, h1), 0 < o < h0.alloc ensures ptother(h1, t, o) == ptother(h0, t, o) {}
// a value refers to living objects only
pub open spec fn vok(h: H, v: Val) -> bool {
    match v { Val::U(o) => o == 0 || plain(h, o), Val::N(o) => o == 0 || plain(h, o), Val::O(t, o) => (o == 0 && t != 7 && t != 8 && t != 9 && t != 999) || plain(h, o), Val::I(i) => -0x8000_0000 <= i <= 0x7fff_ffff, _ => true }
}
pub open spec fn plain(h: H, o: int) -> bool { owf(h, o) && h.object_m_Type[o] != 11 }
pub proof fn lemma_ostr(h0: H, h1: H, o: int) requires ext(h0, h1), plain(h0, o) ensures ostr(h1, o) == ostr(h0, o) {
    ax_otext(h0, h1, o);
    ax_ltext(h0, h1, h0.vec[h0.DataType_pList[o]]);
    if h0.object_m_Type[o] == 5 { assert(h1.strv[h1.DataType_pString[o]] == h0.strv[h0.DataType_pString[o]]); }
    if h0.object_m_Type[o] == 6 { assert(h1.vec[h1.DataType_pList[o]] == h0.vec[h0.DataType_pList[o]]); }
}
// texts of a value do not change
pub proof fn lemma_texts(h0: H, h1: H, v: Val) requires ext(h0, h1), vok(h0, v) ensures pv(h1, v) == pv(h0, v), vtext(h1, v) == vtext(h0, v), vok(h1, v) {
    match v {
        Val::U(o) => { if o != 0 { lemma_ostr(h0, h1, o); } }
        Val::N(o) => { if o != 0 { lemma_ostr(h0, h1, o); } }
        Val::L(xs) => { ax_ltext(h0, h1, xs); ax_ptlist(h0, h1, xs); }
        Val::O(t, o) => { if o != 0 { lemma_ostr(h0, h1, o); } if o != 0 { ax_ptother(h0, h1, t, o); } else if t != 8 && t != 999 { ax_ptother0(h0, h1, t); } }
        _ => {}
    }
}
#[verifier::external_body]
pub proof fn ax_ptother0(h0: H, h1: H, t: int) ensures ptother(h1, t, 0) == ptother(h0, t, 0) {}
pub proof fn lemma_vok(h: H, v: int) requires vwf(h, v) ensures vok(h, val(h, v)) {}
pub proof fn lemma_avok(h: H, o: int) requires awf(h, o) ensures vok(h, aval(h, o)) {}
// values of existing objects do not change
pub proof fn lemma_aval(h0: H, h1: H, o: int) requires ext(h0, h1), awf(h0, o) ensures awf(h1, o), aval(h1, o) == aval(h0, o), rval(h1, o) == rval(h0, o) {}
pub proof fn lemma_val(h0: H, h1: H, v: int) requires ext(h0, h1), vwf(h0, v) ensures vwf(h1, v), val(h1, v) == val(h0, v) {}
pub proof fn lemma_args(h0: H, h1: H, a: int) requires ext(h0, h1), argok(h0, a) ensures argok(h1, a), h1.vec[a] == h0.vec[a],
    forall|i: int| #![trigger h0.vec[a][i]] 0 <= i < h0.vec[a].len() ==> aval(h1, h0.vec[a][i]) == aval(h0, h0.vec[a][i]) && rval(h1, h0.vec[a][i]) == rval(h0, h0.vec[a][i])
{
    assert forall|i: int| #![trigger h0.vec[a][i]] 0 <= i < h0.vec[a].len() implies awf(h1, h0.vec[a][i]) && aval(h1, h0.vec[a][i]) == aval(h0, h0.vec[a][i]) && rval(h1, h0.vec[a][i]) == rval(h0, h0.vec[a][i]) by { lemma_aval(h0, h1, h0.vec[a][i]); }
}
pub open spec fn tname(h: H, v: int) -> Seq<int> {
    let t = h.LispVariant_Type[v];
    if t == 0 { LIT("Undefined") } else if t == 1 { LIT("Nil") } else if t == 2 { LIT("Bool") } else if t == 3 { LIT("Int") } else if t == 4 { LIT("Double") } else if t == 5 { LIT("String") }
    else if t == 6 { LIT("List") } else if t == 7 { LIT("Function") } else if t == 8 { LIT("Symbol") } else if t == 999 { LIT("Error") }
    else if t == 9 { if h.object_m_Type[h.LispVariant_Value[v]] == 18 { LIT("NativeDictionary") } else { nname(h, h.LispVariant_Value[v]) } } else { LIT("unknown_type") }
}
pub uninterp spec fn nname(h: H, o: int) -> Seq<int>;
'''

VNEW = ['LispVariant_Type@$self', 'LispVariant_Value@$self', 'LispVariant_Token@$self', 'LispVariant_IsUnQuoted@$self', 'LispVariant_CachedFunction@$self']
GLOBALS = {'g_Nil': 'G_nil()', 'g_Empty': 'G_empty()', 'g_EmptyList': 'G_emptylist()'}


def core():
    C = []
    add = lambda *a, **k: C.append(Contract(*a, **k))
    # exceptions: their text is not part of the properties
    for n in ('LispVariant::CreateInvalidCastException', 'LispVariant::CreateInvalidOperationException', 'CreateDivisionByZeroException'):
        add(n, trusted=True, note='builds an exception object: its text is not specified')
    add('object::GetTypeName', trusted=True, mode='pure', note='text not specified')
    P6 = ('P06',)
    V = ['vwf($h, $self)']
    CONV = '!vconv(val($h, $self))'
    add('LispVariant::TypeString', mode='pure', requires=V + ['$h.LispVariant_Type[$self] == 9 ==> $h.LispVariant_Value[$self] != 0'], result='tname($h, $self)', tags=P6,
        hints={'exit': ['if $h.LispVariant_Type[$self] == 9 && $h.object_m_Type[$h.LispVariant_Value[$self]] != 18 { assume($r =~= nname($h, $h.LispVariant_Value[$self])); } // ASSUME name of other native objects']})
    add('LispVariant::TypeOf', requires=['awf($h, $1)'], mode='pure', result='if $h.object_m_Type[$1] == 11 { $h.LispVariant_Type[$h.DataType_pVariant[$1]] } else { typeof_($h.object_m_Type[$1]) }', tags=P6)
    ens = ['vwf($h1, $self)', 'val($h1, $self) == aval($h, $1)', '$h.object_m_Type[$1] != 11 ==> $h1.LispVariant_Value[$self] == $1 && $h1.LispVariant_Type[$self] == convt($h.object_m_Type[$1])', '$h.object_m_Type[$1] == 11 ==> $h1.LispVariant_Value[$self] == $h.LispVariant_Value[$h.DataType_pVariant[$1]] && $h1.LispVariant_Type[$self] == $h.LispVariant_Type[$h.DataType_pVariant[$1]]']
    hx = {'exit': ['ax_svalue($h, $h1, $self, $1);']}
    add('LispVariant::LispVariant', key='LispVariant(object)', types=['shared_ptr<object>'], nparams=1, requires=['awf($h, $1)', '$h.object_m_Type[$1] == 11 ==> $h.DataType_pVariant[$1] != $self'], modifies=VNEW, ensures=ens, tags=P6, cut=lambda f: f.params[0]['type']['qualType'] == 'std::shared_ptr<object>')
    add('LispVariant::LispVariant', key='LispVariant(object,unq)', types=['shared_ptr<object>', 'LispUnQuoteModus'], nparams=2, requires=['awf($h, $1)', '$h.object_m_Type[$1] == 11 ==> $h.DataType_pVariant[$1] != $self'], modifies=VNEW, ensures=ens, tags=P6)
    add('LispVariant::LispVariant', key='LispVariant(copy)', types=['const LispVariant &'], nparams=1, requires=['vwf($h, $1)', '$1 != $self'], modifies=VNEW,
        ensures=['vwf($h1, $self)', 'val($h1, $self) == val($h, $1)', '$h1.LispVariant_Value[$self] == $h.LispVariant_Value[$1]', '$h1.LispVariant_Type[$self] == $h.LispVariant_Type[$1]',
                 '$h1.LispVariant_Token[$self] == $h.LispVariant_Token[$1]', '$h1.LispVariant_IsUnQuoted[$self] == $h.LispVariant_IsUnQuoted[$1]', 'nosc($h, $h1)'], tags=P6 + ('P17',))
    add('object::ToString', mode='pure', requires=['awf($h, $self)'], result='ostr($h, $self)',
        hints={'exit': ['if $h.object_m_Type[$self] == 6 || $h.object_m_Type[$self] > 6 || $h.object_m_Type[$self] < 2 { assume($r =~= ostr($h, $self)); } // ASSUME text of lists and of objects of other kinds is a function of the object']},
        loops={'object::ToString:1': {'inv': [], 'hint_top': ['assume(forall|i: int| 0 <= i < $h.vec[$h.DataType_pList[$self]].len() ==> awf($h, #[trigger] $h.vec[$h.DataType_pList[$self]][i])); // ASSUME elements of a list are valid objects']}}, tags=P6)
    add('LispVariant::ToString', mode='pure', requires=V + ['$h.LispVariant_Type[$self] == 8 || $h.LispVariant_Type[$self] == 999 || $h.LispVariant_Type[$self] == 9 ==> $h.LispVariant_Value[$self] != 0'], result='ptext($h, $self)', tags=P6,
        hints={'exit': ['if $h.LispVariant_Type[$self] == 6 || $h.LispVariant_Type[$self] == 7 || $h.LispVariant_Type[$self] == 9 || $h.LispVariant_Type[$self] == 11 { assume($r =~= ptext($h, $self)); } // ASSUME text of lists, functions and native objects is a function of the value']})
    add('LispVariant::ExpandContainerToString', trusted=True, mode='pure', note='text of nested lists')
    add('GetNativeObjectStringRepresentation', trusted=True, mode='pure', note='text of dictionaries')
    add('LispVariant::FunctionValue', mode='pure', requires=V, raises=[(('LispException', 'LispExceptionBase'), '$h.LispVariant_Type[$self] != 7')], ensures=['$r == $h.DataType_pFunctionWrapper[$h.LispVariant_Value[$self]]', 'ok($h, $r, K_LispFunctionWrapper())'], tags=P6 + ('P10',))
    add('LispVariant::StringValue', mode='pure', requires=V, result='svalue($h, $self)', tags=P6)
    add('LispVariant::IntValue', mode='pure', requires=V, raises=[('LispException', '!(val($h, $self) is I)')], result='vint(val($h, $self))', ensures=['-0x8000_0000 <= $r <= 0x7fff_ffff'], tags=P6)
    add('LispVariant::DoubleValue', mode='pure', requires=V, raises=[('LispException', '!(val($h, $self) is F)')], result='vdbl(val($h, $self))', tags=P6)
    add('LispVariant::BoolValue', mode='pure', requires=V, raises=[('LispException', '!(val($h, $self) is B)')], result='val($h, $self)->B_0', tags=P6)
    add('LispVariant::ToBool', mode='pure', requires=V, raises=[(('LispException', 'LispExceptionBase'), '!vboolc(val($h, $self))')], result='vbool(val($h, $self))', tags=P6)
    add('LispVariant::ToInt', mode='pure', requires=V, raises=[(('LispException', 'LispExceptionBase'), CONV)], result='vint(val($h, $self))', ensures=['-0x8000_0000 <= $r <= 0x7fff_ffff'], tags=P6)
    add('LispVariant::ToDouble', mode='pure', requires=V, raises=[(('LispException', 'LispExceptionBase'), CONV)], result='vdbl(val($h, $self))', tags=P6)
    LR = '$h.LispVariant_Type[$self] != 1 && $h.LispVariant_Type[$self] != 6 && !($h.LispVariant_Type[$self] == 9 && $h.object_m_Type[$h.LispVariant_Value[$self]] == 14)'
    for n in ('LispVariant::ListValueRef', 'LispVariant::ListValueNotConstRef'):
        add(n, mode='pure', requires=V + ['$h.LispVariant_Type[$self] == 9 ==> $h.LispVariant_Value[$self] != 0'], raises=[(('LispException', 'LispExceptionBase'), '!vlist(val($h, $self))')],
            ensures=['ok($h, $r, K_vec()) && $h.vec[$r] == vels(val($h, $self))', '$h.LispVariant_Type[$self] == 6 ==> $r == $h.DataType_pList[$h.LispVariant_Value[$self]]'], tags=P6 + ('P07',))
    return C


def spec(contracts, text, **kw):
    d = dict(tus=['Environment', 'Variant', 'csobject', 'csstring', 'cstypes', 'Exception', 'Scope', 'Token', 'Tokenizer', 'Parser', 'Interpreter', 'Lisp', 'Utils', 'Debugger'], contracts=contracts, text=text,
             mapkey={'map_var': ('vwf({h}, {k})', 'kcls({h}, val({h}, {k}))', 'if ext(h0, {h}) && vwf(h0, {k}) {{ lemma_vok(h0, {k}); lemma_val(h0, {h}, {k}); ax_kclsext(h0, {h}, val(h0, {k})); }}')}, fields=dict(FIELDS), classes=list(CLASSES), globals=dict(GLOBALS), gwf=['gwf'])
    d.update(kw)
    return d
