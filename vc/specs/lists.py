"""P07 lists"""
from sym import Contract

TEXT = '''
// elements of a list are valid objects
pub open spec fn lwf(h: H, xs: Seq<int>) -> bool { forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() ==> awf(h, xs[i]) }
pub proof fn lemma_lwf(h0: H, h1: H, xs: Seq<int>) requires ext(h0, h1), lwf(h0, xs) ensures lwf(h1, xs) {
    assert forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() implies awf(h1, xs[i]) by { lemma_aval(h0, h1, xs[i]); }
}
// the value is a setter: the code of the lambda, and the list it captured
pub open spec fn setter(h: H, v: int, code: int, l: int) -> bool {
    h.LispVariant_Type[v] == 11 && h.LispVariant_Value[v] != 0 && h.object_m_Type[h.LispVariant_Value[v]] == 17 && lam_id(h.DataType_pAction[h.LispVariant_Value[v]]) == code && lam_cap(h.DataType_pAction[h.LispVariant_Value[v]], 0) == l
}
// the variant seen through an object
pub open spec fn rvar(h: H, o: int) -> int { if h.object_m_Type[o] == 11 { h.DataType_pVariant[o] } else { G_nil() } }
// a new element with the value of x (for containers: the same container) was inserted at position p
pub open spec fn pushed(h: H, h1: H, x: int, l: int, p: int) -> bool {
    let o = h1.vec[l][p];
    let v = h1.DataType_pVariant[o];
    h1.vec[l] == h.vec[l].insert(p, o) && o >= h.alloc && awf(h1, o) && h1.object_m_Type[o] == 11 && v >= h.alloc && h1.LispVariant_Type[v] == h.LispVariant_Type[rvar(h, x)] && h1.LispVariant_Value[v] == h.LispVariant_Value[rvar(h, x)]
}
// the elements of the first n lists, one after the other
pub open spec fn vcat(h: H, xs: Seq<int>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { vcat(h, xs, n - 1) + vels(rval(h, xs[n - 1])) } }
pub open spec fn vlists(h: H, xs: Seq<int>, n: int) -> bool { forall|i: int| #![trigger xs[i]] 0 <= i < n ==> vlist(rval(h, xs[i])) }
'''
FNIDS = ['First::lambda:1', 'Last::lambda:1', 'Nth::lambda:1']
FIELDS = {'DataType_pAction': 'Map<int,int>'}
XE = ('LispException', 'LispExceptionBase')
XS = '$h.vec[$1]'
N = XS + '.len()'
A = lambda i: 'aval($h, %s[%d])' % (XS, i)
R = lambda i: 'rval($h, %s[%d])' % (XS, i)
AR = ['argok($h, $1)']
AE = ['lemma_argsint($h, $1);']


def contracts():
    C = []
    add = lambda *a, **k: C.append(Contract(*a, **k))
    P7 = ('P07',)

    def bi(name, err, res, tags=('P07',), hints=None, entry=(), exc=XE, requires=(), **k):
        h = {'entry': AE + list(entry)}
        h.update(hints or {})
        if name in ('Rest', 'First', 'Last', 'Nth', 'Length', 'Reverse'):
            tags = tags + ('P08',)
        add(name, requires=AR + list(requires), raises=[(exc, err)] if err else [], ensures=['vwf($h1, $r)', '$r >= $h.alloc'] + res, tags=tags, hints=h, **k)
    bi('CreateList', None, ['val($h1, $r) == Val::L(%s)' % XS],
       loops={'CreateList:1': {'inv': ['0 <= @__i <= @__n', '@__n == $h0.vec[$1].len()', 'ext($h0, $h)', '$h.vec[@list] == $h0.vec[$1].subrange(0, @__i)'], 'hint_back': ['assert($h.vec[@list] =~= $h0.vec[$1].subrange(0, @__i));']}},
       hints={'exit': ['assert($h0.vec[$1].subrange(0, $h0.vec[$1].len() as int) =~= $h0.vec[$1]);']})
    V0, V1 = R(0), R(1)
    LW = lambda x: ['assume(lwf($h, vels(%s))); // ASSUME elements of a list are valid objects' % x]
    SM = lambda x: ['if %s is S { assume(smax(%s->S_0)); } // ASSUME the length of a string is at most std::string::max_size()' % (x, x)]
    CONS = 'if {n} == 0 {{ Seq::<int>::empty() }} else if {n} == 1 {{ seq![{x}[0]] }} else if vlist({v}) {{ seq![{x}[0]] + vels({v}) }} else {{ seq![{x}[0], {x}[1]] }}'.format(n=N, x=XS, v=V1)
    bi('Cons', None, ['val($h1, $r) == Val::L(%s)' % CONS],
       loops={'Cons:1': {'inv': ['0 <= @__i <= @__n', '@__n == vels(%s).len()' % V1.replace('$h', '$h0'), 'ext($h0, $h)', '$h.vec[@list] == seq![$h0.vec[$1][0]] + vels(%s).subrange(0, @__i)' % V1.replace('$h', '$h0')],
              'hint_back': ['assert($h.vec[@list] =~= seq![$h0.vec[$1][0]] + vels(%s).subrange(0, @__i));' % V1.replace('$h', '$h0')]}},
       hints={'exit': ['assert(vels({0}).subrange(0, vels({0}).len() as int) =~= vels({0}));'.format(V1.replace('$h', '$h0')), 'if $h0.vec[$1].len() == 1 || ($h0.vec[$1].len() > 1 && !vlist(%s)) { assert($h1.vec[$h1.DataType_pList[$h1.LispVariant_Value[$r]]] =~= %s); }' % (V1.replace('$h', '$h0'), CONS.replace('$h', '$h0'))]})
    DICT = lambda v, i: 'vnat(%s) && $h.object_m_Type[vaddr(%s)] == 18' % (v, v)
    bi('Rest', '%s != 1 || !(%s is S || vlist(%s))' % (N, V0, V0),
       ['if %s is S { val($h1, $r) == Val::S(if %s->S_0.len() == 0 { Seq::empty() } else { %s->S_0.subrange(1, %s->S_0.len() as int) }) } else { val($h1, $r) == Val::L(if vels(%s).len() == 0 { Seq::empty() } else { vels(%s).subrange(1, vels(%s).len() as int) }) }' % ((V0,) * 7)],
       entry=SM(V0), hints={'exit': ['if vels({0}).len() == 1 {{ assert(vels({0}).subrange(1, 1) =~= Seq::<int>::empty()); }}'.format(V0.replace('$h', '$h0'))]})
    bi('First', '%s != 1 || !(%s is S || $h.LispScope_NeedsLValue[$2] || vlist(%s) && vels(%s).len() > 0)' % (N, V0, V0, V0),
       ['if %s is S { val($h1, $r) == Val::S(s_substr(%s->S_0, 0, 1)) } else if $h.LispScope_NeedsLValue[$2] { setter($h1, $r, FN_First__lambda_1(), $h.vec[$1][0]) } else { val($h1, $r) == aval($h, vels(%s)[0]) }' % (V0, V0, V0)], entry=LW(V0), requires=['ok($h, $2, K_LispScope())'])
    LS = ['ok($h, $2, K_LispScope())']
    bi('Last', '%s != 1 || !(%s is S && %s->S_0.len() > 0 || %s is S || $h.LispScope_NeedsLValue[$2] || vlist(%s) && vels(%s).len() > 0)' % (N, V0, V0, V0, V0, V0),
       ['if {0} is S {{ val($h1, $r) == Val::S(if {0}->S_0.len() == 0 {{ Seq::empty() }} else {{ {0}->S_0.subrange({0}->S_0.len() - 1, {0}->S_0.len() as int) }}) }} else if $h.LispScope_NeedsLValue[$2] {{ setter($h1, $r, FN_Last__lambda_1(), $h.vec[$1][0]) }} else {{ val($h1, $r) == aval($h, vels({0})[vels({0}).len() - 1]) }}'.format(V0)],
       entry=LW(V0), requires=LS)
    IX = 'vint(%s)' % V0
    bi('Nth', '{n} != 2 || !({a} is I) || !({b} is S || $h.LispScope_NeedsLValue[$2] || vlist({b}) && 0 <= {i} < vels({b}).len())'.format(n=N, a=V0, b=V1, i=IX),
       ['if {b} is S {{ val($h1, $r) == Val::S(if 0 <= {i} <= {b}->S_0.len() {{ s_substr({b}->S_0, {i}, 1) }} else {{ Seq::empty() }}) }} else if $h.LispScope_NeedsLValue[$2] {{ setter($h1, $r, FN_Nth__lambda_1(), $h.vec[$1][1]) && lam_cap($h1.DataType_pAction[$h1.LispVariant_Value[$r]], 1) == {i} }} else {{ val($h1, $r) == aval($h, vels({b})[{i}]) }}'.format(b=V1, i=IX)],
       entry=LW(V1) + SM(V1), requires=LS)
    bi('Length', '%s != 1 || !(%s is S || vlist(%s) || vnat(%s) && $h.object_m_Type[vaddr(%s)] == 18)' % (N, V0, V0, V0, V0),
       ['val($h1, $r) is I', '%s is S ==> val($h1, $r) == Val::I(%s->S_0.len() as int)' % (V0, V0), 'vlist(%s) ==> val($h1, $r) == Val::I(vels(%s).len() as int)' % (V0, V0),
       'isdict($h, %s) ==> val($h1, $r) == Val::I($h.map_var[dicto($h, $h.vec[$1][0])].dom().len() as int)' % V0], tags=P7 + ('P14',))
    IE = 'IEnumerable<std::shared_ptr<CppLisp::object>>::'
    add(IE + 'Skip', requires=['0 <= $1'], ensures=['ok($h1, $r, K_vec())', '$r >= $h.alloc', '$h1.vec[$r] == (if $1 >= $h.vec[$self].len() { Seq::empty() } else { $h.vec[$self].subrange($1, $h.vec[$self].len() as int) })'],
        loops={IE + 'Skip:1': {'inv': ['0 <= @i', '@i <= $h0.vec[$self].len()', '@i <= $1 || @i == 0', 'ext($h0, $h)', '$h.vec[@temp] == $h0.vec[$self].subrange(@i, $h0.vec[$self].len() as int)'],
               'hint_back': ['assert($h.vec[@temp] =~= $h0.vec[$self].subrange(@i, $h0.vec[$self].len() as int));'],'hint_entry': ['assert($h.vec[@temp] =~= $h0.vec[$self].subrange(0, $h0.vec[$self].len() as int));']}}, tags=P7)
    add(IE + 'RemoveAt', requires=['0 <= $1 < $h.vec[$self].len()'], modifies=['vec@$self'], ensures=['$h1.vec[$self] == $h.vec[$self].remove($1)'],
        loops={IE + 'RemoveAt:1': {'inv': ['0 <= @i <= $1', '@iter == @i', '$h == $h0']}}, tags=P7)
    LST = lambda i: '$h.DataType_pList[$h.LispVariant_Value[$h.DataType_pVariant[$h.vec[$1][%d]]]]' % i
    V2 = R(2)
    PP = '(if %s == 3 { vint(%s) } else { 0 })' % (N, V2)
    IN = '(%s is L && 0 <= %s < vels(%s).len())' % (V1, PP, V1)
    L1 = LST(1)
    bi('Push', '!(2 <= {n} <= 3) || ({n} == 3 && !vconv({v2})) || !vlist({v1})'.format(n=N, v1=V1, v2=V2),
       ['if {i} {{ pushed($h, $h1, $h.vec[$1][0], {l}, {p}) && val($h1, $r) == Val::L($h1.vec[{l}]) }} else {{ ext($h, $h1) && val($h1, $r) is N }}'.format(i=IN, l=L1, p=PP)],
       modifies=['vec@' + L1])
    PP = '(if %s == 2 { vint(%s) } else { 0 })' % (N, V1)
    IN = '(%s is L && 0 <= %s < vels(%s).len())' % (V0, PP, V0)
    L0 = LST(0)
    bi('Pop', '!(1 <= {n} <= 2) || ({n} == 2 && !vconv({v1})) || !vlist({v0})'.format(n=N, v1=V1, v0=V0),
       ['if {i} {{ $h1.vec[{l}] == $h.vec[{l}].remove({p}) && val($h1, $r) == aval($h, vels({v0})[{p}]) }} else {{ ext($h, $h1) && val($h1, $r) is N }}'.format(i=IN, v0=V0, l=L0, p=PP)],
       modifies=['vec@' + L0], entry=LW(V0) + ['if %s && aval($h, vels(%s)[%s]) is L { ax_depth($h, vels(%s), %s); }' % (IN, V0, PP, V0, PP)])
    X0 = '$h0.vec[$1]'
    E0 = 'vels(rval($h0, %s[@__i]))' % X0
    bi('Append', '!vlists($h, %s, %s as int)' % (XS, N), ['val($h1, $r) == Val::L(vcat($h, %s, %s as int))' % (XS, N)],
       loops={'Append:1': {'inv': ['0 <= @__i <= @__n', '@__n == %s.len()' % X0, 'ext($h0, $h)', '$h.vec[@list] == vcat($h0, %s, @__i)' % X0, 'vlists($h0, %s, @__i)' % X0], 'hint_top': ['lemma_args($h0, $h, $1);'],
                           'hint_back': ['assert($h.vec[@list] =~= vcat($h0, %s, @__i));' % X0]},
              'Append:2': {'inv': ['0 <= @__i <= @__n', 'ext($h0, $h)', '$h.vec[@lst] == $hl.vec[@lst]', '@__n == $hl.vec[@lst].len()', '$h.vec[@list] == $hl.vec[@list] + $hl.vec[@lst].subrange(0, @__i)'],
                           'hint_entry': ['assert($h.vec[@list] =~= $h.vec[@list] + $h.vec[@lst].subrange(0, 0));'], 'hint_back': ['assert($h.vec[@list] =~= $hl.vec[@list] + $hl.vec[@lst].subrange(0, @__i));'],
                           'hint_exit': ['assert($hl.vec[@lst].subrange(0, @__n) =~= $hl.vec[@lst]);']}})
    bi('Reverse', '%s != 1 || !(%s is S || vlist(%s))' % (N, V0, V0), ['val($h1, $r) == (if %s is S { Val::S(s_reverse(%s->S_0)) } else { Val::L(s_reverse(vels(%s))) })' % (V0, V0, V0)])
    # the setters returned for assignments
    for nm, idx in (('First', '0int'), ('Last', 'vels({0}).len() - 1'), ('Nth', '$3')):
        v = 'rval($h, $2)'
        i = idx.format(v)
        lst = '$h.DataType_pList[$h.LispVariant_Value[$h.DataType_pVariant[$2]]]'
        add(nm + '::lambda:1', requires=['awf($h, $1)', 'awf($h, $2)'], raises=[(XE, '!(%s is L) || !(0 <= %s < vels(%s).len())' % (v, i, v))], modifies=['vec@' + lst],
            ensures=['$h1.vec[%s] == $h.vec[%s].update(%s, $1)' % (lst, lst, i)], tags=P7)
    return C
