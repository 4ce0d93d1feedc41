"""P09 names and scopes"""
from sym import Contract

FIELDS = {'map_str': 'Map<int,Map<Seq<int>,int>>', 'LispScope_ClosureChain': 'Map<int,int>', 'LispScope_GlobalScope': 'Map<int,int>', 'DataType_pScope': 'Map<int,int>'}
CLASSES = ['LispScope']
TEXT = '''
// ---- scopes
pub open spec fn bound(h: H, s: int, n: Seq<int>) -> bool { h.map_str[s].contains_key(n) }
// nearest closure scope that binds the name (0: none); closure chains end
pub uninterp spec fn cfind(h: H, s: int, n: Seq<int>) -> int;
#[verifier::external_body]
pub proof fn ax_cfind(h: H, s: int, n: Seq<int>) ensures cfind(h, s, n) == (if h.LispScope_ClosureChain[s] == 0 { 0 } else if bound(h, h.LispScope_ClosureChain[s], n) { h.LispScope_ClosureChain[s] } else { cfind(h, h.LispScope_ClosureChain[s], n) }) {}
// every scope has a global scope, which holds the table of loaded modules
pub open spec fn oscope(h: H, o: int) -> bool { owf(h, o) && h.object_m_Type[o] == 16 && ok(h, h.DataType_pScope[o], K_LispScope()) }
pub open spec fn modtab(h: H, g: int) -> int { h.DataType_pScope[h.map_str[g][LIT("###modules###")]] }
pub open spec fn swf(h: H, s: int) -> bool {
    ok(h, s, K_LispScope()) && (h.LispScope_ClosureChain[s] == 0 || ok(h, h.LispScope_ClosureChain[s], K_LispScope())) && gscope(h, h.LispScope_GlobalScope[s])
}
pub open spec fn gscope(h: H, g: int) -> bool {
    ok(h, g, K_LispScope()) && h.LispScope_GlobalScope[g] == g && bound(h, g, LIT("###modules###")) && oscope(h, h.map_str[g][LIT("###modules###")])
    && forall|n: Seq<int>| #![trigger h.map_str[modtab(h, g)][n]] bound(h, modtab(h, g), n) ==> oscope(h, h.map_str[modtab(h, g)][n])
}
// first loaded module (from the i-th on, in the order of their names) that binds the name
pub open spec fn modfind(h: H, t: int, n: Seq<int>, i: int) -> int decreases mkeys_map_str(h.map_str[t]).len() - i {
    let ks = mkeys_map_str(h.map_str[t]);
    if i < 0 || i >= ks.len() { 0 } else { let m = h.DataType_pScope[h.map_str[t][ks[i]]]; if bound(h, m, n) { m } else { modfind(h, t, n, i + 1) } }
}
pub open spec fn mfind(h: H, g: int, n: Seq<int>) -> int { modfind(h, modtab(h, g), n, 0) }
// the scope whose binding of a name is visible and assignable in scope s
pub open spec fn visible(h: H, s: int, n: Seq<int>) -> int {
    if bound(h, s, n) { s } else if cfind(h, s, n) != 0 { cfind(h, s, n) } else if bound(h, h.LispScope_GlobalScope[s], n) { h.LispScope_GlobalScope[s] } else { 0 }
}
pub open spec fn lookup(h: H, s: int, n: Seq<int>, dflt: int) -> int {
    if visible(h, s, n) != 0 { h.map_str[visible(h, s, n)][n] }
    else if mfind(h, h.LispScope_GlobalScope[s], n) != 0 { h.map_str[mfind(h, h.LispScope_GlobalScope[s], n)][n] } else { dflt }
}
// closure chains consist of scopes
pub open spec fn chains(h: H) -> bool { forall|s: int| #![trigger h.LispScope_ClosureChain[s]] ok(h, s, K_LispScope()) ==> h.LispScope_ClosureChain[s] == 0 || ok(h, h.LispScope_ClosureChain[s], K_LispScope()) }
'''


def contracts():
    C = []
    add = lambda *a, **k: C.append(Contract(*a, **k))
    P9 = ('P09',)
    add('LispScope::IsInClosureChain', mode='pure', requires=['chains($h)'], out=[2], outp=[3], result='cfind($h, $self, $1) != 0',
        ensures=['$o2 == cfind($h, $self, $1)', '$o2 != 0 ==> ok($h, $o2, K_LispScope()) && bound($h, $o2, $1)', '$3 != 0 && $o2 != 0 ==> $o3 == $h.map_str[$o2][$1]'],
        hints={'entry': ['ax_cfind($h, $self, $1);']}, tags=P9)
    add('LispEnvironment::FindFunctionInModules', mode='pure', requires=['gscope($h, $2)'], out=[3], result='mfind($h, $2, $1) != 0',
        ensures=['mfind($h, $2, $1) != 0 ==> $o3 == $h.map_str[mfind($h, $2, $1)][$1]', 'mfind($h, $2, $1) == 0 ==> $o3 == 0'],
        loops={'LispEnvironment::FindFunctionInModules:1': {'inv': ['0 <= @__i <= mkeys_map_str($h0.map_str[modtab($h0, $2)]).len()', 'modfind($h0, modtab($h0, $2), $1, 0) == modfind($h0, modtab($h0, $2), $1, @__i)', 'ext($h0, $h)', '@foundValue == 0'],
            'hint_top': ['if 0 <= @__i < mkeys_map_str($h0.map_str[modtab($h0, $2)]).len() { lemma_mkeys_map_str($h0.map_str[modtab($h0, $2)], @__i); assert(bound($h0, modtab($h0, $2), mkeys_map_str($h0.map_str[modtab($h0, $2)])[@__i])); assert(oscope($h0, $h0.map_str[modtab($h0, $2)][mkeys_map_str($h0.map_str[modtab($h0, $2)])[@__i]])); }']}}, tags=P9)
    add('LispScope::ResolveInScopes', mode='pure', requires=['chains($h)', 'swf($h, $self)', 'awf($h, $1)'], result='lookup($h, $self, ostr($h, $1), $1)', tags=P9)
    VT = 'visible($h, $self, $1)'
    add('LispScope::SetInScopes', requires=['chains($h)', 'swf($h, $self)'], raises=[('LispException', '$1.len() == 0 || %s == 0' % VT)],
        modifies=['map_str@' + VT], ensures=['$h1.map_str[%s] == $h.map_str[%s].insert($1, $2)' % (VT, VT), 'ok($h, %s, K_LispScope()) && bound($h, %s, $1)' % (VT, VT)], ensures_raise=['same_map_str($h, $h1)'], tags=P9)
    return C
