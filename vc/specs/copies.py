"""P17 copying and destruction of objects"""
from sym import Contract

TAGS = ('P17', 'P03')

FIELDS = {'DataType_pToken': 'Map<int,int>', 'freed': 'Map<int,bool>', 'DataType_pFunctionWrapper': 'Map<int,int>', 'DataType_pAction': 'Map<int,int>', 'DataType_pMacro': 'Map<int,int>', 'DataType_pCompileMacro': 'Map<int,int>', 'DataType_pScope': 'Map<int,int>',
          'LispMacroCompileTimeExpand_FormalArguments': 'Map<int,int>', 'LispMacroCompileTimeExpand_Expression': 'Map<int,int>'}
FW = {'m_bIsSpecialForm': 'bool', 'm_bIsEvalInExpand': 'bool', 'm_bIsBuiltin': 'bool', 'Signature': 'Seq<int>', 'Documentation': 'Seq<int>', 'ModuleName': 'Seq<int>', 'Function': 'int'}
SC = {'ClosureChain': 'int', 'CurrentToken': 'int', 'Debugger': 'int', 'GlobalScope': 'int', 'HiddenNext': 'int', 'Input': 'int', 'IsInEval': 'bool', 'IsInReturn': 'bool', 'ModuleName': 'Seq<int>', 'Name': 'Seq<int>', 'NeedsLValue': 'bool', 'Next': 'int', 'Output': 'int', 'Previous': 'int', 'Tracing': 'bool', 'UserData': 'int', 'UserDoc': 'int'}
FIELDS.update(('LispFunctionWrapper_' + k, 'Map<int,%s>' % v) for k, v in FW.items())
FIELDS.update(('LispScope_' + k, 'Map<int,%s>' % v) for k, v in SC.items())
CLASSES = ['LispFunctionWrapper', 'LispMacroRuntimeEvaluate', 'LispMacroCompileTimeExpand', 'LispScope', 'std::function<void(std::shared_ptr<object>)>']
TEXT = '''
// ---- what an object owns: the memory behind its value
pub open spec fn payload(h: H, o: int) -> int {
    let t = h.object_m_Type[o];
    if t == 5 { h.DataType_pString[o] } else if t == 6 { h.DataType_pList[o] } else if t == 11 { h.DataType_pVariant[o] } else if t == 12 { h.DataType_pFunctionWrapper[o] } else if t == 16 || t == 17 { -o }
    else if t == 18 { h.DataType_pDictionary[o] } else if t == 100 { h.DataType_pMacro[o] } else if t == 101 { h.DataType_pCompileMacro[o] } else { 0 }
}
pub open spec fn powf(h: H, o: int) -> bool {
    let t = h.object_m_Type[o];
    owf(h, o) && (t == 11 ==> vwf(h, h.DataType_pVariant[o])) && (t == 12 ==> ok(h, h.DataType_pFunctionWrapper[o], K_LispFunctionWrapper())) && (t == 100 ==> ok(h, h.DataType_pMacro[o], K_LispMacroRuntimeEvaluate())) && (t == 101 ==> ok(h, h.DataType_pCompileMacro[o], K_LispMacroCompileTimeExpand()))
    && (t == 17 ==> ok(h, h.DataType_pAction[o], K_std_function_void_std_shared_ptr_object_())) && (t == 16 ==> ok(h, h.DataType_pScope[o], K_LispScope()))
}
pub open spec fn samevar(h: H, v: int, h1: H, w: int) -> bool { h1.LispVariant_Type[w] == h.LispVariant_Type[v] && h1.LispVariant_Value[w] == h.LispVariant_Value[v] && h1.LispVariant_Token[w] == h.LispVariant_Token[v] && h1.LispVariant_IsUnQuoted[w] == h.LispVariant_IsUnQuoted[v] }
// object w of h1 is a copy of object o of h
pub open spec fn ocopy(h: H, o: int, h1: H, w: int) -> bool {
    let t = h.object_m_Type[o];
    h1.object_m_Type[w] == t && (t == 2 ==> h1.DataType_b[w] == h.DataType_b[o]) && (t == 3 ==> h1.DataType_i[w] == h.DataType_i[o]) && (t == 4 ==> h1.DataType_d[w] == h.DataType_d[o])
    && (t == 5 ==> h1.strv[h1.DataType_pString[w]] == h.strv[h.DataType_pString[o]]) && (t == 6 ==> h1.vec[h1.DataType_pList[w]] == h.vec[h.DataType_pList[o]]) && (t == 11 ==> samevar(h, h.DataType_pVariant[o], h1, h1.DataType_pVariant[w]))
    && (t == 18 ==> h1.map_var[h1.DataType_pDictionary[w]] == h.map_var[h.DataType_pDictionary[o]] && h1.map_vark[h1.DataType_pDictionary[w]] == h.map_vark[h.DataType_pDictionary[o]])
    && (t == 12 ==> samefw(h, h.DataType_pFunctionWrapper[o], h1, h1.DataType_pFunctionWrapper[w])) && (t == 16 ==> h1.DataType_pScope[w] >= h.alloc && samesc(h, h.DataType_pScope[o], h1, h1.DataType_pScope[w]))
    && (t == 17 ==> h1.DataType_pAction[w] == h.DataType_pAction[o]) && (t == 100 ==> h1.LispMacroCompileTimeExpand_FormalArguments[h1.DataType_pMacro[w]] == h.LispMacroCompileTimeExpand_FormalArguments[h.DataType_pMacro[o]] && h1.LispMacroCompileTimeExpand_Expression[h1.DataType_pMacro[w]] == h.LispMacroCompileTimeExpand_Expression[h.DataType_pMacro[o]])
    && (t == 101 ==> h1.LispMacroCompileTimeExpand_FormalArguments[h1.DataType_pCompileMacro[w]] == h.LispMacroCompileTimeExpand_FormalArguments[h.DataType_pCompileMacro[o]] && h1.LispMacroCompileTimeExpand_Expression[h1.DataType_pCompileMacro[w]] == h.LispMacroCompileTimeExpand_Expression[h.DataType_pCompileMacro[o]])
}
'''
TEXT += 'pub open spec fn samefw(h: H, v: int, h1: H, w: int) -> bool { %s }\n' % ' && '.join('h1.LispFunctionWrapper_%s[w] == h.LispFunctionWrapper_%s[v]' % (k, k) for k in FW)
TEXT += '// a copy of a scope has bindings of its own\npub open spec fn samesc(h: H, v: int, h1: H, w: int) -> bool { h1.map_str[w] == h.map_str[v] && %s }\n' % ' && '.join('h1.LispScope_%s[w] == h.LispScope_%s[v]' % (k, k) for k in SC)


def contracts():
    C = []
    add = lambda *a, **k: C.append(Contract(*a, **k))
    P = ('P17',)
    NEW = ['object_m_Type@$self', 'DataType_b@$self', 'DataType_i@$self', 'DataType_d@$self'] + ['DataType_%s@$self' % f for f in ('pString', 'pVariant', 'pList', 'pFunctionWrapper', 'pScope', 'pDictionary', 'pMacro', 'pCompileMacro', 'pAction', 'pToken')]
    add('object::object', key='object(copy)', types=['const object &'], nparams=1, requires=['powf($h, $1)', '$1 != $self', '$h.object_m_Type[$1] == 11 ==> $h.LispVariant_Value[$h.DataType_pVariant[$1]] != $self', 'ok($h, $self, K_object())'], modifies=NEW,
        ensures=['ocopy($h, $1, $h1, $self)', 'powf($h1, $self)', 'payload($h1, $self) == 0 || payload($h1, $self) >= $h.alloc || $h.object_m_Type[$1] == 17 || $h.object_m_Type[$1] == 16'], tags=P)
    add('object::CleanUpMemory', mode='any', requires=['powf($h, $self)', 'payload($h, $self) != 0 ==> !$h.freed[payload($h, $self)]'], modifies=['freed@payload($h, $self)'], ensures=['payload($h, $self) != 0 ==> $h1.freed[payload($h, $self)]'], tags=P)
    # making an object: kind and content, memory of its own
    FRESH = 'payload($h1, $self) >= $h.alloc'
    def ctor(key, ty, kind, ens, req=(), fresh=True):
        add('object::object', key='object(%s)' % key, cut=lambda f: f.type == 'void (%s)' % ty, requires=['ok($h, $self, K_object())'] + list(req), modifies=NEW,
            ensures=['$h1.object_m_Type[$self] == %d' % kind, 'powf($h1, $self)'] + ([FRESH] if fresh else []) + list(ens), tags=P)
    ctor('', '', 0, [], fresh=False)
    ctor('bool', 'bool', 2, ['$h1.DataType_b[$self] == $1'], fresh=False)
    ctor('int', 'int', 3, ['$h1.DataType_i[$self] == $1'], req=['-0x8000_0000 <= $1 <= 0x7fff_ffff'], fresh=False)
    ctor('double', 'double', 4, ['$h1.DataType_d[$self] == $1'], fresh=False)
    ctor('string', 'const std::string &', 5, ['$h1.strv[$h1.DataType_pString[$self]] == $1'])
    ctor('list', 'const IEnumerable<std::shared_ptr<object>> &', 6, ['$h1.vec[$h1.DataType_pList[$self]] == $h.vec[$1]'], req=['ok($h, $1, K_vec())'])
    ctor('variant', 'const LispVariant &', 11, ['samevar($h, $1, $h1, $h1.DataType_pVariant[$self])', 'nosc($h, $h1)'], req=['vwf($h, $1)', '$h.LispVariant_Value[$1] != $self'])
    ctor('function', 'const LispFunctionWrapper &', 12, ['samefw($h, $1, $h1, $h1.DataType_pFunctionWrapper[$self])'], req=['ok($h, $1, K_LispFunctionWrapper())'])
    ctor('dictionary', 'const Dictionary<LispVariant, std::shared_ptr<object>> &', 18, ['$h1.map_var[$h1.DataType_pDictionary[$self]] == $h.map_var[$1] && $h1.map_vark[$h1.DataType_pDictionary[$self]] == $h.map_vark[$1]'], req=['ok($h, $1, K_map_var())'])
    ctor('scope', 'const LispScope &', 16, ['$h1.DataType_pScope[$self] >= $h.alloc', 'samesc($h, $1, $h1, $h1.DataType_pScope[$self])'], req=['ok($h, $1, K_LispScope())'], fresh=False)
    ctor('shared scope', 'const std::shared_ptr<LispScope> &', 16, ['$h1.DataType_pScope[$self] == $1'], req=['ok($h, $1, K_LispScope())'], fresh=False)
    ctor('setter', 'std::function<void (std::shared_ptr<object>)>', 17, ['$h1.DataType_pAction[$self] == $1'], req=['ok($h, $1, K_std_function_void_std_shared_ptr_object_())'], fresh=False)
    for k, t, kd, f in (('macro', 'LispMacroRuntimeEvaluate', 100, 'pMacro'), ('compile time macro', 'LispMacroCompileTimeExpand', 101, 'pCompileMacro')):
        ctor(k, 'const %s &' % t, kd, ['$h1.LispMacroCompileTimeExpand_%s[$h1.DataType_%s[$self]] == $h.LispMacroCompileTimeExpand_%s[$1]' % (x, f, x) for x in ('FormalArguments', 'Expression')], req=['ok($h, $1, K_%s())' % t])
    add('object::~object', mode='any', requires=['powf($h, $self)', 'payload($h, $self) != 0 ==> !$h.freed[payload($h, $self)]'], modifies=['freed@payload($h, $self)'], ensures=['payload($h, $self) != 0 ==> $h1.freed[payload($h, $self)]'], tags=P)
    return C
