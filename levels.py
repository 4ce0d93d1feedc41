"""The properties claimed, with their level and notes; also writes MANIFEST.json (python3 levels.py)."""
COMMON_PROOF = [
    'the clang AST of the translation unit is the code that g++ compiles (same sources, same defines)',
    'library model (vc/lib.py): std::vector, std::map, std::string, shared_ptr and function objects behave as the C++ standard says; containers have less than 2^31 elements; memory is not exhausted',
    'floating point operations are uninterpreted functions of their operands (IEEE laws only where an axiom is listed); a double outside the range of int converted to int gives some int',
    'objects reachable at entry satisfy the stated class invariants; objects are not freed while reachable (shared_ptr)',
    'structures do not contain themselves',
]
COMMON_BOUNDED = ['the harness is bounded: it samples inputs within its time limit and proves nothing by itself', 'harness runs are compiled with g++ -O1 and AddressSanitizer/UBSan; leak detection is off']
TRUSTED = ['Verus 0.2026.09.13 and Z3', 'clang 18 (parsing, AST)', 'vc/execu.py, vc/sym.py, vc/lib.py: translation of the AST into obligations', 'the contracts state the property (vc/specs)']
TECH = 'contract-based deductive verification: obligations generated from the clang AST of the real code, discharged by Verus/Z3'
PROPS = {
    'P04': dict(proof=True, level='proof', rule='all pairs of about 80 sample values for every operator, then random argument lists, compared with a reference written from the rules',
                note='All operators and builtins of the property are proved against contracts for all values and argument counts; double arithmetic is uninterpreted. The harness is a bounded cross-check and replays violations.'),
    'P05': dict(proof=True, level='proof', rule='all pairs of about 80 sample values, then random nested values and near-equal mutations, compared with a reference and the laws',
                note='Comparison operators, EqualOp and the builtins are proved against contracts; symmetry, reflexivity and trichotomy are proved as lemmas over the contracts (IEEE order axioms).'),
    'P06': dict(proof=True, level='proof', rule='type predicates and conversions of sample and random values and of the results of builtins, compared with a reference',
                bounded=['builtins int, float, parse-integer, parse-float (std::stoi, std::stod)', 'Math functions', 'text of lists, functions and dictionaries'],
                note='Constructors, TypeOf, TypeString and all conversions of LispVariant are proved against contracts; int/float/parse builtins and list texts are bounded only.'),
    'P01': dict(proof=True, level='proof', rule='random program texts, token-dense and cut; tokens, positions and errors compared with a reference lexer',
                note='LispTokenizer::Tokenize (with its helpers) is proved to yield exactly the tokens of a specified lexical state machine, with their texts, positions and lines, for all texts up to 2^31 characters; white space is isspace of the C locale. The harness is a bounded cross-check and replays violations.'),
    'P02': dict(proof=True, level='proof', rule='random words, number-like texts and edge values; token type and value compared with a reference',
                note='The constructor of LispToken, ToString, == and the two TryParse functions are proved against contracts for all texts; std::stoi and std::stod are uninterpreted (status, length, value).'),
    'P03': dict(proof=True, level='proof', rule='random token sequences, nested and cut; structure compared with a reference reader, printed form read again',
                note='LispParser::ParseTokens, Parse and OnlyCommentTokensFrom are proved against a specified recursive reading of the token sequence (nesting, quote marks, comments, atoms with value and position, every error), for all token sequences and depths below 2^31; Parse is proved on program texts through the contract of the tokenizer.'),
    'P07': dict(proof=True, level='proof', rule='random histories of list operations on shared lists compared with a reference heap',
                bounded=['the function called by map, reduce and apply: a trusted contract that appends one event to the trace', 'args, arg, argscount', 'nested list texts'],
                note='The list builtins (list, cons, rest, first, last, nth, push, pop, append, reverse, len) and the element setters are proved against contracts for all lists, aliasing included; map, reduce and apply are proved to call the function once per element, in order, with the right arguments, whatever the function does to the lists.'),
    'P08': dict(proof=True, level='proof', rule='random strings, positions, counts and formats compared with a reference',
                bounded=['parse-integer, parse-float, str of other values: see P06'],
                note='The string class (Substring, Replace, StartsWith, EndsWith, ToUpper, ToLower, Trim, IndexOf, Split, Format) and the string builtins are proved against contracts for all strings; split-join, replace and trim laws are proved as lemmas. Character classes (ctype) and strtol are uninterpreted.'),
    'P14': dict(proof=True, level='proof', rule='random histories of dictionary operations compared with a reference map',
                bounded=['text of a dictionary'],
                note='All dictionary builtins are proved against contracts over a map from key classes to values; that the key order is a strict weak order and which keys are one key are proved as lemmas (IEEE and strcmp order axioms).'),
    'P09': dict(proof=True, level='proof', rule='random programs with closures, shadowing and modules compared with a reference interpreter',
                bounded=['lambda and import; resolution of arguments in EvalAst'],
                note='Lookup and assignment of names (ResolveInScopes, SetInScopes, IsInClosureChain, FindFunctionInModules) are proved against contracts for all scope structures, and so are the forms def, gdef and setf: they change exactly the one binding named (EvalAst has a trusted contract: one event of the trace).'),
    'P10': dict(proof=True, level='exploration', rule='random programs of functions and control flow compared with a reference interpreter; debugger sessions that leave calls in unusual ways',
                bounded=['binding of parameters (the function object made by fn), evaluation of arguments in EvalAst'],
                note='def, gdef and setf (the name, then the value evaluated once, in this order; exactly one binding changed) are proved against contracts; calls of user defined functions are bounded.'),
    'P11': dict(proof=True, level='proof', rule='random programs with output compared with a reference interpreter',
                bounded=['programs as a whole: evaluation of expressions (EvalAst) is a trusted contract that appends one event to the trace', 'output'],
                note='The forms if, while, do, and, or and return are proved against contracts over the trace of evaluations: which expressions are evaluated, in which order, how often, with which result, and which error follows, for all forms and numbers of iterations. EvalAst has a trusted contract (one event: expression, scope, result).'),
    'P12': dict(proof=False, level='exploration', rule='random quasiquote templates compared with a reference expansion', note='bounded'),
    'P13': dict(proof=False, level='exploration', rule='random macro definitions and calls: the expanded program compared with a reference expansion', note='bounded'),
    'P15': dict(proof=False, level='exploration', rule='random programs with histories of debugger commands compared with a model of the debugger; arbitrary command texts', note='bounded'),
    'P16': dict(proof=True, level='exploration', rule='every builtin with every number and type of arguments, random and cut programs, sessions with failing steps',
                bounded=['sessions and programs as a whole', 'builtins that call functions, print, or use the system'],
                note='For every function under contract (values, lists, dictionaries, strings, names) the obligations of memory safety and of errors other than language errors are proved for all arguments (tokenizer and reader: see P01-P03); evaluation of programs as a whole is bounded.'),
    'P17': dict(proof=True, level='proof', rule='random histories of creating, copying, changing and destroying values of every kind compared with a model; memory is counted',
                bounded=['histories as a whole (each operation is proved; memory counted by the harness)', 'reference counting of the library (shared_ptr)'],
                note='All constructors of object, its copy constructor, CleanUpMemory and the destructor are proved against contracts for every kind: a copy has the same value and owns its own cells, memory is released once and as what it is.'),
}


def manifest():
    import json
    checks = []
    for p in sorted(PROPS):
        i = PROPS[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p,
                       'technique': TECH if i['proof'] else 'bounded check standing in for contracts out of reach', 'level': i['level'], 'level_note': i['note']})
    na = [{'property': p, 'reason': r} for p, r in sorted(NA.items()) if p not in PROPS]
    with open('/verif/MANIFEST.json', 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
                   'notes': 'See DESIGN.md. Known findings and repairs: KNOWN-FINDINGS.'}, f, indent=1)
        f.write('\n')


NA = {'P%02d' % i: 'check under construction' for i in range(1, 18)}
if __name__ == '__main__':
    manifest()
