#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so that the statements are reviewable in one place)"""
import json
I='CppLisp/CppLispInterpreter/'; D='CppLisp/CppLispDebugger/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Program text is split into exactly the tokens of the lexical grammar",
 "For every program text the token sequence is exactly the one the lexical grammar gives: a bracket, a quote mark (' ` , and ,@), a string literal, a comment and a maximal run of other characters each form one token, in source order, whatever they are next to. The content of a string literal is taken over verbatim apart from the escapes \\n \\r \\t \\\\ and \\\", a backslash before white space, a bracket, a quote mark or a semicolon is dropped, an unterminated string literal is the last token (if it is not empty), a comment ends at the end of its line (or of the text) and never changes any other token, and every token carries the number of the line on which it ends. Splitting terminates for every text, reads nothing outside it, and reports any other escape as a language error.",
 ["inputs"],"every program text (any characters, any length, any placement of brackets, quotes, comments and escapes), and every start offset",
 "The tokenizer tests feed a few dozen hand written texts; adjacency of token kinds, comments at the end of the text, empty comments and escapes occur in combinations no list of samples covers.",
 [I+'Tokenizer.cpp',I+'Tokenizer.h',I+'Token.h'],
 [("LispTokenizer::Tokenize state machine",I+'Tokenizer.cpp'),("comment scanning (ProcessComment, GetRestOfLine)",I+'Tokenizer.cpp'),("escape decoding (ProcessCharAfterBackslash)",I+'Tokenizer.cpp')],
 ["LispTokenizer::Tokenize result"],
 [("isInString/isInSymbol/wasLastBackslash","lexer mode",I+'Tokenizer.cpp'),("currentToken","text collected for the pending token",I+'Tokenizer.cpp')])
p("P02","Every token text is classified into one kind with the right value",
 "For every token text the kind and the value follow from the text alone: a text that is completely a decimal 32 bit integer (optional sign) is an integer token with that value, otherwise a text that is completely a floating point number in the notation of strtod and in the range of a double is a double token with that value (an integer literal out of range therefore is a double, a floating point literal out of range a symbol), the texts for true, false, nil, the brackets and the quote marks have their own kinds, a text starting with a double quote is a string without its quotes, one starting with a semicolon is a comment, and everything else is a symbol whose name is the text. No text, in particular no number out of range, makes the classification fail or abort.",
 ["inputs"],"every token text, including every integer and floating point literal of any size",
 "Tests classify some twenty literals; the integer range limits, overflow of floating point literals and partial numbers need all texts.",
 [I+'Token.cpp',I+'Token.h'],
 [("LispToken constructor (ordered classification)",I+'Token.cpp'),("Int32_TryParse / Double_TryParse",I+'Token.cpp')],
 ["LispToken::Type, LispToken::Value, LispToken::ToString"])
p("P03","Reading a program either mirrors its bracket structure or is an error",
 "For every token sequence the reader either produces a tree whose nesting and atoms mirror the brackets and atoms of the program in order, with comments left out and each quote mark turned into the matching quote form around the one expression that follows it, or it reports a language error. A program is one list expression (with comments before and behind it). Unbalanced brackets, a quote mark with nothing to quote or outside of the list, text behind the program and an empty program are always such errors, never a crash or a silently different tree.",
 ["inputs","programs"],"every program text and every token sequence, of any nesting depth",
 "Parser tests use a handful of mostly balanced programs; every way to unbalance or cut a program, or to nest quote marks, has to be covered.",
 [I+'Parser.cpp',I+'Parser.h'],
 [("LispParser::ParseTokens with its list stack",I+'Parser.cpp'),("OnlyCommentTokensFrom",I+'Parser.cpp')],
 ["LispParser::Parse result or LispException"],
 [("listStack/current","lists that are open at this token",I+'Parser.cpp')])
p("P04","Arithmetic follows the numeric type rules and never traps",
 "The arithmetic operators fold their arguments from left to right: the result is a 32 bit integer (with wrap around) when no argument is a double, a double as soon as one is, string concatenation for + with a string and list concatenation for + of two lists; true and false count as 1 and 0, and a string as its numeric prefix, where a number is needed. Bit operations work on 32 bit integers, a shift uses the lower five bits of the shift count. Integer division truncates toward zero and the remainder has the sign of the dividend. Division or remainder by integer zero, operands of an unsuitable type and a call without arguments are reported as language errors; no operand values terminate the process.",
 ["inputs"],"all operand values and all operand type combinations, all argument counts",
 "The tests add, multiply and divide a few small constants; extreme operands (zero divisor, smallest integer by minus one), mixed types and argument counts are a product no samples exhaust.",
 [I+'Variant.cpp',I+'Environment.cpp'],
 [("LispVariant::operator + - * / %",I+'Variant.cpp'),("ArithmetricOperation fold and the builtins built on it",I+'Environment.cpp')],
 ["value of (+ ...), (- ...), (* ...), (/ ...), (% ...)"])
p("P05","Comparison is a consistent order and equality is by value",
 "For any two numbers exactly one of <, =, > holds up to the documented tolerance for doubles, <= and >= are their unions, and a < b agrees with b > a; strings compare by character code. Equality of comparable values is reflexive (a floating point NaN aside) and symmetric, compares numbers by numeric value, strings and symbols by text, and lists element by element to any depth, and != is always its negation. Comparing values that have no order is a language error, and no pair of values crashes the comparison.",
 ["inputs"],"all pairs and triples of values of all types and nesting depths",
 "Order and equality laws quantify over all pairs of values; tests compare a few scalar pairs and one or two flat lists.",
 [I+'Variant.cpp',I+'csobject.cpp',I+'cstypes.h',I+'Environment.cpp'],
 [("LispVariant comparison operators, EqualOp, CompareTo",I+'Variant.cpp'),("object::operator== and SequenceEqual",I+'csobject.cpp')],
 ["value of (< a b), (> a b), (<= a b), (>= a b), (== a b), (!= a b)"])
p("P06","A value's type tag always matches its content, and conversions follow it",
 "Every value that can be created carries the type tag of its content, so exactly one of the type predicates describes it (nil also being the empty list), and reading the content as another type is a language error. Conversion to int, float, bool and string is total on the types it is defined for and gives the documented result (truncation toward zero, true as 1, nonzero as true, numeric prefix of a string, printed form), yields undefined for a value or text that has no such conversion (int, float and the parse functions), and is a language error for all others.",
 ["inputs","histories"],"all values of all types, however they were constructed or copied",
 "The invariant ties every construction path to every access path; tests construct a few values directly and read them back as the same type.",
 [I+'Variant.cpp',I+'Variant.h',I+'csobject.h',I+'csobject.cpp',I+'Environment.cpp'],
 [("LispVariant constructors and TypeOf/ConvertObjectTypeToVariantType",I+'Variant.cpp'),("ToBool/ToInt/ToDouble/ToString and the checked accessors",I+'Variant.cpp')],
 ["(typestr x), (int x), (float x), (bool x), (str x), type predicates"])
p("P07","List operations are the mathematical sequence operations",
 "len, first, rest, last, nth, cons, append, reverse, push, pop, map, reduce and list construction on lists return exactly the elements the corresponding sequence operation gives, in order, and apart from push, pop and element assignment leave their arguments unchanged; push and pop change exactly the named position. Lists are shared by reference, nil counts as the empty list. An index outside the list, or an element taken from an empty list, is a language error (first, last, nth) or nil (push, pop), never an access outside the list.",
 ["inputs","histories"],"all lists, element values, indices (negative and too large included) and argument counts",
 "Tests use short lists with valid indices; the guarantee is about every length and every index, and about arguments staying unchanged.",
 [I+'Environment.cpp',I+'cstypes.h',I+'Variant.cpp'],
 [("First/Rest/Last/Nth/Cons/Append/Reverse/Push/Pop/Map/Reduce/Length",I+'Environment.cpp'),("IEnumerable container operations",I+'cstypes.h')],
 ["values of the list builtins and of their arguments afterwards"])
p("P08","String operations are exact for every string and position",
 "len, first, rest, last, nth, slice, search, replace, trim, split, upper, lower and formatting return exactly what the corresponding operation on character sequences gives, for every string, pattern and position: replace changes every non overlapping occurrence, trim removes white space only at the ends, search gives the first position at or behind the start (or -1), a format item {n} or {n,w} inserts its argument verbatim. A position outside the string is a language error or an empty result, never a read outside the string or an abort.",
 ["inputs"],"all strings, patterns, positions and lengths, including empty ones, overlapping patterns and arguments that themselves look like format items",
 "The tests try each operation on one or two strings; empty patterns, positions at or behind the end and format items inside arguments are unbounded combinations.",
 [I+'csstring.h',I+'csstring.cpp',I+'Environment.cpp'],
 [("string::Trim/Split/Replace/Substring/IndexOf/Format",I+'csstring.cpp'),("builtins Slice, Search, Replace, Trim, UpperCase, LowerCase, Nth",I+'Environment.cpp')],
 ["values of the string builtins, string::Format"])
p("P09","A name resolves to the innermost visible binding and assignment updates it",
 "Looking up a name yields the binding in the current scope if there is one, otherwise that of the nearest enclosing closure that has one, otherwise the global one, otherwise that of a loaded module; assignment to a name changes exactly that same binding and no other, and assigning to a name that has none is a language error. A name that only a loaded module has can be read but not assigned from outside of the module. A definition creates or replaces the binding in the current scope only.",
 ["inputs","histories"],"all scope chains of any depth, all names, and all histories of definitions and assignments",
 "Tests build one or two nested scopes with distinct names; shadowing between all four levels and any chain depth is not sampled.",
 [I+'Scope.cpp',I+'Scope.h',I+'Environment.cpp'],
 [("LispScope::ResolveInScopes / SetInScopes / IsInClosureChain",I+'Scope.cpp'),("def_form_helper and setf_form",I+'Environment.cpp')],
 ["ResolveInScopes result, contents of every scope after SetInScopes"],
 [("scope map, closure chain, global scope","where a binding lives",I+'Scope.h')])
p("P10","A call binds parameters by position in a fresh scope",
 "Calling a user defined function binds the i-th formal parameter to the i-th evaluated argument in a scope of its own, missing arguments become nil, surplus arguments are available as additional arguments, and the body's value (or that of the first return executed) is the value of the call. The caller's bindings are unchanged by the call, every invocation has its own parameters (recursion and closures included), names given directly as arguments are looked up before nested calls in the other arguments, which are evaluated from left to right, and leaving the call by an error leaves the caller's scope chain as it was.",
 ["inputs","programs","histories"],"all parameter and argument counts, all nestings of calls, closures and recursion, normal and exceptional exits",
 "Tests call functions with matching small argument lists; argument counts, nesting and error exits multiply.",
 [I+'Environment.cpp',I+'Scope.h',I+'Interpreter.cpp'],
 [("fn_form (parameter binding, PushNextScope/PopNextScope, return flag)",I+'Environment.cpp'),("LispInterpreter::EvalAst (argument evaluation)",I+'Interpreter.cpp')],
 ["value of calls, scope chain length after calls"])
p("P11","Control forms evaluate exactly the right parts, in order",
 "if evaluates its condition once and then only the chosen branch, while evaluates its body exactly as long as the condition holds, do evaluates its parts in order and yields the last, and and or evaluate from left to right, stop at the first argument that decides the result, and return the logical value. A return that is a statement of a do or while (or the body of the function) leaves exactly the innermost enclosing function, an if without else whose condition is false yields nothing, and an ill formed use (wrong argument count or type) is a language error.",
 ["programs","inputs"],"all conditions, bodies and argument counts, all side effects of the parts",
 "What must not be evaluated is visible only through side effects in every position; tests check results of a few fixed combinations.",
 [I+'Environment.cpp'],
 [("if_form, while_form, do_form, bool_operation_form, Return",I+'Environment.cpp')],
 ["value of the form and the trace of side effects of its parts"])
p("P12","Quoting is verbatim and quasiquote evaluates exactly the unquoted parts",
 "A quoted expression evaluates to itself unchanged. In a quasiquoted expression every element outside an unquote is kept as it is, in place and at every depth, every unquoted expression is replaced by its value and every splicing unquote by the elements of its list value, whatever the number of elements around it. Nested quasiquotes are not distinguished, and a splicing unquote stands inside a list.",
 ["programs","inputs"],"all templates of any length and nesting, unquotes in every position",
 "The position and number of unquotes in a template is unbounded; tests use a few templates of three or more elements.",
 [I+'Environment.cpp',I+'Parser.cpp',I+'Interpreter.cpp'],
 [("quote_form, quasiquote_form, ProcessQuotedSExpression",I+'Environment.cpp')],
 ["value of quoted and quasiquoted expressions"])
p("P13","Macro expansion substitutes the actual arguments for the formal ones",
 "Expanding a call of a macro yields the macro body (with the macro calls in it expanded) with every occurrence of a formal parameter, at any depth, replaced by the corresponding actual argument and everything else unchanged and in order; the substitution is simultaneous, so a substituted argument is not searched for further parameters, and text in arguments that equals a parameter name as string data is not touched. Compile time expansion removes all calls of (not self referring) compile time macros outside of quoted data, and a call with too few arguments is a language error, never an access outside the argument list.",
 ["programs","inputs"],"all macro bodies, parameter lists, argument expressions and argument counts",
 "Substitution has to be right for every body shape and argument count; tests use a few two parameter macros with matching arguments.",
 [I+'Interpreter.cpp',I+'Environment.cpp'],
 [("ReplaceSymbolWithValueInExpression, ReplaceFormalArgumentsInExpression, ExpandMacros",I+'Interpreter.cpp'),("LispVariant::SymbolCompare",I+'Variant.cpp')],
 ["macro expansion result"])
p("P14","Dictionaries behave as finite maps",
 "After any sequence of dictionary operations a lookup returns the value stored last under that key, keys that are not equal never share an entry, removal and clearing remove exactly the named entries, and the number of entries, the key list and the containment tests agree with each other. Keys may be of any type, mixed in any order: an integer and a double of the same numeric value are the same key, other keys are the same if type and text are the same.",
 ["histories","inputs"],"all sequences of set, get, remove, clear and query operations with all key types",
 "Agreement with a finite map is a property of operation histories; tests run a few fixed sequences with one key type.",
 [I+'Environment.cpp',I+'cstypes.h',I+'Variant.cpp'],
 [("Dict builtins",I+'Environment.cpp'),("Dictionary container and key order LispVariant::operator<",I+'cstypes.h')],
 ["dict-get, dict-keys, dict-contains-key, dict-contains-value, len"])
p("P15","The debugger stops exactly where it was told to",
 "Execution stops at an expression exactly when a breakpoint for its module and line exists whose condition holds, or stepping demands it: step into stops at the next expression, step over at the next one not deeper than the current call, step out at the next one in a calling function. A condition is a program; a condition that fails or is no program does not hold, and neither its evaluation nor that of a documentation command stops. Adding a breakpoint on a line that has one replaces it, clearing by number removes exactly that one and leaves the order and numbering of the others, and no debugger command line makes the debugger fail (what programs typed at the prompt do aside).",
 ["histories","inputs"],"all histories of breakpoint commands and steps, all command texts, all call depths",
 "Breakpoint state is a function of the whole command history; tests replay a few recorded sessions.",
 [D+'Debugger.cpp',D+'Debugger.h'],
 [("LispDebugger::NeedsBreak, HitsBreakpoint",D+'Debugger.cpp'),("AddBreakpoint, ClearBreakpoint, ClearAllBreakpoints, HasBreakpointAt",D+'Debugger.cpp')],
 ["NeedsBreak result, breakpoint list"])
p("P16","Every failing program ends in an error value, never in a crash",
 "Evaluating any program text with the safe entry point either returns the value of the program or returns an error value that carries the message; no program text, argument count, argument type or value makes it throw, abort or access invalid memory (running out of stack or memory and not terminating aside). A failing evaluation leaves the evaluation flags and scope chain of an embedding session usable, so that the next evaluation in the same session behaves as if the failed one had only had its completed side effects (redefined builtins and macros, reserved names starting with ### and structures that contain themselves aside).",
 ["programs","inputs","histories"],"all program texts, every builtin with every number and type of arguments, failures at every point",
 "A single unlucky argument combination out of all builtins and types breaks it; tests exercise documented uses and a few error cases.",
 [I+'Lisp.cpp',I+'Environment.cpp',I+'Variant.cpp',I+'Interpreter.cpp',I+'Exception.cpp'],
 [("Lisp::SaveEval catch clauses",I+'Lisp.cpp'),("CheckArgs and the checked accessors",I+'Environment.cpp')],
 ["Lisp::SaveEval result"])
p("P17","Copies of values are faithful and independent",
 "Copying a value yields one of the same type and equal content for every kind of value, later changes of the copy's own content (elements of lists and dictionaries are shared by reference) do not show in the original or the other way round, and creating, copying and destroying values in any order releases every resource exactly once.",
 ["histories","inputs"],"all kinds of values and all histories of copying, changing and destroying",
 "Ownership errors show up only for particular kinds and orders of copy and destruction, mostly invisibly to tests that only compare results.",
 [I+'csobject.cpp',I+'csobject.h',I+'Variant.cpp'],
 [("object copy constructor and CleanUpMemory",I+'csobject.cpp'),("LispVariant copy constructor",I+'Variant.cpp')],
 ["content of copy and original, memory accesses under a sanitizer"],
 [("m_Type/m_Data","tag and owned payload of a value",I+'csobject.h')])
if __name__=='__main__':
    open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
