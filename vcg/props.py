"""Which obligations state which property, on which other obligations they rest, and which concrete oracle goes with them."""
COMMON_ASSUMPTIONS = [
    'The C++ abstract machine as clang 18 parses it (x86-64, LP64, signed char); the compiler that builds the library is not verified.',
    'Allocation never fails, sizes stay below 2^63 and the stack does not overflow (nesting depth, see known-findings.txt).',
    'Standard library functions do what the assumed contracts in vcg/stdlib.py say; they are exercised by the concrete runs.',
]

class Prop:
    def __init__(s, units=(), own=None, harnesses=(), level='proof', rule='', assumptions=(), bounded='', explanation='', note='', technique=None):
        s.units = [(u, None) if isinstance(u, str) else u for u in units]
        s.own = own or (lambda o: True); s.harnesses = list(harnesses); s.level = level; s.rule = rule
        s.assumptions = list(assumptions); s.bounded = bounded; s.explanation = explanation; s.note = note
        s.technique = technique or 'contracts on the real functions, obligations generated from the clang AST and discharged by Verus/Z3'

def jc(o): return o.inst.startswith(('1', 'True', 'true'))
def base(o): return o.q.split('::')[-1]
STR = ('parse_stdstring', 'skip_unicode_escape', 'skip_string_literal_with_accel', 'parse_string')
COMMENT = ('skip_comment', 'skip_whitespace')
def func(o): return o.kind == 'functional'
BV = lambda o: o.inst == 'bit-vectors'
LOAD = lambda o: 'load' in o.fn

TEXT_RULE = 'texts: all short strings over grammar alphabets, every byte at every place around the packed sizes, all \\u units, random documents and byte mutations; non-trivial: distinct texts'

PARSER_NOTE = ('Proved for all texts: every function of the parser (strict and JSONC, std::string and std::string_view, four packed-byte traits) is verified against the grammar '
               'in vcg/spec/grammar.rs from the AST clang extracts on every run. Trusted: extractor, obligation generator, Verus/Z3, the assumed contracts of std:: functions, no stack overflow; concrete runs against an independent reader accompany every run.')

ESC = ('append_escaped_string', 'escape_string', 'unescape_string')
FMT = ('format_to', 'format', 'dumps', 'operator<<')
INFO = ('type_name', 'value_info')
SERIAL_RULE = 'strings over all bytes, random trees of values built through the public constructors, five indents each; non-trivial: distinct cases'
SERIAL_NOTE = ('Proved for all values and indents: escaping, dump_to, format_to, to_string, format and dumps of value, array and object produce the text that vcg/spec/serial.rs specifies, and the theorems of '
               'vcg/spec/roundtrip.rs show that the reader of vcg/spec/grammar.rs gives the value back. Trusted: extractor, obligation generator, Verus/Z3, assumed std:: contracts (std::map iterates its keys in order); values are '
               'well-formed (tag and payload agree), the stack does not overflow.')
INTS = ('as_integer', 'as_unsigned', 'as_long', 'as_unsigned_long', 'as_long_long', 'as_unsigned_long_long', 'operator int', 'operator unsigned int', 'operator long', 'operator unsigned long',
        'operator long long', 'operator unsigned long long', 'parse_integer', 'try_parse_integer')
INT_T = ('<int>', '<unsigned int>', '<long>', '<unsigned long>', '<long long>', '<unsigned long long>', '<signed char>', '<unsigned char>', '<short>', '<unsigned short>')
def cls(o): return o.q.split('::')[1] if o.q.startswith('json::') else ''
def c10(o): return base(o) in INTS or o.fn == 'value(integer)' or o.fn.startswith(('value::as<', 'value::is<')) and any(o.fn.rstrip(' &').endswith(t) for t in INT_T)
def c11(o): return base(o) in ('is', 'as', 'all') or o.fn.startswith(('value::find<', 'array::find<', 'object::find<')) or base(o).startswith('is_') or base(o) in ('valid', 'type')
def c12(o): return base(o) in ('contains', 'exists', 'at', 'find_value', 'find', 'get', 'get_helper', 'size') or base(o) == 'operator[]' and (o.fn.endswith(' const') or o.fn == 'array::operator[]')
def c13(o): return base(o) in ('operator=', 'deep_copy', 'value', 'array', 'object') and o.fn not in ('value(integer)',)
def c14(o): return base(o) in ('operator==', 'operator!=')
MUT = ('erase', 'clear', 'operator[]', 'emplace', 'emplace_back', 'push_back', 'insert')
def c15(o): return base(o) in ('append_array', 'append_array_move', 'operator+', 'operator+=') or base(o) in MUT and (cls(o) == 'array' or cls(o) == 'value' and ('pos' in o.fn or 'element' in o.fn or base(o) == 'clear'))
def c16(o): return base(o) in ('merge_object', 'merge_object_move', 'operator|', 'operator|=') or base(o) in MUT and (cls(o) == 'object' or cls(o) == 'value' and 'key' in o.fn)
def c21(o): return cls(o) == 'value' and (base(o) in ('empty', 'as_boolean', 'as_string', 'as_string_view', 'as_array', 'as_object', 'as_basic_type_str', 'at', 'clear') + MUT + ('operator+', 'operator+=', 'operator|', 'operator|=') + INTS
                  or base(o).startswith(('operator ', 'is_')))
CORE_NOTE = ('Proved for all well-formed values, texts, positions and keys: the listed functions of value_impl.hpp, array_impl.hpp and object_impl.hpp against vcg/spec/core.rs, from the AST clang extracts on every run, including right operands '
             'that are the destination or live inside it. Trusted: extractor, obligation generator, Verus/Z3, assumed std:: contracts; type of the exception and exclusions as DESIGN.md lists them; concrete histories against a reference model accompany every run.')
TYPED_NOTE = ' Templates are proved for the instantiations in drivers/core.cpp, typed.cpp and look.cpp (fundamental types, strings, and 18 container, wrapper, tuple and variant types); other instantiations are covered by concrete cases only.'
HIST_RULE = 'random histories of operations on three values (paths, aliases, rvalues, wrong kinds) against a reference model; non-trivial: distinct histories'
CONV_RULE = 'random values, trees at and next to the boundary of what a type accepts, every fundamental, container, wrapper, enum and macro type listed in the harness; non-trivial: distinct cases'
NOIO = ('parser', lambda c, f: not getattr(c, 'io', False))      # the parser without its entry points
IO_NOTE = ('Proved for all texts, streams and files: parse and parsec of std::string, std::string_view and const char*, parse(std::istream&), open and the four literals against vcg/spec/io.rs; a stream is modelled by what it delivers, the size it reports, '
           'whether it can seek and its error state, a file by uninterpreted functions of its path. The parser itself is verified in the same run. std::vector<char> and std::array as text and reads that fail part-way are concrete cases only. '
           'Trusted: extractor, obligation generator, Verus/Z3, the assumed contracts of std::istream/ifstream.')
CONT_NOTE = ('Proved for all contents: the constructors of value, array and object from, and is<T>/as<T> (const and rvalue) to, the container, tuple and wrapper types instantiated in drivers/typed.cpp, against specifications generated from the structure of each type '
             '(vcg/c_typed.py), with the lemmas that the representation of x is accepted, reads back as x, and prints and parses back as x. Further instantiations are covered by concrete cases only. '
             'Trusted: extractor, obligation generator, Verus/Z3, assumed contracts of the std:: containers (unordered containers are taken to iterate in some fixed order of their keys).')
ENUM_NOTE = ('Proved for every text and every value of the underlying type, for the enumerations of drivers/enums.cpp (negative, sparse with MEOJSON_ENUM_RANGE, 64-bit, unscoped, colliding names): enum_to_string, string_to_enum, iequals, value(enum), operator enum, is<E>, as<E> '
             'against a specification generated from the declaration of each enumeration, with the lemma that every named enumerator reads back as itself. The table of names is a constant that clang evaluates while extracting; that it holds exactly the declared enumerators is an obligation. '
             'The table as gcc evaluates it, other enumerations, and underlying types char and short are covered by concrete cases only. Trusted: extractor, clang constant evaluation, obligation generator, Verus/Z3.')
MEO_NOTE = ('Proved for every json value and every state of the object, for the structs of drivers/meo.cpp (every combination of markers, nested structs, containers of structs, members named like each other\'s keys): to_json, check_json, from_json with and without the name of the member at fault, '
            'value(S), object(S), is<S>, as<S> (const and rvalue), operator S, and containers of S, against a specification generated from the list of members, with the lemma that what to_json gives is accepted and reads back into any other object; the recursion over the listed members is followed through every instantiation. '
            'Not proved, only tested: other structs, lists of every length from 1 to 64 places (many_h). The list of members with keys and initial values is repeated in vcg/c_meo.py. Trusted: extractor, obligation generator, Verus/Z3, assumed contracts of the std:: containers.')
def c20(o): return o.q in ('json::parse', 'json::parsec', 'json::open') or o.q.startswith('json::literals::')
FLOAT_RULE = 'float, double and long double of random bits, at the ends of the ranges, subnormal and next to powers of ten; number texts of many lengths, exponents at and past the ranges, texts that are no numbers; with and without MEOJSON_KEEP_FLOATING_PRECISION; non-trivial: distinct cases'
FLOAT_NOTE = ('Proved for every finite float, double and long double, every text and every value, with and without MEOJSON_KEEP_FLOATING_PRECISION: the constructors, as_float/as_double/as_long_double, the conversion operators, is, as (const and rvalue), all, find and get, '
              'with the theorem that what a constructor stores reads back, directly and through text. What the C and C++ library does is assumed, in vcg/spec/floats.rs: an ostream in its default format (C locale) with at least max_digits10 digits writes a JSON number that strtof/strtod/strtold read back exactly; '
              'std::to_string writes a JSON number; strto* use up a JSON number completely; a range error is reported in errno by them alone. That these assumptions hold of this library is only tested. Trusted: extractor, obligation generator, Verus/Z3.')
ITER_RULE = 'arrays of 0 to 255 elements and objects with equal, missing, empty, NUL and non-ASCII keys, walked through in every way, changed through iterators, made from lists of 0 to 5 entries; non-trivial: distinct cases'
ITER_NOTE = ('Proved for all arrays, objects and lists: the constructors from a list, and client functions (drivers/iter.cpp, with loop invariants) that walk through arrays and objects with each pair of iterators the classes hand out, collect or overwrite what they visit; the iterator functions of /repo are inlined into them. '
             'The elements of std::vector, std::map (keys in bytewise order) and std::initializer_list and their iterators are assumed contracts. Trusted: extractor, obligation generator, Verus/Z3. Iterator arithmetic other than ++ is only tested.')
USER_RULE = 'classes of every kind (members, specialisation, moving variants, move-only, giving arrays or objects) whose conversions are pseudo-random functions that refuse and throw, random objects and values, alone, in containers and in a macro struct; non-trivial: distinct cases'
USER_NOTE = ('Proved for classes whose conversions are only declared, so that they stand for every class: their contracts are uninterpreted functions of the object and the value. value(x), array(x), object(x), is, as (const and rvalue), the conversion operators of value, array and object, find, get, and std::vector, std::map, std::optional, '
             'std::shared_ptr, std::tuple, std::pair, std::array, std::variant and a MEO_JSONIZATION struct of such classes (drivers/user.cpp). Assumed of the author: to_json and check_json do not throw, json values they hand out are well-formed, conversions change nothing but their own object and the value they may move from. '
             'Trusted: extractor, obligation generator, Verus/Z3, assumed contracts of the std:: containers.')
NOT_APPLICABLE = {}
PROPS = {
    'C01': Prop([NOIO], lambda o: (BV(o) and not LOAD(o)) or (not BV(o) and func(o) and not jc(o)), ['parser_h'], rule=TEXT_RULE, note=PARSER_NOTE),
    'C02': Prop([NOIO], lambda o: (BV(o) and not LOAD(o)) or (not BV(o) and func(o) and not jc(o) and base(o) not in COMMENT), ['parser_h'], rule=TEXT_RULE, note=PARSER_NOTE),
    'C03': Prop([NOIO], lambda o: (BV(o) and not LOAD(o)) or (not BV(o) and func(o) and base(o) in STR), ['parser_h'], rule=TEXT_RULE, note=PARSER_NOTE),
    'C04': Prop([NOIO], lambda o: (BV(o) and not LOAD(o)) or (not BV(o) and func(o) and (jc(o) or base(o) in COMMENT)), ['parser_h'], rule=TEXT_RULE, note=PARSER_NOTE),
    'C05': Prop([NOIO], lambda o: LOAD(o) if BV(o) else not func(o), ['parser_h'], rule=TEXT_RULE, note=PARSER_NOTE),
    'C06': Prop([NOIO, 'packed_avx2'], lambda o: BV(o) or (func(o) and base(o) in ('skip_string_literal_with_accel', 'parse_stdstring')), ['parser_h'], rule=TEXT_RULE, note=PARSER_NOTE),
    'C07': Prop(['serial'], lambda o: func(o) and base(o) in ESC, ['serial_h'], rule=SERIAL_RULE, note=SERIAL_NOTE),
    'C08': Prop(['serial'], lambda o: func(o) and base(o) not in ESC + FMT + INFO, ['serial_h'], rule=SERIAL_RULE, note=SERIAL_NOTE + ' That json::parse reads the written text as the theorem says rests on C01, C02 and C03.'),
    'C09': Prop(['serial'], lambda o: func(o) and base(o) in FMT, ['serial_h'], rule=SERIAL_RULE, note=SERIAL_NOTE + ' operator<< is proved for a stream in its default state (no field width).'),
    'C10': Prop(['core'], c10, ['int_h'], rule=CONV_RULE, note=CORE_NOTE),
    'C11': Prop(['core', 'typed', 'look'], c11, ['int_h', 'seq_h', 'tup_h', 'wrap_h', 'enum_h'], rule=CONV_RULE, note=CORE_NOTE + TYPED_NOTE),
    'C12': Prop(['core', 'look'], c12, ['value_h'], rule=HIST_RULE, note=CORE_NOTE + TYPED_NOTE),
    'C13': Prop(['core'], c13, ['value_h'], rule=HIST_RULE, note=CORE_NOTE),
    'C14': Prop(['core'], c14, ['value_h'], rule=HIST_RULE, note=CORE_NOTE),
    'C15': Prop(['core'], c15, ['value_h'], rule=HIST_RULE, note=CORE_NOTE),
    'C16': Prop(['core'], c16, ['value_h'], rule=HIST_RULE, note=CORE_NOTE),
    'C17': Prop(['typed'], lambda o: True, ['seq_h', 'tup_h', 'wrap_h'], rule=CONV_RULE, note=CONT_NOTE),
    'C18': Prop(['enums'], lambda o: True, ['enum_h'], rule='enums of every shape (negative, sparse, 64-bit, unscoped, colliding names) with every name, its case variants and near misses, numbers at and next to the bounds of the underlying type; non-trivial: distinct cases', note=ENUM_NOTE),
    'C19': Prop(['meo'], lambda o: True, ['meo_h', 'many_h'], rule='structs with every combination of markers, JSON values with members missing, extra and ill-typed at each place, lists of 1 to 64 places; non-trivial: distinct cases', note=MEO_NOTE),
    'C20': Prop(['parser'], c20, ['io_h'], rule='texts through every entry point, compared with the reader of the harness; streams and files that are empty, truncated, unreadable, with and without a byte order mark; non-trivial: distinct texts', note=IO_NOTE),
    'C21': Prop(['core'], c21, ['value_h'], rule=HIST_RULE, note=CORE_NOTE),
    'C24': Prop(['user'], lambda o: True, ['user_h'], rule=USER_RULE, note=USER_NOTE),
    'C23': Prop(['iter'], lambda o: True, ['iter_h'], rule=ITER_RULE, note=ITER_NOTE),
    'C22': Prop(['floats', 'floats_plain'], lambda o: True, ['flt_h', 'fltp_h'], rule=FLOAT_RULE, note=FLOAT_NOTE,
                assumptions=['The decimal conversions of the C and C++ library are as vcg/spec/floats.rs assumes them ("C" locale, default stream format, correct rounding).']),
}
