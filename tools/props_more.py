U = 'common/utils.hpp'; V = 'common/value_impl.hpp'; A = 'common/array_impl.hpp'; O = 'common/object_impl.hpp'
PROPS += [
 P('C07', 'Escaping is legal JSON and loses nothing',
   'For every byte string s, json::_utils::escape_string(s) (and the text between the quotes that serialisation writes for a string value or member name) contains no raw control character, no unescaped quote and no stray backslash, and as a JSON string literal it decodes to exactly s. Bytes of 0x20 and above other than quote and backslash are written as they are; escaping is injective.',
   ['inputs'], 'every byte string: every byte at every position, embedded NUL, invalid UTF-8', 'Tests escape a few strings; 256 byte values times their neighbours and the run-copy boundary (no_escape_beg) are not sampled.',
   [U, V, O], [('append_escaped_string', U), ('escape_string, unescape_string', U), ('value::dump_to, object::dump_to / format_to write the quotes', V)]),
 P('C08', 'to_string() reads back as the same value',
   'For every value that contains no invalid value, to_string()/dumps() of a value, array or object gives the compact JSON text of it (elements in order, members in the order of their keys, no whitespace), changes nothing, and for arrays and objects json::parse and json::parsec of that text return a value equal to the original. Two values with the same text are equal. A value that contains an invalid value is not serialised: json::exception is thrown.',
   ['inputs'], 'every value: any nesting, any strings and keys, any number literal the parser or an integer constructor can produce', 'A round trip has to hold for every tree shape and string; tests do a handful.',
   [V, A, O, U, PI], [('value::dump_to, to_string, dumps', V), ('array::dump_to', A), ('object::dump_to', O)]),
 P('C09', 'format(indent) only adds layout',
   'For every value that contains no invalid value and every indent, format(indent)/dumps(indent) and operator<< (indent 4) give the text of to_string() with layout added: every element and member on its own line behind indent times depth spaces, ", " never, ": " behind a member name, the closing bracket on its own line; for arrays and objects the text parses to a value equal to the original.',
   ['inputs', 'configurations'], 'every value and every indent (size_t arithmetic included)', 'Layout and value have to agree for every tree and indent; tests format a handful with the default indent.',
   [V, A, O], [('value::format_to, format, dumps', V), ('array::format_to', A), ('object::format_to', O)]),
]
R = 'reflection/jsonization.hpp'; ER = 'common/enum_reflection.hpp'
PROPS += [
 P('C10', 'Integers are stored and read exactly or not at all',
   'json::value(n) of any integer type is the number whose text is n in decimal, and reading it back gives n. Reading a number as an integer type T (as_integer() ... as_unsigned_long_long(), the conversion operators, as<T>()) gives the integer its text denotes exactly when the whole text is an optional minus sign (for signed T only) and decimal digits and the integer is in the range of T; in every other case (a fraction or exponent, an integer out of range, a value that is no number) json::exception is thrown and the value is unchanged.',
   ['inputs'], 'every integer of every width, every number literal the parser accepts', 'Tests read a few small numbers; the boundaries are at 2^31, 2^32, 2^63, 2^64 and beyond, for each type.',
   [V, 'common/value.hpp'], [('try_parse_integer, parse_integer', V), ('value::as_integer ... as_unsigned_long_long', V), ('value(int) ... value(unsigned long long)', V)]),
 P('C11', 'is<T>(), as<T>() and find<T>() agree',
   'For every value and type T that is<T>() and as<T>() support (except floating point): as<T>() on const and on rvalue values succeeds when is<T>() is true, and throws json::exception when it is false; is<T>() tells exactly whether the kind (and, for integers, range; for containers, every element; for fixed-size arrays and tuples, also the number of elements; for optional and smart pointers, null or the inner type; for variant, one of the alternatives) fits. find<T>(key or position) holds as<T>() of the element when there is one and is<T>() is true for it, and is empty otherwise; it does not throw. None of them changes a const value.',
   ['inputs'], 'every value, every supported type', 'The pairs of value and type are unbounded; tests check a few that fit.',
   [V, A, O, 'common/value.hpp'], [('value::is, value::all', V), ('value::as', V), ('value::find, array::find, object::find', V), ('array::as', A), ('object::as', O)]),
 P('C12', 'Lookup finds what is there and nothing else',
   'contains, exists, find_value, find, at and get of value, array and object agree: for a key (on an object) or position (on an array) that exists they denote that very element, otherwise contains and exists are false, find_value is null, find is empty, at throws (json::exception for a value of the wrong kind, std::out_of_range for a missing element) and get gives the default. get with several keys and positions follows them one by one and gives the element converted to the type of the default when the whole path exists and the element has that type (is<T>()), and otherwise the default; it does not throw. Lookup on a const value changes nothing.',
   ['inputs'], 'every value, every key, every position (up to SIZE_MAX), every path', 'Tests look up keys that exist at depth one or two.',
   [V, A, O], [('value::find_value / contains / at / get_helper', V), ('array::find_value / contains / at / get_helper', A), ('object::find_value / contains / at / get_helper', O)]),
 P('C13', 'Copies are deep and independent, moves and assignments exact',
   'A copy of a value, array or object equals its source and shares nothing with it: changing or destroying one never changes the other. Move construction and move assignment give the target what the source had. Assignment gives the target what the right operand had before, also when the right operand is the target itself (copy), lives inside the target, or contains the target (copy).',
   ['inputs', 'histories'], 'every tree, every pair of operands including overlapping ones, every history of mutations afterwards', 'Sharing and dangling show only when both sides are used afterwards, or when the operands overlap; tests copy and compare once.',
   [V, A, O], [('value::deep_copy', V), ('value::operator=', V), ('array::operator=', A), ('object::operator=', O)], [('_raw_data', 'the payload: text or owned array or owned object', 'common/value.hpp')]),
 P('C14', 'Equality is structural',
   'Two values are equal exactly when they have the same kind and: both are null, or the same boolean, the same number text, the same string, arrays of the same length with equal elements in order, objects with the same keys and equal members. != is the negation. Equality is reflexive, symmetric and transitive on values without invalid ones and does not depend on the order in which members were inserted.',
   ['inputs'], 'every pair of values', 'Tests compare small literals; a comparison that stops early, ignores a suffix or a key needs a pair that differs just there.',
   [V, A, O], [('value::operator==', V), ('array::operator==', A), ('object::operator==', O)]),
 P('C15', 'Array operations change exactly what they name',
   'emplace, emplace_back and push_back append the given value (also when it lives inside the array) and return a reference to it; erase(position or iterator) removes that element, keeps the others in order and returns whether there was one; clear empties; a[i] denotes element i; a + b and a += b are the elements of a followed by those of b (also for a += a and for b inside a), with b unchanged unless it is moved from. On a value the same holds for the array it holds; a null, empty string, empty object value becomes an array first; for other kinds json::exception is thrown and the value is unchanged.',
   ['inputs', 'histories'], 'every array, position, operand (overlapping ones included) and history of operations', 'Tests append and erase once in a small array; aliasing operands and reallocation are not sampled.',
   [A, V], [('array::emplace_back / push_back / erase / clear / operator[]', A), ('append_array, append_array_move', A), ('array::operator+ / operator+=', A), ('value::emplace / erase / operator+=', V)]),
 P('C16', 'Object operations change exactly what they name',
   'o[key] denotes the member of that key and inserts null when there is none; emplace and insert give the member of that key the given value, replacing an old one; erase(key or iterator) removes that member and returns whether there was one; clear empties. o | p and o |= p have the members of both, and for a key that both have the member of p (whole, nested objects are not merged); p is unchanged unless it is moved from, also when p lives inside o. No other member changes. On a value the same holds for the object it holds; a null, empty string or empty array value becomes an object first; for other kinds json::exception is thrown and the value is unchanged.',
   ['inputs', 'histories'], 'every object, key, operand (overlapping ones included) and history of operations', 'Tests merge flat objects; precedence, moved-from sources and aliasing need particular operands.',
   [O, V], [('object::operator[] / emplace / insert / erase / clear', O), ('merge_object, merge_object_move', O), ('object::operator| / operator|=', O), ('value::emplace / erase / operator|= / operator[]', V)]),
 P('C17', 'C++ values survive the way through JSON',
   'For every x of a supported type (bool, integers, std::string, std::filesystem::path, collections, string-keyed maps, std::array, std::pair, std::tuple, std::optional, smart pointers, std::variant, json types, and nestings of these), json::value(x) is the JSON array, object or scalar that mirrors x (elements in the order of iteration, null for an empty wrapper), is<T>() of it is true, as<T>() of it (const or rvalue, and after to_string() and parse for arrays and objects) gives x back, and making it from an lvalue leaves x unchanged. A JSON array whose length differs from a fixed-size array or tuple is not converted.',
   ['inputs'], 'every value of every supported type', 'Combinations of containers and value categories are unbounded; tests convert a handful of literals.',
   [V, A, O, 'common/value.hpp', 'common/array.hpp', 'common/object.hpp'], [('array(const collection_t&), array(collection_t&&), array(tuple), array(fixed array)', A), ('object(const map_t&), object(map_t&&)', O), ('array::as', A), ('object::as', O), ('value(wrapper_t), value(std::variant)', 'common/value.hpp')]),
 P('C18', 'Enums convert by name, exactly',
   'json::value(e) of a named enumerator within the reflected range is the string of its name and as<E>() of it gives e; of any other enum value json::exception is thrown. as<E>() of a string gives the enumerator of that name, or if there is none, the one whose name differs only in case of ASCII letters, otherwise it throws and is<E>() is false; as<E>() of a number in the range of the underlying type gives the value of that number. enum_to_string is empty for a value that is no enumerator within the range, whatever the underlying type.',
   ['inputs', 'configurations'], 'every enumeration and every value of its underlying type, every string', 'Tests use two enums and their declared names; negative, sparse, 64-bit and case-colliding enums have their own paths.',
   [ER, 'common/value.hpp', V], [('enum_to_string, string_to_enum, iequals', ER), ('get_enum_names, is_valid, name', ER), ('value(enum_t), operator enum_t', 'common/value.hpp')]),
 P('C19', 'The jsonization macros round trip and check',
   'For a struct with MEO_JSONIZATION(members): to_json() is the object with exactly one member per listed C++ member, under its name or the MEO_KEY name, holding its JSON value; from_json() of it into any other object of the struct gives the listed members back. check_json(v) and from_json(v) succeed exactly when every listed member is present in v, or marked MEO_OPT, and every one present fits the type of the member (a v that is no object has no members); otherwise they return false and name the first member at fault. A missing optional member keeps its old value; other members of v are ignored; v is unchanged; as<T>() throws json::exception exactly when from_json() fails.',
   ['inputs', 'configurations'], 'every JSON value and every combination of member types and markers', 'Tests use a few structs and well-formed input; missing, extra and ill-typed members at each place are not sampled.',
   [R, V, 'common/value.hpp'], [('dumper::_to_json', R), ('checker::_check_json', R), ('loader::_from_json', R)]),
 P('C20', 'All ways of reading a text agree',
   'json::parse of a std::string, std::string_view, const char* (up to its NUL), a contiguous container of characters (such as std::vector<char>) and an input stream give the same result for the same text, json::parsec likewise; json::open reads a file as parse reads its content; with check_bom a leading UTF-8 byte order mark is skipped and otherwise it is not; a file or stream that cannot be read gives std::nullopt. The literals _json, _jvalue, _jarray and _jobject give the parsed value, or a null value (empty array, empty object) when the text is malformed or of another kind.',
   ['inputs', 'environment'], 'every text, every way of handing it over, unreadable files and streams', 'Tests parse literals from strings; embedded NUL bytes, marks and unreadable files are not sampled.',
   [PI, 'parser/parser.hpp'], [('parse, parsec, open', PI), ('operator""_json, _jvalue, _jarray, _jobject', PI), ('parse(istream&, check_bom, with_comments)', PI)]),
 P('C21', 'A value of the wrong kind is refused and left alone',
   'Reading a value as a kind it does not have (as_boolean, as_string, as_array, as_object, the integer readers, the conversion operators, at) throws json::exception and changes nothing; is_null ... is_object and type tell the kind. Non-const as_array() and as_object(), and the mutating operations built on them, convert only an empty value (null, empty string, empty array, empty object) of another kind, and throw json::exception and change nothing for every other kind. The conversions of an rvalue value follow the same rules as those of a const value.',
   ['inputs', 'histories'], 'every value, every accessor', 'Tests read the kind that is there; the implicit conversion of empty values is a rule about every accessor.',
   [V, 'common/value.hpp'], [('value::as_boolean ... as_object', V), ('value::empty', V), ('conversion operators', 'common/value.hpp')]),
 P('C22', 'Floating point numbers keep their value',
   'Every finite float, double or long double (subnormal ones and -0.0 included) stored in a json::value is a JSON number, and is read back as the same number, directly or through text: bit for bit with MEOJSON_KEEP_FLOATING_PRECISION, otherwise to the digits std::to_string gives (or better). Any number text read as a floating point type (as_float, as_double, as_long_double, the conversion operators, as, find, get) gives the number strtof, strtod or strtold gives for it, and is<T> and all<T> tell whether it can be read: it can unless its magnitude overflows the type or vanishes in it; otherwise, and for values of another kind, reading throws json::exception, find gives nothing and get the default.',
   ['inputs', 'configurations'], 'every finite floating point number, every number text', 'There are 2^64 doubles; tests convert a few.', [V, 'common/value.hpp', 'common/utils.hpp'], [('value(float), value(double), value(long double)', V), ('parse_floating, can_parse_floating', V), ('to_basic_string', 'common/utils.hpp')]),
 P('C23', 'Iteration visits everything once and in order',
   'Walking through an array (range-for, begin/end, cbegin/cend, const and not, and by index below size()) visits every element exactly once in order of position, rbegin/rend and crbegin/crend in the opposite order; walking through an object visits every member exactly once in bytewise order of the keys. Walking changes nothing; through the non-const iterators the visited elements, and only those, can be changed. array{...} holds the listed values in order; object{{k, v}, ...} and value{{k, v}, ...} hold the listed members, of those with the same key the first.',
   ['inputs', 'configurations'], 'every array, object and list of values', 'Tests walk through a few small documents forwards.', [A, O, 'common/array.hpp', 'common/object.hpp'], [('array::begin ... crend, operator[]', A), ('object::begin ... cend', O), ('array(initializer_list), object(initializer_list)', A)]),
 P('C24', "A class's own conversions are used as they are",
   'For a class T with members to_json/check_json/from_json, or with a specialisation of ext::jsonization<T> (to_json, check_json, from_json, optionally move_to_json and move_from_json): value(x) (array(x), object(x) when to_json gives one) is exactly what to_json gives for x, or move_to_json for an rvalue when there is one, and x is unchanged when it is an lvalue; v.is<T>() is what check_json says of v; as<T>() and the conversion operators of value, array and object give the object that from_json (move_from_json on rvalues when there is one) leaves in a new T, throw json::exception exactly when it returns false, pass an exception of its own through, and never change a const operand. Containers, optional and smart pointers, tuples, variants and MEO_JSONIZATION structs of T, find<T>() and get(..., T) are made of exactly these.',
   ['inputs', 'configurations'], 'every class with such conversions (they are arbitrary functions), every object, every value', 'Tests use one such class whose from_json always succeeds; a refusal, an exception, a moved-from value or a call of the wrong one of the functions is not sampled.',
   [V, A, O, 'common/value.hpp', 'common/array.hpp', 'common/object.hpp', 'common/utils.hpp'], [('value(const jsonization_t&), operator jsonization_t', 'common/value.hpp'), ('array(const jsonization_t&), operator jsonization_t', 'common/array.hpp'), ('object(const jsonization_t&), operator jsonization_t', 'common/object.hpp'), ('value::as, value::is', V), ('has_to_json_in_member ...', 'common/utils.hpp')]),
]
