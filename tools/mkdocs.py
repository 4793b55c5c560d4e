#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the statements live here, the machinery in vcg/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(ROOT, 'vcg'))
import props
I = 'include/'
def P(id, title, statement, over, text, why, files, mech, state=None):
    a = {'files': [I + f for f in files], 'mechanism': [{'name': n, 'where': I + w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': I + w} for n, m, w in state]
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}
PI = 'parser/parser_impl.hpp'
PROPS = [
 P('C01', 'The strict parser accepts exactly the JSON texts',
   'json::parse returns a value if and only if the text is whitespace, one JSON array or object according to RFC 8259 (no leading zeroes, no trailing commas, no comments, no raw control characters in strings, no bad escapes), and whitespace up to the end, where a NUL byte outside of a string counts as the end of the text, and additionally no object in it repeats a member name. Every other text gives std::nullopt.',
   ['inputs'], 'every byte string, of any length and nesting (within the stack), through every input type', 'The tests parse a few dozen texts; acceptance is a statement about every byte at every position.',
   [PI, 'parser/parser.hpp'], [('parser::parse / parse_value / parse_array / parse_object', PI), ('parse_number, skip_digit', PI), ('skip_whitespace', PI)], [('_cur, _end', 'the part of the text not read yet', 'parser/parser.hpp')]),
 P('C02', 'An accepted document is read faithfully',
   'The value returned for an accepted text has the structure of the text: the same kinds at the same places, arrays with the same elements in order, objects with exactly the members of the text, each under its decoded name, true/false/null as written, and every number keeping the characters of its literal.',
   ['inputs'], 'every accepted text', 'The tests compare a handful of documents.', [PI, 'common/value_impl.hpp'],
   [('parse_value and its callees build the result', PI), ('array(raw_array&&), object(raw_object&&)', 'common/array_impl.hpp')]),
 P('C03', 'String literals decode exactly',
   'A string literal (value or member name) decodes to its bytes with the eight short escapes replaced, \\uXXXX replaced by the UTF-8 encoding of the code point (hex digits of either case), and a high surrogate escape directly followed by a low one replaced by the UTF-8 encoding of the pair. A literal with an unpaired or misordered surrogate escape, an unknown or incomplete escape, or a raw control character below 0x20 is rejected.',
   ['inputs'], 'every string literal: all bytes, all escapes, all 65536 code units and their sequences, at any offset to the packed scan', 'Tests cover a few escapes; there are 2^20 surrogate pairs, and the packed scan has its own path.',
   [PI], [('parse_stdstring', PI), ('skip_unicode_escape', PI), ('skip_string_literal_with_accel', PI)]),
 P('C04', 'JSONC adds comments and trailing commas and nothing else',
   'json::parsec accepts exactly the texts that are JSON once // and /* */ comments count as whitespace and one comma is allowed behind the last element of a non-empty array or object, and reads them to the same value as the text without them. In particular every strict text is accepted with the same value, an unterminated block comment or a lone slash is rejected, and a line comment ends at the newline or at the end of the text.',
   ['inputs'], 'every byte string', 'Comment syntax interacts with every position of the grammar; the tests place comments at a few.', [PI], [('skip_comment, skip_whitespace', PI), ('if constexpr (accept_jsonc) in parse_array / parse_object', PI)]),
 P('C05', 'Parsing stays inside the text, terminates and never throws',
   'For every byte string, parsing reads only bytes of the text, performs no undefined arithmetic, terminates, and reports malformed input by std::nullopt and never by an exception.',
   ['inputs'], 'every byte string, truncated at any point, as std::string or std::string_view over memory that ends with the text', 'An overread or endless loop needs one specific truncation; tests run without a sanitizer on well-formed texts.',
   [PI, 'parser/packed_bytes_x86.hpp', 'parser/packed_bytes.hpp'], [('_cur != _end tests before every read', PI), ('step-size test before a packed load', PI)]),
 P('C06', 'Acceleration never changes a result',
   'The result of parsing does not depend on the packed-byte implementation the string scan is compiled with: no packing, 32-bit words, 64-bit words, SSE and AVX2 give the same acceptance and the same value for every text.',
   ['inputs', 'configurations'], 'every text, every packed-byte trait, every alignment and offset', 'Tests run one trait (the widest available) on short strings.',
   ['parser/packed_bytes.hpp', 'parser/packed_bytes_x86.hpp', 'parser/bitops.hpp', PI], [('less, equal, bitwise_or, is_all_zero, first_nonzero_byte', 'parser/packed_bytes_x86.hpp'), ('skip_string_literal_with_accel', PI)]),
]
MORE = os.path.join(ROOT, 'tools', 'props_more.py')
if os.path.exists(MORE): exec(open(MORE).read())

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in PROPS:
        q = props.PROPS.get(p['id'])
        if q is None: na.append({'property': p['id'], 'reason': props.NOT_APPLICABLE.get(p['id'], 'no check has been built for it yet')}); continue
        cmd = 'python3 check.py ' + p['id']
        checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --thorough', 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': q.technique, 'level': q.level,
                       'level_note': q.note})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'Thorough runs differ from quick ones by --thorough (more concrete cases; the proof is the same). No hooks are compiled into /repo.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
main()
