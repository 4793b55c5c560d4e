"""Contracts of the parser (parser_impl.hpp) against the grammar in spec/grammar.rs."""
from sym import *
from engine import Contract, LoopSpec, Unsupported

P = 'json::parser::'

def is_jc(f):
    a = f['cls']['a'][0]
    return a['v'] in (1, True, '1', 'true')

def setup(eng, st, ctx, f, verifying):
    ctx['ghost']['jc'] = 'true' if is_jc(f) else 'false'
    if verifying:
        s = eng.sym('text', 'Seq<u8>')
        st.assume('%s.len() <= 0x7fff_ffff_ffff_ffff' % s)
        rec = eng.recs_by_name['json::parser'][0][1]
        names = [x['n'] for x in rec['fields']]
        if len(names) != 2: raise Unsupported('unexpected layout of json::parser')
        st.store[ctx['this'].root] = R('json::parser', {
            names[0]: It('str', s, eng.sym('cur', 'int'), ('text', s)),
            names[1]: It('str', s, '(%s.len() as int)' % s, ('text', s))})
    else:
        v = eng.read(st, ctx['this'])
        a, b = list(v.f.values())[:2]
        if not isinstance(a, It) or not isinstance(b, It): raise Unsupported('parser over something that is not text')
        if a.snap != b.snap: eng.emit(st, 'both positions of the parser belong to the same text', False)
        s = a.snap
    ctx['ghost']['s'] = s

POS = ['0 <= {this.0} && {this.0} <= {s}.len()', '{this.1} == {s}.len()']
BACK = '{old.this.0} <= {this.0} && {this.0} <= {s}.len()'

def pc(name, **kw):
    kw.setdefault('setup', setup)
    req = POS + kw.pop('requires', [])
    kw.setdefault('modifies', ['this.0'])
    return Contract(P + name, requires=req, **kw)

VALUE_END = ('match %s { None => {ret.ty} == 0, Some(p) => ({ret} == p.0 && {this.0} == p.1) || (p.1 == {s}.len() && {ret.ty} == 0) }')
EXACT = ('match %s { None => {ret.ty} == 0, Some(p) => {ret} == p.0 && {this.0} == p.1 }')
SPV = 'sp_value({s}, {old.this.0}, {jc})'
IN = '{this.0} < {s}.len()'

def lits(name, bytes_):
    return 'seq![%s]' % ', '.join('%du8' % b for b in bytes_)

contracts = [
    pc('skip_digit', ret='dig_at({s}, {old.this.0}) && sp_digits({s}, {old.this.0}) < {s}.len()',
       defs={'this.0': 'sp_digits({s}, {old.this.0})'},
       loops=[LoopSpec(['{old.this.0} <= {this.0} && {this.0} <= {s}.len()', 'sp_digits({s}, {this.0}) == sp_digits({s}, {old.this.0})'], '{s}.len() - {this.0}')]),
    pc('skip_comment', ret='sp_comment({s}, {old.this.0}) is Some',
       ensures=[BACK, 'sp_comment({s}, {old.this.0}) is Some ==> {this.0} == sp_comment({s}, {old.this.0})->Some_0'],
       loops=[LoopSpec(['{old.this.0} + 2 <= {this.0} && {this.0} <= {s}.len()', '({t|int} == 1 && {s}[{old.this.0} + 1] == 47) || ({t|int} == 2 && {s}[{old.this.0} + 1] == 42)', '{s}[{old.this.0}] == 47',
                        '{t|int} == 1 ==> sp_line({s}, {this.0}) == sp_line({s}, {old.this.0} + 2)',
                        '{t|int} == 2 ==> sp_block({s}, {this.0}) == sp_block({s}, {old.this.0} + 2)'], '{s}.len() - {this.0}')]),
    pc('skip_whitespace', ret='sig({s}, sp_ws({s}, {old.this.0}, {jc}))', defs={'this.0': 'sp_ws({s}, {old.this.0}, {jc})'},
       loops=[LoopSpec(['{old.this.0} <= {this.0} && {this.0} <= {s}.len()', 'sp_ws({s}, {this.0}, {jc}) == sp_ws({s}, {old.this.0}, {jc})'], '{s}.len() - {this.0}')]),
    pc('parse_null', requires=[IN], ensures=[BACK, '{s}[{old.this.0}] == 110 ==> ' + EXACT % SPV]),
    pc('parse_boolean', requires=[IN], ensures=[BACK, '({s}[{old.this.0}] == 116 || {s}[{old.this.0}] == 102) ==> ' + EXACT % SPV]),
    pc('parse_number', requires=[IN], ensures=[BACK, '(dig_at({s}, {old.this.0}) || {s}[{old.this.0}] == 45) ==> ' + VALUE_END % SPV]),
    pc('parse_string', requires=[IN], ensures=[BACK, '{s}[{old.this.0}] == 34 ==> ' + EXACT % SPV]),
    pc('parse_value', requires=[IN], ensures=[BACK, VALUE_END % SPV], measure='({s}.len() - {this.0}, 1)'),
    pc('parse_array', requires=[IN], ensures=[BACK, EXACT % 'sp_array({s}, {old.this.0}, {jc})'], measure='({s}.len() - {this.0}, 0)',
       loops=[LoopSpec(['{old.this.0} < {this.0} && {this.0} <= {s}.len()', 'sp_elems({s}, {this.0}, {result|Seq<Value>}, {jc}) == sp_array({s}, {old.this.0}, {jc})'], '{s}.len() - {this.0}')]),
    pc('parse_object', requires=[IN], ensures=[BACK, EXACT % 'sp_object({s}, {old.this.0}, {jc})'], measure='({s}.len() - {this.0}, 0)',
       loops=[LoopSpec(['{old.this.0} < {this.0} && {this.0} <= {s}.len()', 'sp_members({s}, {this.0}, {result|Map<Seq<u8>, Value>}, {jc}) == sp_object({s}, {old.this.0}, {jc})'], '{s}.len() - {this.0}')]),
    pc('parse_stdstring', requires=[IN], ensures=[BACK, 'match sp_string({s}, {old.this.0}) { None => !({ret.has}), Some(p) => {ret.has} && {ret.val} == p.0 && {this.0} == p.1 }'],
       loops=[LoopSpec(['{old.this.0} < {no_escape_beg|iter} && {no_escape_beg|iter} <= {this.0} && {this.0} <= {s}.len()',
                        '{pair_high|int} == 0 || (hi_sur({pair_high|int}) && {no_escape_beg|iter} == {this.0})',
                        'sp_str({s}, {this.0}, {result|Seq<u8>} + {s}.subrange({no_escape_beg|iter}, {this.0}), {pair_high|int}) == sp_string({s}, {old.this.0})'],
                       '{s}.len() - {this.0}')]),
    pc('skip_unicode_escape', split=True, requires=[IN, '{0} == 0 || hi_sur({0})'], modifies=['this.0', '0', '1'],
       ensures=[BACK, '{ret} == uesc_ok({s}, {old.this.0} + 1, {old.0})',
                '{ret} ==> {this.0} == {old.this.0} + 4', '{ret} ==> {0} == uesc_hi({s}, {old.this.0} + 1)', '{ret} ==> {1} =~= {old.1} + uesc_out({s}, {old.this.0} + 1, {old.0})'],
       loops=[LoopSpec(['0 <= {i} && {i} <= 4', '{this.0} == {old.this.0} + {i} && {this.0} < {s}.len()', '0 <= {cp~code~codepoint~unit}', 'hexn({s}, {old.this.0} + 1, {i}) == Some({cp~code~codepoint~unit})'],
                       '4 - {i}', force=True)]),
    pc('skip_string_literal_with_accel', ret='{this.0} < {s}.len()', ensures=[BACK, 'plain({s}, {old.this.0}, {this.0})'],
       loops=[LoopSpec(['{old.this.0} <= {this.0} && {this.0} <= {s}.len()', 'plain({s}, {old.this.0}, {this.0})'], '{s}.len() - {this.0}')]),
    pc('parse', when=lambda f: len(f['pt']) == 0, requires=['{this.0} == 0'], ensures=['{ret} =~~= sp_doc({s}, {jc})']),
    Contract(P + 'parse', name='parser::parse(text)', when=lambda f: len(f['pt']) == 1, setup=lambda e, st, ctx, f, v: ctx['ghost'].__setitem__('jc', 'true' if is_jc(f) else 'false'),
             ensures=['{ret} =~~= sp_doc({0}, {jc})']),
]
