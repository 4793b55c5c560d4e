"""Contracts of the entry points that hand a text to the parser (parse, parsec, open, literals) against spec/io.rs."""
from sym import *
from engine import Contract, LoopSpec, Unsupported, strip

def pn(f, i=0): return strip(f['pt'][i]).get('n') if len(f['pt']) > i else None
STRS = ('std::basic_string', 'std::basic_string_view')
TEXT = lambda f: len(f['pt']) == 1 and pn(f) in STRS
CSTR = lambda f: len(f['pt']) == 1 and f['pt'][0]['k'] == 'ptr'
STREAM = lambda f: len(f['pt']) == 3
S = '{old.0.d}'
contracts = []
for nm, jc in (('parse', 'false'), ('parsec', 'true')):
    contracts += [
        Contract('json::' + nm, name='%s(text)' % nm, when=TEXT, ensures=['{ret} =~~= sp_doc({0}, %s)' % jc]),
        Contract('json::' + nm, name='%s(const char*)' % nm, when=CSTR, ensures=['{ret} =~~= sp_doc({0.snap}, %s)' % jc])]
contracts += [
    Contract('json::parse', name='parse(istream)', when=STREAM, modifies=['0'],
             ensures=['{ret} =~~= sp_stream({old.0.d}, {old.0.n}, {old.0.sk}, {old.0.fail}, {1}, {2})'],
             loops=[LoopSpec(['{0.d} == {old.0.d} && {0.n} == {old.0.n} && {0.sk} == {old.0.sk}', '!{old.0.fail} && {0.sk} && 0 <= {0.n}',
                              '{0.p} == {str~text~content~buf|Seq<u8>}.len()', '{0.p} <= {0.n}', '{str~text~content~buf|Seq<u8>} =~= {0.d}.subrange(0, {0.p})', '0 <= {0.p} <= {0.d}.len()',
                              '{0.fail} ==> {0.p} == {0.d}.len()', '{0.eof} ==> {0.fail}'], 'if {0.fail} { 0 } else { {0.n} - {0.p} + 1 }')]),
    Contract('json::open', name='open', ensures=['{ret} =~~= sp_open(%s, {1}, {2})' % '{0}'], when=lambda f: f['pt'][0].get('to', {}).get('k') != 'ptr'),
    Contract('json::open', name='open(const char*)', ensures=['{ret} =~~= sp_open(%s, {1}, {2})' % '{0.snap}'], when=lambda f: f['pt'][0].get('to', {}).get('k') == 'ptr'),
]
L_ = 'json::literals::'
LIT = '{0.snap}.subrange(0, {1})'
def lit_setup(eng, st, ctx, f, verifying): pass
for n, e in (('_json', 'lit_value(%s)'), ('_jvalue', 'lit_value(%s)'), ('_jarray', '(Arr { d: lit_array(%s) })'), ('_jobject', '(Obj { d: lit_object(%s) })')):
    contracts.append(Contract(L_ + 'operator""' + n, name='literal ' + n, requires=['{1} == {0.snap}.len()'], ensures=['{ret} =~~= ' + e % LIT]))
info = Contract('json::value::value_info', requires=['wf_moved({this})'], opaque=True); info.external = True; contracts.append(info)
for c in contracts: c.io = True
