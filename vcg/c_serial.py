"""Contracts of escaping and serialisation (utils.hpp, value/array/object dump_to, format_to, to_string, format, dumps)."""
from sym import *
from engine import Contract, LoopSpec, Unsupported, strip

G = 'serial'
def C(q, **kw):
    c = Contract(q, **kw); c.grp = G; return c

LAY = {'value': 'lay({this}, %s, %s, %s)', 'array': 'lay_arr({this}, %s, %s, %s)', 'object': 'lay_obj({this}, %s, %s, %s)'}
WF = {'value': 'wf({this})', 'array': 'wf_seq({this.d})', 'object': 'wf_map({this.d})'}
BAD = {'value': '!dumpable({this})', 'array': '!dumpable_pre({this.d}, {this.d}.len() as int)', 'object': '!dumpable_map({this.d})'}
H = {'value': 'height({this})', 'array': 'height_arr({this})', 'object': 'height_obj({this})'}

def loops(cls, p):
    """the loop over the elements / members; after i rounds the first i are written"""
    pa = ('true', '{indent~0}', '{indent_times~1}') if p else ('false', '0', '0')
    pa = ('true', '{1}', '{2}') if p else ('false', '0', '0')
    if cls == 'array':
        inv = ['0 <= {iter|iter} && {iter|iter} <= {this.d}.len()', 'dumpable_pre({this.d}, {iter|iter})',
               '{0} =~= {old.0} + seq![91u8] + lay_elems({this.d}, {iter|iter}, %s, %s, %s)%s' % (*pa, ' + seq![10u8]' if p else '')]
        return [LoopSpec(inv, '{this.d}.len() - {iter|iter}')]
    inv = ['0 <= {iter|iter} && {iter|iter} <= ks({this.d}).len()', 'dumpable_mpre({this.d}, {iter|iter})',
           '{0} =~= {old.0} + seq![123u8] + lay_membs({this.d}, {iter|iter}, %s, %s, %s)%s' % (*pa, ' + seq![10u8]' if p else '')]
    return [LoopSpec(inv, 'ks({this.d}).len() - {iter|iter}')]

contracts = [
    C('json::_utils::append_escaped_string', modifies=['0'], ensures=['{0} =~= {old.0} + esc_all({1})'],
      loops=[LoopSpec(['0 <= {no_escape_beg|iter} && {no_escape_beg|iter} <= {cur~it~iter} && {cur~it~iter} <= {1}.len()', '{escape|int} == 0',
                       '{0} =~= {old.0} + esc_pre({1}, {no_escape_beg|iter})', 'plain_esc({1}, {no_escape_beg|iter}, {cur~it~iter})'], '{1}.len() - {cur~it~iter}')]),
    C('json::_utils::escape_string', ret='esc_all({0})'),
    C('json::_utils::unescape_string', ret='esc_all({0})'),
    C('json::value::type_name', measure='(0, 0)'),
    C('json::value::value_info', requires=['wf_moved({this})'], measure='(if 1 <= {this.ty} && {this.ty} <= 4 { height({this}) } else { 0 }, 5)'),
]
n = lambda f, m: len(f['pt']) == m
for k, cls in enumerate(('value', 'array', 'object')):
    q = 'json::%s::' % cls
    lv = 1 if cls == 'value' else 0
    contracts += [
        C(q + 'dump_to', requires=[WF[cls]], modifies=['0'], throws=BAD[cls], ensures=['{0} =~= {old.0} + ' + LAY[cls] % ('false', '0', '0')], measure='(%s, 1)' % H[cls],
          loops=[] if cls == 'value' else loops(cls, False)),
        C(q + 'format_to', requires=[WF[cls]], modifies=['0'], throws=BAD[cls], ensures=['{0} =~= {old.0} + ' + LAY[cls] % ('true', '{1}', '{2}')], measure='(%s, 2)' % H[cls],
          loops=[] if cls == 'value' else loops(cls, True)),
        C(q + 'to_string', requires=[WF[cls]], throws=BAD[cls], ret=LAY[cls] % ('false', '0', '0'), measure='(%s, 2)' % H[cls]),
        C(q + 'format', name='%s::format(indent, times)' % cls, when=lambda f: len(f['pt']) == 2, requires=[WF[cls]], throws=BAD[cls], ret=LAY[cls] % ('true', '{0}', '{1}'), measure='(%s, 3)' % H[cls]),
        C(q + 'format', name='%s::format(indent)' % cls, when=lambda f: len(f['pt']) == 1, requires=[WF[cls]], throws=BAD[cls], ret=LAY[cls] % ('true', '{0}', '0'), measure='(%s, 4)' % H[cls]),
        C(q + 'dumps', requires=[WF[cls]], throws=BAD[cls], ret='if {0.has} { %s } else { %s }' % (LAY[cls] % ('true', '{0.val}', '0'), LAY[cls] % ('false', '0', '0')), measure='(%s, 5)' % H[cls]),
    ]
    arg = lambda x: x.replace('{this', '{1')
    contracts.append(C('json::operator<<', name='operator<<(%s)' % cls, when=lambda f, cls=cls: n(f, 2) and strip(f['pt'][1]).get('n') == 'json::' + cls, requires=[arg(WF[cls])], modifies=['0'],
        throws=arg(BAD[cls]), ensures=['{0.buf} =~= {old.0.buf} + ' + arg(LAY[cls] % ('true', '4', '0')), '{0.prec} == {old.0.prec}'], throws_ens=['{0.buf} == {old.0.buf}'], measure='(%s, 5)' % arg(H[cls])))
