"""Contracts of construction, copy and comparison of json::value / array / object."""
from sym import *
from engine import Contract, LoopSpec, Unsupported, strip

SEQ = ('std::vector', 'std::list', 'std::deque')
MAP = ('std::map', 'std::unordered_map')

def p0(f): return strip(f['pt'][0]) if f.get('pt') else {}
def is_ctor(f): return f.get('kind', 'ctor') == 'ctor' and f['q'].split('::')[-1] == f['q'].split('::')[-2]
def value_seq(f): return is_ctor(f) and len(f['pt']) == 1 and p0(f).get('n') in SEQ and p0(f)['a'][0].get('n') == 'json::value'
def value_map(f): return is_ctor(f) and len(f['pt']) == 1 and p0(f).get('n') in MAP and p0(f)['a'][1].get('n') == 'json::value'

RVAL = lambda f: f['pt'][0]['k'] == 'rref'

def seq_ctor(rv):
    return Contract('json::array::array', name='array::array(vector of value%s)' % (' &&' if rv else ''), when=lambda f: value_seq(f) and RVAL(f) == rv,
        modifies=['0'] if rv else [], ret='(Arr { d: {old.0} })',
        loops=[LoopSpec(['0 <= {__begin~i|iter} && {__begin~i|iter} <= {old.0}.len()', '{0}.len() == {old.0}.len()',
                         'forall|k: int| {__begin~i|iter} <= k < {old.0}.len() ==> {0}[k] == {old.0}[k]',
                         '{this.d} =~= {old.0}.subrange(0, {__begin~i|iter})'], '{old.0}.len() - {__begin~i|iter}')])
def map_ctor(rv):
    return Contract('json::object::object', name='object::object(map to value%s)' % (' &&' if rv else ''), when=lambda f: value_map(f) and RVAL(f) == rv,
        modifies=['0'] if rv else [], ret='(Obj { d: {old.0} })',
        loops=[LoopSpec(['0 <= {__begin~it|iter} && {__begin~it|iter} <= ks({old.0}).len()', '{0}.dom() =~= {old.0}.dom()',
                         'forall|k: int| {__begin~it|iter} <= k < ks({old.0}).len() ==> {0}[#[trigger] ks({old.0})[k]] == {old.0}[ks({old.0})[k]]',
                         '{this.d} =~= mpre({old.0}, {__begin~it|iter})'], 'ks({old.0}).len() - {__begin~it|iter}')])

contracts = [seq_ctor(True), seq_ctor(False), map_ctor(True), map_ctor(False)]

for c in (contracts[1], contracts[3]): c.optional = True
