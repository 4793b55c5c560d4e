"""Contracts of what MEO_JSONIZATION generates (jsonization.hpp: dumper, checker, loader), and of the conversions that use it.

The structs are those of drivers/meo.cpp; their members, keys, markers and initial values are repeated below, and c_typed.py generates from them what
represents an object (mir), which values fit (is), the first key at fault (err) and what reading into an object gives (upd)."""
from sym import *
import c_typed
from c_typed import mg, define_struct, kseq, contracts_for, STRUCTS, needs, ta0, rt0, arg0
from c_value import C, V, O_, WV, WO, one, const, npt, contracts as base_contracts
from engine import Contract

define_struct('vd::S1', [('x', 'int', 'x', False, '5int'), ('s', 'string', 's', True, kseq('dflt'))])
define_struct('vd::S2', [('vec', 'vector<int>', 'vec', False, 'Seq::empty()'), ('inner', 'vd::S1', 'inner', True, 'St_vd_S1 { x: 5, s: %s }' % kseq('dflt')), ('m', 'map<int>', 'm', True, 'Map::empty()'),
                         ('name', 'string', 'the name', False, kseq('n')), ('big', 'unsigned long', 'big', False, '3int'), ('renamed', 'int', 'other', True, '-1int')])
define_struct('vd::S3', [('a', 'int', 'a', True, '0int'), ('b', 'bool', 'B', True, 'true'), ('o', 'optional<int>', 'o', True, 'Some(5int)')])
define_struct('vd::S4', [('any', 'value', 'any', False, 'mk_null()'), ('begin', 'bool', 'end', False, 'false'), ('end', 'long', 'begin', False, '0int'), ('both', 'tuple<int,string>', 'both', True, '(1int, %s)' % kseq('q'))])
define_struct('vd::S5', [('list', 'vector<vd::S1>', 'list', False, 'Seq::empty()'), ('by', 'map<vd::S3>', 'by', True, 'Map::empty()'), ('maybe', 'optional<vd::S1>', 'maybe', True, 'None')])
SPEC = ['int', 'long', 'unsigned long', 'bool', 'string', 'value', 'path', 'monostate', 'vector<int>', 'map<int>', 'optional<int>', 'tuple<int,string>', 'vd::S1', 'vd::S3', 'vector<vd::S1>', 'map<vd::S3>', 'optional<vd::S1>', 'vd::S2', 'vd::S4', 'vd::S5']
CONV = ['vector<int>', 'map<int>', 'optional<int>', 'tuple<int,string>', 'vector<vd::S1>', 'map<vd::S3>', 'optional<vd::S1>']
def gen(): return c_typed.gen(SPEC)

def struct_contracts(types):
    contracts = []
    def add(c): c.typed = True; contracts.append(c)
    for t in types:
        m = mg(t); q = t + '::'; last = t.split('::')[-1]
        wx = ['wx_%s({this})' % m] if needs(t) else []; wx0 = ['wx_%s({0})' % m] if needs(t) else []
        add(Contract(q + 'to_json', requires=wx, ensures=['wf({ret})'], ret='mir_%s({this})' % m))
        for n in (1, 2):
            err = ['!{ret} ==> {1} == err_%s({0})' % m, '{ret} ==> {1} == {old.1}'] if n == 2 else []
            add(Contract(q + 'check_json', name='%s::check_json/%d' % (last, n), when=npt(n), requires=['wf({0})'] + wx, modifies=['1'] if n == 2 else [], ensures=['{ret} == is_%s({0})' % m] + err))
            add(Contract(q + 'from_json', name='%s::from_json/%d' % (last, n), when=npt(n), requires=['wf({0})'] + wx, modifies=['this'] + (['1'] if n == 2 else []), throws='thr_%s({0})' % m,
                         ensures=['{ret} == is_%s({0})' % m, '{ret} ==> {this} == upd_%s({0}, {old.this})' % m] + err))
        add(C(V + 'value', name='value(%s)' % t, when=arg0(t, False), requires=wx0, ret='mir_%s({0})' % m))
        add(C(O_ + 'object', name='object(%s)' % t, when=arg0(t, False), requires=wx0, ret='(Obj { d: obj_of(mir_%s({0})) })' % m))
        add(C(V + 'is', name='value::is<%s>' % t, when=ta0(t), requires=[WV], ret='is_%s({this})' % m))
        for r in (False, True):
            add(C(V + 'as', name='value::as<%s>%s' % (t, ' &&' if r else ''), when=ta0(t, r), requires=[WV], throws='!can_%s({this})' % m, ret='rd_%s({this})' % m))
        add(C(V + 'operator ' + last, name='value::operator %s' % t, when=rt0(t, False), requires=[WV], throws='!can_%s({this})' % m, ret='rd_%s({this})' % m))
        add(C(O_ + 'operator ' + last, name='object::operator %s' % t, when=rt0(t, False), requires=[WO], throws='!can_%s(mk_obj({this.d}))' % m, ret='rd_%s(mk_obj({this.d}))' % m))
    return contracts
contracts = contracts_for(CONV) + struct_contracts(['vd::S%d' % i for i in range(1, 6)])
contracts += c_typed.lookup_for(['vd::S%d' % i for i in range(1, 6)] + ['vector<vd::S1>', 'optional<vd::S1>'])
contracts += base_contracts
def select(c, f): return c_typed.select(c, f)
