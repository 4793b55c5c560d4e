"""Contracts of the conversions of classes whose authors wrote them: members to_json / check_json / from_json, or a specialisation of ext::jsonization, with moving variants or without.

What the author's functions do is arbitrary: their contracts are uninterpreted functions of the object and the value (u_to, u_chk, u_fok, u_frm, u_thr; u_mv… for the moving variants).
They may change nothing but the object converted into (and the value moved from); check_json and to_json do not throw, from_json may."""
from sym import *
import c_typed
from c_typed import mg, define_user, define_struct, kseq, contracts_for, USERS, needs, ta0, rt0, arg0
from c_value import C, V, A, O_, WV, WA, WO, one, npt, tname, contracts as base_contracts
from engine import Contract
ALL = ['vd::' + c for c in 'PAONQMBC']
for t in ALL: define_user(t, [('n', 'int'), ('s', 'Seq<u8>')], '{ n: 7int, s: Seq::empty() }')
INI = lambda t: 'ini_%s()' % mg(t)
define_struct('vd::W', [('p', 'vd::P', 'p', False, INI('vd::P')), ('n', 'vd::N', 'n', True, INI('vd::N')), ('l', 'vector<vd::N>', 'list', False, 'Seq::empty()'),
                        ('m', 'map<vd::P>', 'm', True, 'Map::empty()'), ('o', 'optional<vd::P>', 'o', True, 'None')])
CONV = ['vector<vd::P>', 'vector<vd::N>', 'map<vd::P>', 'map<vd::N>', 'optional<vd::P>', 'optional<vd::N>', 'tuple<vd::P,vd::N>', 'pair<int,vd::N>', 'array<vd::P,2>', 'vector<optional<vd::N>>',
        'variant<int,vd::P,vd::N>', 'shared_ptr<vd::P>']
SPEC = ['int', 'long', 'unsigned long', 'bool', 'string', 'value', 'path', 'monostate'] + ALL + CONV + ['vd::W']
def gen(): return c_typed.gen(SPEC)

contracts = contracts_for(CONV)
def add(c): c.typed = True; c.optional = True; contracts.append(c)
SPECIAL = ('N', 'Q', 'M', 'B', 'C')
GIVES = {'A': 'arr', 'B': 'arr', 'O': 'obj', 'C': 'obj'}
for t in ALL:
    m = mg(t); last = t[4:]; q = t + '::'
    pre = {'arr': '(Arr { d: arr_of(%s) })', 'obj': '(Obj { d: obj_of(%s) })'}.get(GIVES.get(last), '%s')
    wfr = {'arr': ['wf_seq({ret.d})', '{ret.d} == arr_of(%s)', '%s == mk_arr({ret.d})'], 'obj': ['wf_map({ret.d})', '{ret.d} == obj_of(%s)', '%s == mk_obj({ret.d})']}.get(GIVES.get(last), ['wf({ret})', '{ret} == %s'])
    def tr(fn, x): return [e % x if '%s' in e else e for e in wfr]
    def trust(q, name, **k): c = Contract(q, name=name, trusted=True, **k); contracts.append(c)
    if last not in SPECIAL:
        trust(q + 'to_json', '%s::to_json' % last, ensures=tr('to', 'u_to_%s({this})' % m))
        trust(q + 'check_json', '%s::check_json' % last, requires=['wf({0})'], ensures=['{ret} == u_chk_%s({this}, {0})' % m])
        trust(q + 'from_json', '%s::from_json' % last, requires=['wf({0})'], modifies=['this'], throws='u_thr_%s({this}, {0})' % m, ensures=['{ret} == u_fok_%s({old.this}, {0})' % m, '{ret} ==> {this} == u_frm_%s({old.this}, {0})' % m])
    else:
        J = 'json::ext::jsonization::'
        is1 = lambda f, t=t: tname(f['pt'][0]) == t
        is2 = lambda f, t=t: len(f['pt']) == 2 and tname(f['pt'][1]) == t
        isc = lambda f, t=t: bool(f.get('cls', {}).get('a')) and tname(f['cls']['a'][0]) == t
        trust(J + 'to_json', 'jsonization<%s>::to_json' % last, when=is1, ensures=tr('to', 'u_to_%s({0})' % m))
        trust(J + 'move_to_json', 'jsonization<%s>::move_to_json' % last, when=is1, modifies=['0'], ensures=tr('mvto', 'u_mvto_%s({old.0})' % m))
        trust(J + 'check_json', 'jsonization<%s>::check_json' % last, when=isc, requires=['wf({0})'], ensures=['{ret} == u_chk_%s(%s, {0})' % (m, INI(t))])
        trust(J + 'from_json', 'jsonization<%s>::from_json' % last, when=is2, requires=['wf({0})'], modifies=['1'], throws='u_thr_%s({1}, {0})' % m, ensures=['{ret} == u_fok_%s({old.1}, {0})' % m, '{ret} ==> {1} == u_frm_%s({old.1}, {0})' % m])
        trust(J + 'move_from_json', 'jsonization<%s>::move_from_json' % last, when=is2, requires=['wf({0})'], modifies=['0', '1'], throws='u_mvthr_%s({1}, {0})' % m, ensures=['{ret} == u_mvok_%s({old.1}, {old.0})' % m, '{ret} ==> {1} == u_mvfrm_%s({old.1}, {old.0})' % m, 'wf_moved({0})'])
    for r in (False, True):
        mv = r and last in ('Q', 'M', 'B', 'C'); u = 'mvto' if mv else 'to'
        if last == 'M' and not r: continue
        amp = '&&' if r else ' const&'; mods = ['0'] if r else []; x = 'u_%s_%s({old.0})' % (u, m)
        add(C(V + 'value', name='value(%s%s)' % (t, amp), when=arg0(t, r), modifies=mods, ensures=['wf({ret})'], ret=x))
        if GIVES.get(last) == 'arr': add(C(A + 'array', name='array(%s%s)' % (t, amp), when=arg0(t, r), modifies=mods, ret='(Arr { d: arr_of(%s) })' % x))
        if GIVES.get(last) == 'obj': add(C(O_ + 'object', name='object(%s%s)' % (t, amp), when=arg0(t, r), modifies=mods, ret='(Obj { d: obj_of(%s) })' % x))
    add(C(V + 'is', name='value::is<%s>' % t, when=ta0(t), requires=[WV], ret='is_%s({this})' % m))
    for r in (False, True):
        mv = r and last in ('Q', 'M', 'B', 'C'); D = INI(t)
        if last == 'M' and not r: continue
        p = 'mv' if mv else ''; thr, ok, frm = ('u_mvthr_', 'u_mvok_', 'u_mvfrm_') if mv else ('u_thr_', 'u_fok_', 'u_frm_')
        for cls, w, me in (('value', WV, '{old.this}'), ('array', WA, 'mk_arr({old.this.d})'), ('object', WO, 'mk_obj({old.this.d})')):
            k = dict(requires=[w], modifies=['this'] if r else [], throws='%s%s(%s, %s) || !%s%s(%s, %s)' % (thr, m, D, me.replace('old.', ''), ok, m, D, me.replace('old.', '')), ret='%s%s(%s, %s)' % (frm, m, D, me))
            if cls == 'value': add(C(V + 'as', name='value::as<%s>%s' % (t, ' &&' if r else ''), when=ta0(t, r), **k))
            add(C('json::%s::operator %s' % (cls, last), name='%s::operator %s%s' % (cls, t, ' &&' if r else ''), when=rt0(t, r), **k))
import c_meo
contracts += c_typed.lookup_for([t for t in ALL if t != 'vd::M'] + ['optional<vd::P>', 'vector<vd::N>', 'vd::W'])
contracts += c_meo.struct_contracts(['vd::W'])
contracts += base_contracts
def select(c, f): return c_typed.select(c, f)
