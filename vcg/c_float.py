"""Contracts of the floating point conversions (C22). The decimal conversions themselves are assumed contracts on the C and C++ library (spec/floats.rs);
what is proved is that the library is called so that those contracts give the number back, and that nothing else changes, is accepted or is refused."""
import itertools
from c_value import C, V, A, O_, WV, WA, WO, LoopSpec, one, pn, pos, key, rthis, strip, tname, getsig, contracts as base_contracts
FLT = {'float': 1, 'double': 2, 'long double': 3}
NAMES = {'float': 'as_float', 'double': 'as_double', 'long double': 'as_long_double'}
def flt(t): return strip(t).get('n') if strip(t)['k'] == 'float' else None
def ta(t): return lambda f: bool(f.get('ta')) and flt(f['ta'][0]) == t and len(f['pt']) == 0
def IS(k, x): return 'is_fl(%d, %s)' % (k, x)
def AS(k, x): return 'st_val(%d, txt(%s))' % (k, x)
def ALLS(k, d, n): return 'fl_seq(%d, %s, %s as int)' % (k, d, n)
def ALLM(k, m): return 'fl_map(%d, %s)' % (k, m)
def make(exact):
    out = []
    def add(c): c.optional = True; c.flt = True; out.append(c)
    for t, k in FLT.items():
        add(C(V + 'value', name='value(%s)' % t, when=lambda f, t=t: one(f) and f.get('kind') == 'ctor' and flt(f['pt'][0]) == t,
              ensures=['{ret} == mk_num(txt({ret}))', 'stands(%s, %d, {ret}, {0})' % ('true' if exact else 'false', k)]))
        for n in (NAMES[t], 'operator ' + t):
            add(C(V + n, requires=[WV], throws='!' + IS(k, '{this}'), ret=AS(k, '{this}')))
        add(C(V + 'is', name='value::is<%s>' % t, when=ta(t), requires=[WV], ret=IS(k, '{this}')))
        for r in (False, True):
            add(C(V + 'as', name='value::as<%s>%s' % (t, ' &&' if r else ''), when=lambda f, t=t, r=r: ta(t)(f) and rthis(f) == r, requires=[WV], throws='!' + IS(k, '{this}'), ret=AS(k, '{this}')))
        add(C(V + 'all', name='value::all<%s>' % t, when=ta(t), requires=[WV], ret='({this}.ty == 5 && %s) || ({this}.ty == 6 && %s)' % (ALLS(k, 'arr_of({this})', 'arr_of({this}).len()'), ALLM(k, 'obj_of({this})'))))
        add(C(A + 'all', name='array::all<%s>' % t, when=ta(t), requires=[WA], ret=ALLS(k, '{this.d}', '{this.d}.len()'),
              loops=[LoopSpec(['0 <= {__begin~i|iter} && {__begin~i|iter} <= {this.d}.len()', ALLS(k, '{this.d}', '{__begin~i|iter}')], '{this.d}.len() - {__begin~i|iter}')]))
        add(C(O_ + 'all', name='object::all<%s>' % t, when=ta(t), requires=[WO], ret=ALLM(k, '{this.d}'),
              loops=[LoopSpec(['0 <= {__begin~i|iter} && {__begin~i|iter} <= ks({this.d}).len()', 'forall|j_: int| 0 <= j_ < {__begin~i|iter} ==> {this.d}.dom().contains(#[trigger] ks({this.d})[j_]) && is_fl(%d, {this.d}[ks({this.d})[j_]])' % k], 'ks({this.d}).len() - {__begin~i|iter}')]))
        for cls, w, at, isk in (('value', WV, 'at_pos({this}, {0})', 0), ('value', WV, 'at_key({this}, {0})', 1), ('array', WA, 'seq_at({this.d}, {0})', 0), ('object', WO, 'map_at({this.d}, {0})', 1)):
            x = at + '->Some_0'
            add(C('json::%s::find' % cls, name='%s::find<%s>(%s)' % (cls, t, 'key' if isk else 'pos'), when=lambda f, t=t, isk=isk: one(f) and bool(f.get('ta')) and flt(f['ta'][0]) == t and key(f) == bool(isk), requires=[w],
                  ensures=['{ret.has} == (%s is Some && %s)' % (at, IS(k, x)), '{ret.has} ==> {ret.val} == %s' % AS(k, x)]))
        for n in (1, 2):
            for ks_ in itertools.product('IK', repeat=n):
                ks_ = ''.join(ks_)
                for cls, w, me in (('value', WV, 'Some({this})'), ('array', WA, 'Some(mk_arr({this.d}))'), ('object', WO, 'Some(mk_obj({this.d}))')):
                    if cls == 'array' and ks_[0] == 'K' or cls == 'object' and ks_[0] == 'I': continue
                    at = me
                    for i, kk in enumerate(ks_): at = 'at_step2(%s, Step::%s({%d}))' % (at, kk, i)
                    x = at + '->Some_0'
                    add(C('json::%s::get' % cls, name='%s::get(%s, %s)' % (cls, ','.join('key' if q == 'K' else 'pos' for q in ks_), t),
                          when=lambda f, ks_=ks_, t=t: len(f['pt']) >= 2 and flt(f['pt'][-1]) == t and (getsig(f) or ('',))[0] == ks_, requires=[w], ret='if %s is Some && %s { %s } else { {%d} }' % (at, IS(k, x), AS(k, x), n)))
    return out
exact = make(True) + base_contracts
plain = make(False) + base_contracts
def select(c, f): return getattr(c, 'flt', False)
