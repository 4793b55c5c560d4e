"""Contracts of json::value, json::array and json::object as users see them (value_impl.hpp, array_impl.hpp, object_impl.hpp) against spec/core.rs."""
from sym import *
from engine import Contract, LoopSpec, Unsupported, strip, int_range, ity, is_str, read_raw

GRP = 'core'
V, A, O_ = 'json::value::', 'json::array::', 'json::object::'
WV, WA, WO = 'wf({this})', 'wf_seq({this.d})', 'wf_map({this.d})'
RAW_A = [('f', 'raw'), ('alt', 1), ('o',)]
RAW_O = [('f', 'raw'), ('alt', 2), ('o',)]
D = [('f', 'd')]

def C(q, **kw):
    c = Contract(q, **kw); c.grp = GRP; return c

# ---------------------------------------------------------------- returned references and pointers
class Ref:
    """the function returns a reference to the part of *this that path names ({..} roles allowed in indices)"""
    def __init__(s, path, base='this'): s.path = path; s.base = base
    def steps(s, eng, st, ctx, old):
        return [tuple(eng.subst(x, st, ctx, old) if isinstance(x, str) and '{' in x else x for x in p) for p in s.path]
    def __call__(s, eng, st, ctx, old, e):
        lv = ctx['this'] if s.base == 'this' else ctx['arglist'][int(s.base)]
        return eng.derive(st, lv, *s.steps(eng, st, ctx, old))
    def check(s, eng, st, ctx, entry, ret, hs):
        lv = ctx['this'] if s.base == 'this' else ctx['arglist'][int(s.base)]
        s.same(eng, st, ctx, entry, ret, lv, True, hs, 'the returned reference')
    def same(s, eng, st, ctx, entry, ret, lv, cond, hs, what):
        if not isinstance(ret, LV): eng.emit(st, what + ' denotes the element itself', False); return
        want = list(lv.path) + s.steps(eng, st, ctx, entry)
        if ret.root != lv.root or len(ret.path) != len(want) or any(a[0] != b[0] for a, b in zip(ret.path, want)):
            if ret.root != lv.root:
                # the object behind a pointer lives on where that pointer was moved to: not followed
                for i, p in enumerate(ret.path):
                    if p[0] == 'o' and getattr(read_raw(eng, st, LV(ret.root, tuple(ret.path[:i]))), 'moved', False):
                        raise Unsupported('a reference to an object whose pointer was moved')
            eng.emit(st, what + ' denotes the element itself', False); return
        eng.alive(st, ret)
        for a, b in zip(ret.path, want):
            if a[1:] == b[1:]: continue
            if a[0] in ('k', 'i'): eng.emit(st, what + ' denotes the right element', imp(cond, '%s == %s' % (lit(a[1]), lit(b[1]))), hs)
            else: eng.emit(st, what + ' denotes the element itself', imp(cond, False), hs)

class Ptr(Ref):
    """a pointer to that part, or null when null holds"""
    def __init__(s, null, path, base='this'): s.null = null; s.path = path; s.base = base
    def __call__(s, eng, st, ctx, old, e):
        n = eng.subst(s.null, st, ctx, old)
        b = eng.sym('null', 'bool'); st.assume('%s == (%s)' % (b, n))
        return P(b, Ref.__call__(s, eng, st, ctx, old, e))
    def check(s, eng, st, ctx, entry, ret, hs):
        if isinstance(ret, It) and ret.kind == 'vec' and ret.lv is not None and not ret.rev:   # data() + i
            eng.it_valid(st, ret)
            n = '(%s.len() as int)' % eng.read(st, ret.lv).e
            eng.emit(st, 'the returned pointer points at an element', and_(le(0, ret.idx), lt(ret.idx, n)), hs)
            ret = P(False, eng.derive(st, ret.lv, ('i', ret.idx)))
        if not isinstance(ret, P): eng.emit(st, 'the returned pointer is null exactly when the element is missing', False); return
        eng.emit(st, 'the returned pointer is null exactly when the element is missing', '(%s) == (%s)' % (lit(ret.null), eng.subst(s.null, st, ctx, entry)), hs)
        if ret.null is not True: s.same(eng, st, ctx, entry, ret.lv, ctx['this'], not_(ret.null), hs, 'the returned pointer')

class Whole(Ref):
    """returns *this"""
    def __init__(s): s.path = []; s.base = 'this'

# ---------------------------------------------------------------- which overload
def npt(n): return lambda f: len(f['pt']) == n
def rv(f, i=0): return f['pt'][i]['k'] == 'rref'
def pn(f, i=0): return strip(f['pt'][i]).get('n') if i < len(f['pt']) else None
def pk(f, i=0): return strip(f['pt'][i])['k'] if i < len(f['pt']) else None
def const(f): return bool(f.get('mconst'))
def rthis(f): return bool(f.get('mrval'))
def key(f): return len(f['pt']) == 1 and is_str(f['pt'][0])
def pos(f): return len(f['pt']) == 1 and pk(f) == 'int'

# ---------------------------------------------------------------- integers
def int_setup(eng, st, ctx, f, verifying, t=None):
    t = t or f['rt']
    k, bits, sg = ity(t)
    lo, hi = int_range((k, bits, sg))
    ctx['ghost'].update(lo='(%d)' % lo, hi='%d' % hi, sg='true' if sg else 'false')
def int_setup1(eng, st, ctx, f, v): int_setup(eng, st, ctx, f, v, strip(f['pt'][1]))
EX = 'exact(%s, {sg}, {lo}, {hi})'
NUM = EX % 'txt({this})'
def integral(f): return strip(f['rt'])['k'] == 'int'

ints = [
    C('json::_value_impl_detail::try_parse_integer', setup=int_setup1, modifies=['1'],
      ensures=['{ret} == (%s is Some)' % (EX % '{0}'), '{ret} ==> {1} == %s->Some_0' % (EX % '{0}')]),
    C('json::_value_impl_detail::parse_integer', setup=int_setup, throws='%s is None' % (EX % '{0}'), ret='%s->Some_0' % (EX % '{0}')),
]
for n in ('as_integer', 'as_unsigned', 'as_long', 'as_unsigned_long', 'as_long_long', 'as_unsigned_long_long',
          'operator int', 'operator unsigned int', 'operator long', 'operator unsigned long', 'operator long long', 'operator unsigned long long'):
    ints.append(C(V + n, setup=int_setup, requires=[WV], throws='{this.ty} != 4 || %s is None' % NUM, ret=NUM + '->Some_0'))
INTP = lambda f: len(f['pt']) == 1 and f['pt'][0]['k'] == 'int' and f['kind'] == 'ctor'

BOOLBAD = '{this.ty} != 2 || (txt({this}) != true_txt() && txt({this}) != false_txt())'
def one(f): return len(f['pt']) == 1
def ct(f): return f.get('kind', 'ctor') == 'ctor'

ctors = [
    C(V + 'value', name='value()', when=lambda f: len(f['pt']) == 0, ret='mk_null()'),
    C(V + 'value', name='value(const value&)', when=lambda f: one(f) and pn(f) == 'json::value' and not rv(f), requires=['wf({0})'], ret='{old.0}', measure='(height({0}), 3)'),
    C(V + 'value', name='value(value&&)', when=lambda f: one(f) and pn(f) == 'json::value' and rv(f), modifies=['0'], ret='{old.0}'),
    C(V + 'value', name='value(bool)', when=lambda f: one(f) and f['pt'][0]['k'] == 'bool', ret='mk_bool({0})'),
    C(V + 'value', name='value(integer)', when=lambda f: one(f) and f['pt'][0]['k'] == 'int', ret='mk_num(dec({0}))'),
    C(V + 'value', name='value(const char*)', when=lambda f: one(f) and f['pt'][0]['k'] == 'ptr', ret='mk_str({0.snap})'),
    C(V + 'value', name='value(std::string)', when=lambda f: one(f) and f['pt'][0]['k'] == 'rec' and is_str(f['pt'][0]), ret='mk_str({old.0})'),
    C(V + 'value', name='value(nullptr)', when=lambda f: one(f) and (f['pt'][0]['k'] == 'nullptr' or pn(f) == 'std::monostate'), ret='mk_null()'),
    C(V + 'value', name='value(const array&)', when=lambda f: one(f) and pn(f) == 'json::array' and not rv(f), requires=['wf_seq({0.d})'], ret='mk_arr({old.0.d})'),
    C(V + 'value', name='value(array&&)', when=lambda f: one(f) and pn(f) == 'json::array' and rv(f), modifies=['0'], ret='mk_arr({old.0.d})'),
    C(V + 'value', name='value(const object&)', when=lambda f: one(f) and pn(f) == 'json::object' and not rv(f), requires=['wf_map({0.d})'], ret='mk_obj({old.0.d})'),
    C(V + 'value', name='value(object&&)', when=lambda f: one(f) and pn(f) == 'json::object' and rv(f), modifies=['0'], ret='mk_obj({old.0.d})'),
    C(V + 'deep_copy', requires=['var_ok({0})'], ret='{old.0}', measure='(var_height({0}), 2)'),
    C(A + 'array', name='array()', when=lambda f: len(f['pt']) == 0, ret='(Arr { d: Seq::empty() })'),
    C(A + 'array', name='array(const array&)', when=lambda f: one(f) and pn(f) == 'json::array' and not rv(f), requires=['wf_seq({0.d})'], ret='{old.0}', measure='(height_arr({0}), 3)'),
    C(A + 'array', name='array(array&&)', when=lambda f: one(f) and pn(f) == 'json::array' and rv(f), modifies=['0'], ret='{old.0}'),
    C(A + 'array', name='array(size)', when=lambda f: one(f) and f['pt'][0]['k'] == 'int', ret='(Arr { d: vrep({0}, mk_null()) })'),
    C(O_ + 'object', name='object()', when=lambda f: len(f['pt']) == 0, ret='(Obj { d: Map::empty() })'),
    C(O_ + 'object', name='object(const object&)', when=lambda f: one(f) and pn(f) == 'json::object' and not rv(f), requires=['wf_map({0.d})'], ret='{old.0}', measure='(height_obj({0}), 3)'),
    C(O_ + 'object', name='object(object&&)', when=lambda f: one(f) and pn(f) == 'json::object' and rv(f), modifies=['0'], ret='{old.0}'),
]

# assignment: also when one operand lives inside the other
def inside(what):
    """the right operand is some part of *this"""
    def f(eng, st, ctx, fn):
        n = eng.sym('part', 'int')
        lv = eng.mk(ctx['this'].root, (('desc', n, what),))
        bind_arg(eng, st, ctx, fn, 0, lv)
        part = eng.read(st, lv)
        st.assume({'Value': 'wf(%s)', 'Arr': 'wf_seq(%s.d)', 'Obj': 'wf_map(%s.d)'}[what] % part.x())
    return ('right operand inside *this', f)
def selfsame():
    def f(eng, st, ctx, fn): bind_arg(eng, st, ctx, fn, 0, ctx['this'])
    return ('right operand is *this', f)
def around(what):
    """*this is some part of the right operand"""
    def f(eng, st, ctx, fn):
        n = eng.sym('part', 'int')
        lv = eng.mk(ctx['arglist'][0].root, (('desc', n, what),))
        ctx['this'] = lv
        for fr in st.frames: fr.this = lv
        st.assume({'Value': 'wf(%s)', 'Arr': 'wf_seq(%s.d)', 'Obj': 'wf_map(%s.d)'}[what] % eng.read(st, lv).x())
    return ('*this inside the right operand', f)
def bind_arg(eng, st, ctx, fn, i, lv):
    ctx['arglist'][i] = lv
    p = fn['params'][i]
    if p['n']: ctx['args'][p['n']] = lv
    for fr in st.frames:
        if p['id'] in fr.vars: st.store[fr.vars[p['id']]] = lv
def assign(q, name, cls, sort, w, rvv):
    # copy: the right operand keeps its value unless *this is part of it
    return C(q, name=name, when=lambda f: pn(f) == cls and rv(f) == rvv and one(f), requires=[w % '{this}', w % '{0}'], modifies=['this'] + (['0'] if rvv else []),
             ensures=['{this} == {old.0}'] + ([] if rvv else []), ret=Whole(), aliases=[selfsame(), inside(sort)] + ([] if rvv else [around(sort)]))
assigns = []
for rvv in (False, True):
    r = '&&' if rvv else 'const&'
    assigns += [assign(V + 'operator=', 'value::operator=(%s)' % r, 'json::value', 'Value', 'wf(%s)', rvv),
                assign(A + 'operator=', 'array::operator=(%s)' % r, 'json::array', 'Arr', 'wf_seq(%s.d)', rvv),
                assign(O_ + 'operator=', 'object::operator=(%s)' % r, 'json::object', 'Obj', 'wf_map(%s.d)', rvv)]

KINDS = {'valid': '{this.ty} != 0', 'is_null': '{this.ty} == 1', 'is_boolean': '{this.ty} == 2', 'is_string': '{this.ty} == 3', 'is_number': '{this.ty} == 4',
         'is_array': '{this.ty} == 5', 'is_object': '{this.ty} == 6'}
kinds = [C(V + n, ret=r) for n, r in KINDS.items()] + [
    C(V + 'type', ret='{this.ty}'),
    C(V + 'empty', requires=['wf_tag({this})'], ret='is_empty({this})'),
]

access = [
    C(V + 'as_boolean', requires=[WV], throws=BOOLBAD, ret='txt({this}) == true_txt()'),
    C(V + 'operator bool', requires=[WV], throws=BOOLBAD, ret='txt({this}) == true_txt()'),
    C(V + 'as_string', requires=[WV], throws='{this.ty} != 3', ret='txt({this})'),
    C(V + 'as_string_view', requires=[WV], throws='{this.ty} != 3', ret='txt({this})'),
    C(V + 'operator basic_string', requires=[WV], throws='{this.ty} != 3', ret='txt({this})'),
    C(V + 'operator basic_string_view', requires=[WV], throws='{this.ty} != 3', ret='txt({this})'),
    C(V + 'operator array', when=lambda f: strip(f['rt']).get('n') == 'json::array', requires=[WV], throws='{this.ty} != 5', ret='(Arr { d: arr_of({this}) })'),
    C(V + 'operator object', requires=[WV], throws='{this.ty} != 6', ret='(Obj { d: obj_of({this}) })'),
    C(V + 'operator nullptr_t', requires=[WV], throws='{this.ty} != 1'),
    C(V + 'operator monostate', requires=[WV], throws='{this.ty} != 1'),
    C(V + 'as_array', name='value::as_array() const', when=const, requires=[WV], throws='{this.ty} != 5', ret=Ref(RAW_A)),
    C(V + 'as_object', name='value::as_object() const', when=const, requires=[WV], throws='{this.ty} != 6', ret=Ref(RAW_O)),
    C(V + 'as_array', name='value::as_array()', when=lambda f: not const(f), requires=[WV], modifies=['this'], throws='arr_mut({this}) is None', throws_ens=['{this} == {old.this}'],
      ensures=['{this} == mk_arr(arr_mut({old.this})->Some_0)', WV], ret=Ref(RAW_A)),
    C(V + 'as_object', name='value::as_object()', when=lambda f: not const(f), requires=[WV], modifies=['this'], throws='obj_mut({this}) is None', throws_ens=['{this} == {old.this}'],
      ensures=['{this} == mk_obj(obj_mut({old.this})->Some_0)', WV], ret=Ref(RAW_O)),
    C(V + 'as_basic_type_str', opaque=False, requires=['{this.raw} is S'], ret=Ref([('f', 'raw'), ('alt', 0)])),
]

def D_(p): return p + D
lookup = [
    C(V + 'contains', name='value::contains(key)', when=key, requires=[WV], ret='at_key({this}, {0}) is Some'),
    C(V + 'contains', name='value::contains(pos)', when=pos, requires=[WV], ret='at_pos({this}, {0}) is Some'),
    C(V + 'exists', name='value::exists(key)', when=key, requires=[WV], ret='at_key({this}, {0}) is Some'),
    C(V + 'exists', name='value::exists(pos)', when=pos, requires=[WV], ret='at_pos({this}, {0}) is Some'),
    C(V + 'at', name='value::at(pos)', when=pos, requires=[WV], throws='at_pos({this}, {0}) is None', ret=Ref(D_(RAW_A) + [('i', '{old.0}')])),
    C(V + 'at', name='value::at(key)', when=key, requires=[WV], throws='at_key({this}, {0}) is None', ret=Ref(D_(RAW_O) + [('k', '{old.0}')])),
    C(V + 'find_value', name='value::find_value(pos)', when=pos, requires=[WV], ret=Ptr('at_pos({this}, {old.0}) is None', D_(RAW_A) + [('i', '{old.0}')])),
    C(V + 'find_value', name='value::find_value(key)', when=key, requires=[WV], ret=Ptr('at_key({this}, {old.0}) is None', D_(RAW_O) + [('k', '{old.0}')])),
    C(V + 'operator[]', name='value::operator[](pos) const', when=lambda f: pos(f) and const(f), requires=[WV, '{this.ty} == 5 ==> {0} < arr_of({this}).len()'], throws='{this.ty} != 5', ret=Ref(D_(RAW_A) + [('i', '{old.0}')])),
    C(A + 'empty', ret='{this.d}.len() == 0'), C(A + 'size', ret='{this.d}.len() as int'),
    C(A + 'contains', ret='{0} < {this.d}.len()'), C(A + 'exists', ret='{0} < {this.d}.len()'),
    C(A + 'at', throws='{0} >= {this.d}.len()', ret=Ref(D + [('i', '{old.0}')])),
    C(A + 'find_value', ret=Ptr('{old.0} >= {this.d}.len()', D + [('i', '{old.0}')])),
    C(A + 'operator[]', requires=['{0} < {this.d}.len()'], ret=Ref(D + [('i', '{old.0}')])),
    C(O_ + 'empty', ret='{this.d}.dom().len() == 0'), C(O_ + 'size', ret='{this.d}.dom().len() as int'),
    C(O_ + 'contains', ret='{this.d}.dom().contains({0})'), C(O_ + 'exists', ret='{this.d}.dom().contains({0})'),
    C(O_ + 'at', throws='!{this.d}.dom().contains({0})', ret=Ref(D + [('k', '{old.0}')])),
    C(O_ + 'find_value', ret=Ptr('!{this.d}.dom().contains({old.0})', D + [('k', '{old.0}')])),
]

EQ = {'value': ('wf', 'veq({this}, {0})', '{this}', 'height({this}) + height({0})'), 'array': ('wf_seq', 'seq_veq({this.d}, {0.d})', '{this.d}', 'height_arr({this}) + height_arr({0})'), 'object': ('wf_map', 'map_veq({this.d}, {0.d})', '{this.d}', 'height_obj({this}) + height_obj({0})')}
compare = []
for cls, (w, e, t, h_) in EQ.items():
    a = '{0}' if cls == 'value' else '{0.d}'
    when = lambda f, cls=cls: one(f) and pn(f) == 'json::' + cls
    compare += [C('json::%s::operator==' % cls, when=when, requires=['%s(%s)' % (w, t), '%s(%s)' % (w, a)], throws=e + ' is None', ret=e + '->Some_0', measure='(%s, 1)' % h_),
                C('json::%s::operator!=' % cls, when=when, requires=['%s(%s)' % (w, t), '%s(%s)' % (w, a)], throws=e + ' is None', ret='!(%s->Some_0)' % e, measure='(%s, 2)' % h_)]

# ---------------------------------------------------------------- mutation
CRV = lambda f, i=0: f['pt'][i]['k'] == 'rref' and not f['pt'][i].get('c')
def kmod(f_rv): return ['this', '0'] if f_rv else ['this']
AM, OM = 'arr_mut({old.this})->Some_0', 'obj_mut({old.this})->Some_0'
AT, OT = 'arr_mut({this}) is None', 'obj_mut({this}) is None'
SAMEV = '{this} == {old.this}'
def it_setup(kind):
    """the parameter is an iterator of the container itself"""
    def f(eng, st, ctx, fn, verifying):
        if not verifying: return
        import stdlib
        it = stdlib.iter_of(eng, st, eng.derive(st, ctx['this'], ('f', 'd')), kind, False)
        n = eng.sym('pos', 'int'); st.assume('0 <= %s <= %s' % (n, '%s.len()' % it.snap if kind == 'vec' else 'ks(%s).len()' % it.snap))
        st.store[ctx['arglist'][0].root] = it.at(n)
        ctx['ghost']['at'] = n
    return f
class AnyRet:
    def __call__(s, eng, st, ctx, old, e): return Unit()
def iterp(f): return one(f) and pn(f) is not None and not key(f) and not pos(f)

def vpos(f): return pos(f) and not const(f)
def mkeys(f): return key(f) and not const(f)
def own(i):
    """the right operand is the container *this holds"""
    def f(eng, st, ctx, fn):
        bind_arg(eng, st, ctx, fn, 0, eng.derive(st, ctx['this'], *(RAW_A if i == 5 else RAW_O)))
        st.assume('%s == %d' % (eng.subst('{this.ty}', st, ctx), i))
    return ('right operand is the container *this holds', f)
def inside_c(what, i):
    l, g = inside(what)
    def f(eng, st, ctx, fn):
        g(eng, st, ctx, fn)
        st.assume('%s == %d' % (eng.subst('{this.ty}', st, ctx), i))    # only a container has parts
    return (l, f)
mutation = [
    C(V + 'operator[]', name='value::operator[](pos)', when=vpos, requires=[WV, '%s || {0} < arr_mut({this})->Some_0.len()' % AT], modifies=['this'], throws=AT, throws_ens=[SAMEV],
      ensures=['{this} == mk_arr(%s)' % AM, WV], ret=Ref(RAW_A + D + [('i', '{old.0}')])),
    C(A + 'clear', modifies=['this'], ensures=['{this.d} =~= Seq::<Value>::empty()']),
    C(O_ + 'clear', modifies=['this'], ensures=['{this.d} =~= Map::<Seq<u8>, Value>::empty()']),
    C(V + 'clear', requires=[WV], modifies=['this'], ensures=['{this} == mk_null()']),
    C(A + 'erase', name='array::erase(pos)', when=pos, modifies=['this'], requires=[WA], ensures=['{this.d} =~= (if {old.0} < {old.this.d}.len() { {old.this.d}.remove({old.0}) } else { {old.this.d} })', WA],
      ret='{0} < {old.this.d}.len()'),
    C(A + 'erase', name='array::erase(iterator)', when=lambda f: not pos(f), opaque=False, setup=it_setup('vec'), modifies=['this'],
      ensures=['{this.d} =~= (if {at} < {old.this.d}.len() { {old.this.d}.remove({at}) } else { {old.this.d} })'], ret='{at} < {old.this.d}.len()'),
    C(O_ + 'erase', name='object::erase(key)', when=key, modifies=['this'], requires=[WO], ensures=['{this.d} =~= {old.this.d}.remove({old.0})', WO], ret='{old.this.d}.dom().contains({0})'),
    C(O_ + 'erase', name='object::erase(iterator)', when=lambda f: not key(f), opaque=False, setup=it_setup('map'), modifies=['this'],
      ensures=['{this.d} =~= (if {at} < ks({old.this.d}).len() { {old.this.d}.remove(ks({old.this.d})[{at}]) } else { {old.this.d} })'], ret='{at} < ks({old.this.d}).len()'),
    C(V + 'erase', name='value::erase(pos)', when=pos, requires=[WV], modifies=['this'], throws=AT, throws_ens=[SAMEV],
      ensures=['{this} =~~= mk_arr(if {old.0} < %s.len() { %s.remove({old.0}) } else { %s })' % (AM, AM, AM), WV], ret='{0} < arr_mut({old.this})->Some_0.len()'),
    C(V + 'erase', name='value::erase(key)', when=key, requires=[WV], modifies=['this'], throws=OT, throws_ens=[SAMEV], ensures=['{this} =~~= mk_obj(%s.remove({old.0}))' % OM, WV],
      ret='obj_mut({old.this})->Some_0.dom().contains({0})'),
]
for r in (False, True):
    n = 'key&&' if r else 'const key&'
    mutation += [
        C(V + 'operator[]', name='value::operator[](%s)' % n, when=lambda f, r=r: mkeys(f) and rv(f) == r, requires=[WV], modifies=kmod(r), throws=OT, throws_ens=[SAMEV],
          ensures=['{this} =~~= mk_obj(with_key(%s, {old.0}))' % OM, WV], ret=Ref(RAW_O + D + [('k', '{old.0}')])),
        C(O_ + 'operator[]', name='object::operator[](%s)' % n, when=lambda f, r=r: key(f) and rv(f) == r, requires=[WO], modifies=kmod(r), ensures=['{this.d} =~= with_key({old.this.d}, {old.0})', WO],
          ret=Ref(D + [('k', '{old.0}')])),
    ]
# emplace_back(const value&), emplace_back(value&&): the element is the argument, also when it is an element of the array itself
def argv(f, i=0): return len(f['pt']) > i and pn(f, i) == 'json::value'
def isrv(f, i=0): return rv(f, i) and not f['pt'][i].get('c')
for nm in ('emplace_back', 'push_back'):
    for r in (False, True):
        mutation.append(C(A + nm, name='array::%s(%s)' % (nm, 'value&&' if r else 'const value&'), when=lambda f, r=r: one(f) and argv(f) and isrv(f) == r, requires=[WA, 'wf({0})'], modifies=['this'] + (['0'] if r else []),
            ensures=['{this.d} =~= {old.this.d}.push({old.0})', WA], ret=Ref(D + [('i', '{old.this.d}.len() as int')]), aliases=[] if r else [inside('Value')]))
for nm in ('emplace', 'insert'):
    mutation.append(C(O_ + nm, when=lambda f: len(f['pt']) == 2 and argv(f, 1), requires=[WO, 'wf({1})'], modifies=['this'], ensures=['{this.d} =~= {old.this.d}.insert({old.0}, {old.1})', WO], ret=AnyRet()))
mutation += [
    C(V + 'emplace', name='value::emplace(element)', when=lambda f: one(f) and argv(f), requires=[WV, 'wf({0})'], modifies=['this'], throws=AT, throws_ens=[SAMEV], ensures=['{this} =~~= mk_arr(%s.push({old.0}))' % AM, WV],
      ret=Ref(RAW_A + D + [('i', '%s.len() as int' % AM)]), aliases=[inside_c('Value', 5)]),
    C(V + 'emplace', name='value::emplace(key, value)', when=lambda f: len(f['pt']) == 2 and argv(f, 1), requires=[WV, 'wf({1})'], modifies=['this'], throws=OT, throws_ens=[SAMEV], ensures=['{this} =~~= mk_obj(%s.insert({old.0}, {old.1}))' % OM, WV], ret=AnyRet()),
]
# concatenation and union
ML = lambda src: [LoopSpec(['0 <= {__begin~i|iter} && {__begin~i|iter} <= ks({old.1.d}).len()', '{temp|Map<Seq<u8>, Value>}.dom() =~= {old.1.d}.dom()',
                            'forall|k: int| {__begin~i|iter} <= k < ks({old.1.d}).len() ==> {temp|Map<Seq<u8>, Value>}[#[trigger] ks({old.1.d})[k]] == {old.1.d}[ks({old.1.d})[k]]',
                            '{0} =~= merge_upto({old.0}, {old.1.d}, {__begin~i|iter})', 'wf_map({0})'], 'ks({old.1.d}).len() - {__begin~i|iter}')]
def inside01(eng, st, ctx, fn):
    n = eng.sym('part', 'int')
    lv = eng.mk(ctx['arglist'][0].root, (('desc', n, 'Obj'),))
    bind_arg(eng, st, ctx, fn, 1, lv)
    st.assume('wf_map(%s.d)' % eng.read(st, lv).x())
DA, DO = 'json::_array_impl_detail::', 'json::_object_impl_detail::'
algebra = [
    C(DA + 'append_array', requires=['wf_seq({0})', 'wf_seq({1.d})'], modifies=['0'], ensures=['{0} =~= {old.0} + {old.1.d}', 'wf_seq({0})']),
    C(DA + 'append_array_move', requires=['wf_seq({0})', 'wf_seq({1.d})'], modifies=['0', '1'], ensures=['{0} =~= {old.0} + {old.1.d}', 'wf_seq({0})']),
    C(DO + 'merge_object', requires=['wf_map({0})', 'wf_map({1.d})'], modifies=['0'], ensures=['{0} =~= merged({old.0}, {old.1.d})', 'wf_map({0})'], loops=ML(0), aliases=[('source inside the destination', inside01)]),
    C(DO + 'merge_object_move', requires=['wf_map({0})', 'wf_map({1.d})'], modifies=['0', '1'], ensures=['{0} =~= merged({old.0}, {old.1.d})', 'wf_map({0})'], loops=ML(0)),
]
def bin2(op, cls, w, wt, comb, mk):
    """array + array, object | object, also on values"""
    out = []
    for rt_ in (False, True):
        for ra in (False, True):
            nm = '%s::operator%s(%s)%s' % (cls, op, '&&' if ra else 'const&', ' &&' if rt_ else '')
            when = lambda f, rt_=rt_, ra=ra: one(f) and rthis(f) == rt_ and rv(f) == ra
            mods = (['this'] if rt_ else []) + (['0'] if ra else [])
            if cls != 'value':
                out.append(C('json::%s::operator%s' % (cls, op), name=nm, when=when, requires=['%s({this.d})' % w, '%s({0.d})' % w], modifies=mods, ret=mk % (comb % ('{old.this.d}', '{old.0.d}'))))
            else:
                g = ('arr_of', 'arr_mut', '5') if op == '+' else ('obj_of', 'obj_mut', '6')
                old = ('%s({old.this})->Some_0' % g[1]) if rt_ else '%s({old.this})' % g[0]
                out.append(C('json::value::operator' + op, name=nm, when=when, requires=[WV, '%s({0.d})' % w], modifies=mods, throws='%s({this}) is None' % g[1] if rt_ else '{this.ty} != ' + g[2],
                             throws_ens=([SAMEV] if rt_ else []) + (['{0} == {old.0}'] if ra else []), ret=mk % (comb % (old, '{old.0.d}'))))
    return out
algebra += bin2('+', 'array', 'wf_seq', '{this.d}', '%s + %s', '(Arr { d: %s })') + bin2('|', 'object', 'wf_map', '{this.d}', 'merged(%s, %s)', '(Obj { d: %s })')
algebra += bin2('+', 'value', 'wf_seq', '', '%s + %s', 'mk_arr(%s)') + bin2('|', 'value', 'wf_map', '', 'merged(%s, %s)', 'mk_obj(%s)')
for ra in (False, True):
    nm = '&&' if ra else 'const&'
    when = lambda f, ra=ra: one(f) and rv(f) == ra
    m = ['this'] + (['0'] if ra else [])
    te = [SAMEV] + (['{0} == {old.0}'] if ra else [])
    algebra += [
        C(A + 'operator+=', name='array::operator+=(%s)' % nm, when=when, requires=[WA, 'wf_seq({0.d})'], modifies=m, ensures=['{this.d} =~= {old.this.d} + {old.0.d}', WA], ret=Whole(), aliases=[] if ra else [selfsame(), inside('Arr')]),
        C(O_ + 'operator|=', name='object::operator|=(%s)' % nm, when=when, requires=[WO, 'wf_map({0.d})'], modifies=m, ensures=['{this.d} =~= merged({old.this.d}, {old.0.d})', WO], ret=Whole(), aliases=[] if ra else [selfsame(), inside('Obj')]),
        C(V + 'operator+=', name='value::operator+=(%s)' % nm, when=when, requires=[WV, 'wf_seq({0.d})'], modifies=m, throws=AT, throws_ens=te, ensures=['{this} =~~= mk_arr(%s + {old.0.d})' % AM, WV], ret=Whole(), aliases=[] if ra else [own(5), inside_c('Arr', 5)]),
        C(V + 'operator|=', name='value::operator|=(%s)' % nm, when=when, requires=[WV, 'wf_map({0.d})'], modifies=m, throws=OT, throws_ens=te, ensures=['{this} =~~= mk_obj(merged(%s, {old.0.d}))' % OM, WV], ret=Whole(), aliases=[] if ra else [own(6), inside_c('Obj', 6)]),
    ]

# ---------------------------------------------------------------- is<T>, as<T>, find<T>, get(keys..., default)
SEQN = ('std::vector', 'std::list', 'std::deque')
def tname(t):
    """canonical name of a C++ type, or None"""
    t = strip(t)
    k = t['k']
    if k == 'bool': return 'bool'
    if k == 'nullptr': return 'nullptr'
    if k == 'int': return t['n']
    if k == 'arr' and strip(t['to']).get('bits') == 8: return 'chars'
    if k == 'rec':
        n = t['n']
        if n in ('std::basic_string', 'std::__cxx11::basic_string'): return 'string'
        if n in ('json::value', 'json::array', 'json::object', 'std::monostate'): return n.split('::')[1]
        if n == 'std::filesystem::path': return 'path'
        if n.startswith('vd::'): return n
        a = [x for x in t.get('a', []) if isinstance(x, dict)]
        if n == 'std::optional': return 'optional<%s>' % tname(a[0])
        if n in SEQN: return '%s<%s>' % (n[5:], tname(a[0]))
        if n in ('std::shared_ptr', 'std::unique_ptr'): return '%s<%s>' % (n[5:], tname(a[0]))
        if n == 'std::array': return 'array<%s,%s>' % (tname(a[0]), a[1].get('v'))
        if n in ('std::pair', 'std::tuple', 'std::variant'): return '%s<%s>' % (n[5:], ','.join(str(tname(x)) for x in a))
        if n in ('std::map', 'std::unordered_map') and tname(a[0]) == 'string': return '%s<%s>' % (n[5:], tname(a[1]))
    return None
INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False)}
def EXI(t, x):
    b, sg = INTS[t]
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
    return 'exact(txt(%s), %s, (%d), %d)' % (x, 'true' if sg else 'false', lo, hi)
TAG = {'bool': 2, 'string': 3, 'chars': 3, 'array': 5, 'object': 6, 'nullptr': 1, 'monostate': 1}
def inner(t): return t[t.index('<') + 1:-1]
def IS(t, x, d=0):
    if t == 'value': return 'true'
    if t in TAG: return '(%s.ty == %d)' % (x, TAG[t])
    if t in INTS: return 'is_num(%s%s' % (x, EXI(t, x)[len('exact(txt(%s)' % x):])
    if t.startswith('optional<'): return '(%s.ty == 1 || %s)' % (x, IS(inner(t), x, d))
    if t.startswith(('map<', 'unordered_map<')): return '(%s.ty == 6 && %s)' % (x, ALLM(inner(t), 'obj_of(%s)' % x, d))
    return '(%s.ty == 5 && %s)' % (x, ALLS(inner(t), 'arr_of(%s)' % x, '%s.len()' % ('arr_of(%s)' % x), d))
def ALLS(t, d_, n, d=0):
    if t in INTS: return 'num_seq(%s, %s as int%s' % (d_, n, EXI(t, 'x')[len('exact(txt(x)'):])
    q = 'q%d_' % d
    return '(forall|%s: int| 0 <= %s < %s ==> %s)' % (q, q, n, IS(t, '%s[%s]' % (d_, q), d + 1).replace('%s[%s]' % (d_, q), '#[trigger] %s[%s]' % (d_, q), 1))
def ALLM(t, m, d=0):
    if t in INTS: return 'num_map(%s%s' % (m, EXI(t, 'x')[len('exact(txt(x)'):])
    q = 'q%d_' % d
    return '(forall|%s: Seq<u8>| %s.dom().contains(%s) ==> %s)' % (q, m, q, IS(t, '%s[%s]' % (m, q), d + 1).replace('%s[%s]' % (m, q), '#[trigger] %s[%s]' % (m, q), 1))
def AS(t, x):
    if t == 'value': return x
    if t == 'bool': return '(txt(%s) == true_txt())' % x
    if t in INTS: return EXI(t, x) + '->Some_0'
    if t in ('string', 'chars'): return 'txt(%s)' % x
    if t == 'array': return '(Arr { d: arr_of(%s) })' % x
    if t == 'object': return '(Obj { d: obj_of(%s) })' % x
def THR(t, x):
    if t == 'value': return 'false'
    if t == 'bool': return '(%s.ty != 2 || (txt(%s) != true_txt() && txt(%s) != false_txt()))' % (x, x, x)
    return '!' + IS(t, x)
SCAL = ['value', 'bool', 'string', 'array', 'object'] + [t for t in INTS]
ASABLE = [t for t in SCAL if t not in ('signed char', 'unsigned char', 'short', 'unsigned short')]
TYPES = SCAL + ['chars', 'nullptr', 'monostate', 'optional<int>', 'vector<int>', 'vector<string>', 'map<int>', 'vector<vector<int>>', 'list<bool>', 'deque<long>', 'map<vector<int>>', 'unordered_map<string>']
def ta0(t): return lambda f: bool(f.get('ta')) and tname(f['ta'][0]) == t and len(f['pt']) == 0
typed = []
def opt(c): c.optional = True; typed.append(c)
for t in TYPES:
    opt(C(V + 'is', name='value::is<%s>' % t, when=ta0(t), requires=[WV], ret=IS(t, '{this}')))
    opt(C(V + 'all', name='value::all<%s>' % t, when=ta0(t), requires=[WV], ret='({this}.ty == 5 && %s) || ({this}.ty == 6 && %s)' % (ALLS(t, 'arr_of({this})', 'arr_of({this}).len()'), ALLM(t, 'obj_of({this})'))))
    opt(C(A + 'all', name='array::all<%s>' % t, when=ta0(t), requires=[WA], ret=ALLS(t, '{this.d}', '{this.d}.len()'),
          loops=[LoopSpec(['0 <= {__begin~i|iter} && {__begin~i|iter} <= {this.d}.len()', ALLS(t, '{this.d}', '{__begin~i|iter}')], '{this.d}.len() - {__begin~i|iter}')]))
    e = '{this.d}[#[trigger] ks({this.d})[j_]]'
    opt(C(O_ + 'all', name='object::all<%s>' % t, when=ta0(t), requires=[WO], ret=ALLM(t, '{this.d}'),
          loops=[LoopSpec(['0 <= {__begin~i|iter} && {__begin~i|iter} <= ks({this.d}).len()', 'forall|j_: int| 0 <= j_ < {__begin~i|iter} ==> {this.d}.dom().contains(#[trigger] ks({this.d})[j_]) && %s' % IS(t, '{this.d}[ks({this.d})[j_]]')], 'ks({this.d}).len() - {__begin~i|iter}')]))
for t in ASABLE:
    for r in (False, True):
        opt(C(V + 'as', name='value::as<%s>%s' % (t, ' &&' if r else ''), when=lambda f, t=t, r=r: ta0(t)(f) and rthis(f) == r, requires=[WV], throws=THR(t, '{this}'), ret=AS(t, '{old.this}'), modifies=['this'] if r and t == 'value' else [],
              aliases=[]))
    for cls, w, at, isk in (('value', WV, 'at_pos({this}, {0})', 0), ('value', WV, 'at_key({this}, {0})', 1), ('array', WA, 'seq_at({this.d}, {0})', 0), ('object', WO, 'map_at({this.d}, {0})', 1)):
        x = at + '->Some_0'
        opt(C('json::%s::find' % cls, name='%s::find<%s>(%s)' % (cls, t, 'key' if isk else 'pos'), when=lambda f, t=t, isk=isk: one(f) and bool(f.get('ta')) and tname(f['ta'][0]) == t and key(f) == bool(isk), requires=[w],
              throws='%s is Some && %s && %s' % (at, IS(t, x), THR(t, x)), ensures=['{ret.has} == (%s is Some && %s)' % (at, IS(t, x)), '{ret.has} ==> {ret.val} == %s' % AS(t, x)]))
import itertools
def getsig(f):
    pt = f['pt']
    if len(pt) < 2 or pn(f, len(pt) - 1) == 'std::integer_sequence': return None
    ks_ = ''.join('I' if strip(p)['k'] == 'int' else ('K' if is_str(strip(p)) else '?') for p in pt[:-1])
    return ks_, tname(pt[-1])
for t in ('value', 'int', 'bool', 'string', 'long', 'unsigned long'):
    for n in (1, 2, 3):
        for ks_ in itertools.product('IK', repeat=n):
            ks_ = ''.join(ks_)
            for cls, w, me in (('value', WV, 'Some({this})'), ('array', WA, 'Some(mk_arr({this.d}))'), ('object', WO, 'Some(mk_obj({this.d}))')):
                if cls == 'array' and ks_[0] == 'K' or cls == 'object' and ks_[0] == 'I': continue
                at = me
                for i, kk in enumerate(ks_): at = 'at_step2(%s, Step::%s({%d}))' % (at, kk, i)
                x = at + '->Some_0'
                c = C('json::%s::get' % cls, name='%s::get(%s, %s)' % (cls, ','.join('key' if q == 'K' else 'pos' for q in ks_), t), when=lambda f, ks_=ks_, t=t: getsig(f) == (ks_, t), requires=[w] + (['wf({%d})' % n] if t == 'value' else []),
                      throws='%s is Some && %s && %s' % (at, IS(t, x), THR(t, x)), ret='if %s is Some && %s { %s } else { {%d} }' % (at, IS(t, x), AS(t, x), n))
                opt(c)

for c in mutation + algebra:
    if c.q in (V + 'operator+=', V + 'operator|=', V + 'emplace'): c.inl = ('value::as_array()', 'value::as_object()')
contracts = ints + ctors + assigns + kinds + access + lookup + compare + mutation + algebra + typed
info = C(V + 'value_info', requires=['wf_moved({this})']); info.external = True
contracts.append(info)
