"""Contracts of the conversions between enumerations and json values (enum_reflection.hpp, value(enum_t), operator enum_t, is<E>, as<E>).

The specification of every enumeration E of the driver is its declaration: en_E(v) is the name of the first enumerator with value v if v lies in the
reflected range, and empty otherwise.  The table of names that meojson computes at compile time (enum_name_storage<E>::names, evaluated by clang while
extracting) must be that specification; the functions that search it are then proved for every value of the underlying type and every text."""
import re
from sym import *
from engine import Contract, LoopSpec, Unsupported, strip, Obl
from c_value import C, V, WV, one, rv, rthis, EXI, INTS, contracts as base_contracts

R_ = 'json::_reflection::'
def mg(n): return re.sub(r'[^A-Za-z0-9]+', '_', n).strip('_')
def en(t):
    t = strip(t)
    return t['n'] if t['k'] == 'enum' else None

PRE = r'''
pub open spec fn low(c: u8) -> u8 { if 65 <= c && c <= 90 { (c + 32) as u8 } else { c } }
// equal up to the case of ASCII letters
pub open spec fn ieq(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> low(#[trigger] a[k]) == low(b[k]) }
// the first nonempty entry at or after i that is s / that is s up to case
pub open spec fn find_ex(t: Seq<Seq<u8>>, s: Seq<u8>, i: int) -> Option<int> decreases t.len() - i
{ if i < 0 || i >= t.len() { None } else if t[i].len() > 0 && t[i] == s { Some(i) } else { find_ex(t, s, i + 1) } }
pub open spec fn find_ci(t: Seq<Seq<u8>>, s: Seq<u8>, i: int) -> Option<int> decreases t.len() - i
{ if i < 0 || i >= t.len() { None } else if t[i].len() > 0 && ieq(t[i], s) { Some(i) } else { find_ci(t, s, i + 1) } }
pub open spec fn s2e(t: Seq<Seq<u8>>, s: Seq<u8>) -> Option<int> { match find_ex(t, s, 0) { Some(i) => Some(i), None => find_ci(t, s, 0) } }
pub proof fn find_ex_is(t: Seq<Seq<u8>>, s: Seq<u8>, i: int)
    requires 0 <= i
    ensures match find_ex(t, s, i) { Some(j) => i <= j < t.len() && t[j] == s && s.len() > 0 && forall|k: int| i <= k < j ==> #[trigger] t[k] != s,
                                     None => forall|k: int| i <= k < t.len() && s.len() > 0 ==> #[trigger] t[k] != s }
    decreases t.len() - i
{ if i < t.len() && !(t[i].len() > 0 && t[i] == s) { find_ex_is(t, s, i + 1); } }
pub proof fn find_ci_is(t: Seq<Seq<u8>>, s: Seq<u8>, i: int)
    requires 0 <= i
    ensures match find_ci(t, s, i) { Some(j) => i <= j < t.len() && t[j].len() > 0 && ieq(t[j], s),
                                     None => forall|k: int| i <= k < t.len() && (#[trigger] t[k]).len() > 0 ==> !ieq(t[k], s) }
    decreases t.len() - i
{ if i < t.len() && !(t[i].len() > 0 && ieq(t[i], s)) { find_ci_is(t, s, i + 1); } }
// what a text is read as: the entry it names, or one it names up to case, or nothing when it names none
pub proof fn s2e_is(t: Seq<Seq<u8>>, s: Seq<u8>)
    ensures match s2e(t, s) { Some(j) => 0 <= j < t.len() && t[j].len() > 0 && ieq(t[j], s) && ((exists|k: int| 0 <= k < t.len() && #[trigger] t[k] == s && s.len() > 0) ==> t[j] == s),
                              None => forall|k: int| 0 <= k < t.len() && (#[trigger] t[k]).len() > 0 ==> !ieq(t[k], s) }
{ find_ex_is(t, s, 0); find_ci_is(t, s, 0); }
// in a table without repetition every name is read as its own entry
pub proof fn s2e_own(t: Seq<Seq<u8>>, i: int)
    requires 0 <= i < t.len(), t[i].len() > 0, forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && (#[trigger] t[a]).len() > 0 && t[a] == #[trigger] t[b] ==> a == b
    ensures s2e(t, t[i]) == Some(i)
{ find_ex_is(t, t[i], 0); }
pub broadcast proof fn ieq_step(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] ieq(a, b) == (a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> low(#[trigger] a[k]) == low(b[k])) {}
pub broadcast group enum_lemmas { ieq_step }
'''

def bytes_(n): return 'seq![%s]' % ', '.join('%du8' % b for b in n.encode())
def nat(x): return '(%d)' % x if x < 0 else '%dint' % x

class Enum:
    def __init__(s, name, d):
        s.name = name; s.m = mg(name); s.u = d['u']
        cs = [(n, int(v)) for n, v in d['consts']]
        m = dict(cs)
        s.min = m.get('_MEOJSON_ENUM_MIN', -128); s.max = m.get('_MEOJSON_ENUM_MAX', 128)
        s.names = {}
        for n, v in cs:
            if v not in s.names and s.min <= v <= s.max: s.names[v] = n
        s.range = s.max - s.min + 1
    def spec(s):
        m = s.m
        ent = ' else '.join('if v == %s { %s }' % (nat(v), bytes_(n)) for v, n in sorted(s.names.items()))
        o = ['pub open spec fn en_%s(v: int) -> Seq<u8> { %s { Seq::empty() } }' % (m, ent + ' else' if ent else 'if true'),
             'pub open spec fn tab_%s() -> Seq<Seq<u8>> { Seq::new(%dnat, |i: int| en_%s(i + %s)) }' % (m, s.range, m, nat(s.min))]
        vs = sorted(s.names)
        inj = ''.join('assert(%s); ' % ('en_%s(%s)[%d] != en_%s(%s)[%d]' % (m, nat(a), k, m, nat(b), k))
                      for x, a in enumerate(vs) for b in vs[x + 1:] for k in [next((k for k, (p, q) in enumerate(zip(s.names[a], s.names[b])) if p != q), None)] if k is not None)
        lens = ''.join('assert(en_%s(%s).len() == %d); ' % (m, nat(v), len(s.names[v])) for v in vs)
        o.append('pub proof fn inj_%s(a: int, b: int) requires en_%s(a).len() > 0, en_%s(a) == en_%s(b) ensures a == b, %s <= a <= %s { %s%s }' % (m, m, m, m, nat(s.min), nat(s.max), lens, inj))
        if s.u['n'] in INTS:
            ex = EXI(s.u['n'], 'v')
            o.append('pub open spec fn can_%s(v: Value) -> bool { (v.ty == 3 && s2e(tab_%s(), txt(v)) is Some) || (v.ty == 4 && %s is Some) }' % (m, m, ex))
            o.append('pub open spec fn rd_%s(v: Value) -> int { if v.ty == 3 { s2e(tab_%s(), txt(v))->Some_0 + %s } else { %s->Some_0 } }' % (m, m, nat(s.min), ex))
            # the value of a named enumerator reads back as that enumerator; nothing else is written
            o.append('pub proof fn rt_%s(x: int) requires en_%s(x).len() > 0 ensures can_%s(mk_str(en_%s(x))), rd_%s(mk_str(en_%s(x))) == x { let t = tab_%s(); let i = x - %s; inj_%s(x, x); assert(t[i] == en_%s(x)); '
                     'assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && (#[trigger] t[a]).len() > 0 && t[a] == #[trigger] t[b] implies a == b by { inj_%s(a + %s, b + %s); } s2e_own(t, i); assert(txt(mk_str(en_%s(x))) =~= en_%s(x)); }'
                     % (m, m, m, m, m, m, m, nat(s.min), m, m, m, nat(s.min), nat(s.min), m, m))
        return '\n'.join(o) + '\n'

def enums(d): return {n: Enum(n, x) for n, x in d['enums'].items() if (n.startswith('vd::') or n == 'json::value::value_type')}
def gen(d):
    return '// generated by c_enum.py\n' + PRE + ''.join(e.spec() for e in enums(d).values())

def table_of(e, E):
    """the enumeration whose table of names the global e is, by the type it is instantiated for and its contents' type"""
    full = e['gfull']
    for n in sorted(E, key=len, reverse=True):
        if '<%s>' % n in full or '<%s,' % n in full: return n
    return None
def is_table(t):
    t = strip(t)
    return t['k'] == 'rec' and t['n'] == 'std::array' and strip(t['a'][0]).get('n') == 'std::basic_string_view'
def globals_(eng, e):
    g = eng.globals.get(e['gfull'])
    if not g or 'val' not in g or not is_table(g['t']): return None
    n = table_of(e, eng.enums)
    if n is None: return None
    return L('Seq<Seq<u8>>', 'tab_%s()' % eng.enums[n].m)
def setup_engine(eng, d):
    eng.enums = enums(d); eng.global_model = globals_
def extra(eng, d):
    """one obligation per table: what clang evaluated is the specification"""
    out = []
    for full, g in sorted(d['globals'].items()):
        if not is_table(g['t']): continue
        n = table_of({'gfull': full}, eng.enums)
        if n is None: continue
        E = eng.enums[n]; q = g['q']
        if 'val' not in g: out.append((q, n, Obl(q, 'the table of names is a constant', [], 'false', 0, []), {})); continue
        xs = [(eng.const_val(x, g['t']['a'][0]).e) for x in g['val']['s'][0]['a']]
        ent = ' else '.join('if i == %d { %s }' % (i, x) for i, x in enumerate(xs) if 'empty' not in x)
        lam = '(|i: int| %s { Seq::<u8>::empty() })' % (ent + ' else' if ent else 'if true')
        out.append((q, n, Obl(q, 'the table has one entry per value of the range', [], '%dint == tab_%s().len()' % (len(xs), E.m), 0, []), {}))
        out.append((q, n, Obl(q, 'the table of names holds exactly the declared enumerators of the range', [],
                              'forall|i: int| #![trigger tab_%s()[i]] 0 <= i < tab_%s().len() ==> tab_%s()[i] =~= %s(i)' % (E.m, E.m, E.m, lam), 0, []), {}))
    return out

# ---------------------------------------------------------------- contracts: generated for the enumerations of the driver
def e0(n): return lambda f: len(f['pt']) == 1 and en(f['pt'][0]) == n
def te(n, k=0): return lambda f: bool(f.get('ta')) and en(f['ta'][0]) == n and len(f['pt']) == k
def contracts_of(d):
    out = [Contract(R_ + 'iequals', ret='ieq({0}, {1})',
                    loops=[LoopSpec(['0 <= {i|int} && {i|int} <= {0}.len()', '{0}.len() == {1}.len()', 'forall|k_: int| 0 <= k_ < {i|int} ==> low(#[trigger] {0}[k_]) == low({1}[k_])'], '{0}.len() - {i|int}')])]
    for E in enums(d).values():
        n, m = E.name, E.m
        o = []
        o.append(Contract(R_ + 'enum_to_string', name='enum_to_string<%s>' % n, when=e0(n), ret='en_%s({0})' % m))
        T = 'tab_%s()' % m
        I_ = '0 <= {i|int} && {i|int} <= %d' % E.range
        o.append(Contract(R_ + 'string_to_enum', name='string_to_enum<%s>' % n, when=te(n, 1),
                          ensures=['{ret.has} == (s2e(%s, {0}) is Some)' % T, '{ret.has} ==> {ret.val} == s2e(%s, {0})->Some_0 + %s' % (T, nat(E.min))],
                          loops=[LoopSpec([I_, 'find_ex(%s, {0}, 0) == find_ex(%s, {0}, {i|int})' % (T, T)], '%d - {i|int}' % E.range, force=True),
                                 LoopSpec([I_, 'find_ex(%s, {0}, 0) is None' % T, 'find_ci(%s, {0}, 0) == find_ci(%s, {0}, {i|int})' % (T, T)], '%d - {i|int}' % E.range, force=True)]))
        o.append(C(V + 'value', name='value(%s)' % n, when=lambda f, n=n: f['kind'] == 'ctor' and e0(n)(f) and f['pt'][0]['k'] == 'enum', throws='en_%s({0}).len() == 0' % m, ret='mk_str(en_%s({0}))' % m))
        if E.u['n'] in INTS:
            for r in (False, True):
                o.append(C(V + 'as', name='value::as<%s>%s' % (n, ' &&' if r else ''), when=lambda f, n=n, r=r: te(n)(f) and rthis(f) == r, requires=[WV], throws='!can_%s({this})' % m, ret='rd_%s({old.this})' % m))
            o.append(C(V + 'operator ' + n.split('::')[-1], name='value::operator %s' % n, when=lambda f, n=n: f['kind'] == 'conv' and en(f['rt']) == n, requires=[WV], throws='!can_%s({this})' % m, ret='rd_%s({this})' % m))
            o.append(C(V + 'is', name='value::is<%s>' % n, when=te(n), requires=[WV], ret='can_%s({this})' % m))
        for c in o: c.optional = True; c.enum = True
        out += o
    out[0].enum = True
    return out + base_contracts

SCALAR = {'value(std::string)', 'value()', 'value(const char*)'}
SCALAR_Q = {V + n for n in ('as_string', 'as_string_view', 'is_string', 'is_number', 'as_basic_type_str', 'operator int', 'operator unsigned int', 'operator long long', 'operator unsigned long long', 'operator long', 'operator unsigned long')} | \
    {'json::_value_impl_detail::parse_integer', 'json::_value_impl_detail::try_parse_integer'}
def select(c, f):
    return getattr(c, 'enum', False) or c.name in SCALAR or c.q in SCALAR_Q or c.name in {'value::is<%s>' % t for t in INTS}
