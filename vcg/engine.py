"""Symbolic executor over the clang AST dumped by tools/cxxdump: turns each function under contract into obligations.

Paths are enumerated, not bounded: loops are cut at their invariants, callees with a contract are replaced by it,
callees without one are inlined (so an extracted helper needs no new contract)."""
import re, sys
from sym import *

sys.setrecursionlimit(20000)

NORM = 'norm'
class Ret:
    def __init__(s, v): s.v = v
BRK = 'brk'
CONT = 'cont'

class State:
    __slots__ = ('pc', 'store', 'kills', 'frames')
    def __init__(s, pc=(), store=None, kills=(), frames=()):
        s.pc = pc; s.store = store if store is not None else {}; s.kills = kills; s.frames = frames
    def fork(s): return State(s.pc, dict(s.store), s.kills, s.frames)
    def assume(s, *fs):
        for f in fs:
            if f is True: continue
            s.pc = s.pc + (lit(f),)
        return s
    def dead(s): return 'false' in s.pc

class Frame:
    __slots__ = ('id', 'this', 'fn', 'vars')
    def __init__(s, id, this, fn): s.id = id; s.this = this; s.fn = fn; s.vars = {}

class Obl:
    def __init__(s, fn, name, pc, goal, line, hints): s.fn = fn; s.name = name; s.pc = pc; s.goal = goal; s.line = line; s.hints = hints

def clsname(t):
    while t and t['k'] in ('ref', 'rref', 'ptr'): t = t['to']
    return t.get('n') if t and t['k'] == 'rec' else None

# floating point: values of an uninterpreted sort; 1 float, 2 double, 3 long double
FLK = {'float': 1, 'double': 2, 'long double': 3}
def flk(t):
    t = strip(t)
    if t['k'] != 'float' or t.get('n') not in FLK: raise Unsupported('floating point type %s' % t.get('n'))
    return FLK[t['n']]
def fl_compare(op, x, y):
    x, y = lit(x), lit(y)
    if op in ('==', '!='):
        m = re.match(r'fl_int\((\d), 0\)$', y) or re.match(r'fl_int\((\d), 0\)$', x)
        r = 'fl_zero(%s, %s)' % (m.group(1), x if y == m.group(0) else y) if m else 'fl_eq(%s, %s)' % (x, y)
        return r if op == '==' else not_(r)
    if op in ('>', '>='): x, y, op = y, x, op.replace('>', '<')
    return '%s(%s, %s)' % ('fl_lt' if op == '<' else 'fl_le', x, y)
def strip(t):
    while t['k'] in ('ref', 'rref'): t = t['to']
    return t

STRINGS = ('std::basic_string', 'std::basic_string_view')
def is_str(t):
    t = strip(t)
    return t['k'] == 'rec' and t['n'] in STRINGS

def int_range(ty):
    k, bits, sg = ty
    if bits == 0: return None
    if sg: return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1

def ity(t):
    t = strip(t)
    if t['k'] == 'int': return ('i', t['bits'], t['signed'])
    if t['k'] == 'enum': return ('enum', t['bits'], t['signed'])
    if t['k'] == 'bool': return ('bool', 1, False)
    raise Unsupported('not an integer type: %s' % t['k'])

class LoopSpec:
    def __init__(s, inv, dec=None, hints=(), force=False):
        s.inv = inv; s.dec = dec; s.hints = list(hints); s.force = force

class Contract:
    """requires/ensures are Verus terms with {role} placeholders (see Engine.subst)."""
    def __init__(s, q, name=None, when=None, requires=(), ensures=(), modifies=(), throws=None, throws_ens=(), ret=None, defs=None,
                 loops=(), setup=None, opaque=True, hints=(), measure=None, aliases=(), may_throw=False, trusted=False, props=(), split=False):
        s.split = split       # keep paths apart where they leave different texts behind
        s.q = q; s.name = name or q.split('::', 1)[-1]; s.when = when; s.requires = list(requires); s.ensures = list(ensures)
        s.modifies = list(modifies); s.throws = throws; s.throws_ens = list(throws_ens); s.ret = ret; s.defs = defs or {}
        s.loops = list(loops); s.setup = setup; s.opaque = opaque; s.hints = list(hints); s.measure = measure; s.aliases = list(aliases)
        s.may_throw = may_throw; s.trusted = trusted; s.props = list(props)
    def matches(s, f):
        return f['q'] == s.q and (s.when is None or s.when(f))

class Engine:
    def __init__(self, dump, contracts, std, log=None):
        self.funcs = {f['id']: f for f in dump['funcs']}
        self.records = dump['records']
        self.recs_by_name = {}
        for full, r in dump['records'].items():
            if r: self.recs_by_name.setdefault(r['n'], []).append((full, r))
        self.globals = dump['globals']; self.global_model = None
        self.contracts = contracts
        self.std = std
        self.decl = {}
        self.obls = []
        self.quiet = 0
        self.nsym = 0
        self.serial = 0
        self.nroot = 0
        self.cur_fn = ''
        self.line = 0
        self.used_std = set()
        self.used_contracts = set()
        self.inlined = set()
        self.cur_contract = None
        self.loop_no = 0
        self.depth = 0
        self.entry = {}
        self.steps = 0
        self.track = None
        self.axioms = {}
        self.paths = 0

    # ---------------------------------------------------------------- symbols
    def sym(self, base, sort):
        self.nsym += 1
        base = re.sub(r'[^A-Za-z0-9_]', '_', base)
        n = 'v%d_%s' % (self.nsym, base)
        self.decl[n] = sort
        return n

    def root(self, tag):
        self.nroot += 1
        return ('t', self.nroot, tag)

    def name_it(self, st, v, base='e'):
        """give long terms a name, so that terms do not blow up"""
        if isinstance(v, I) and isinstance(v.e, str) and len(v.e) > 90:
            n = self.sym(base, 'int'); st.assume('%s == %s' % (n, v.e)); return I(n, v.ty, None, v.lz, v.rg)
        if isinstance(v, B) and isinstance(v.e, str) and len(v.e) > 160:
            n = self.sym(base, 'bool'); st.assume('%s == (%s)' % (n, v.e)); return B(n)
        if isinstance(v, L) and len(v.e) > 90:
            n = self.sym(base, v.sort); st.assume('%s == %s' % (n, v.e)); return L(v.sort, n)
        if isinstance(v, R):
            return R(v.name, {k: self.name_it(st, x, base) for k, x in v.f.items()})
        if isinstance(v, W): return W(v.name, v.tag, self.name_it(st, v.val, base))
        if isinstance(v, O):
            if getattr(v, 'moved', False): return v
            return O(v.has if isinstance(v.has, bool) else self.name_it(st, B(v.has)).e, self.name_it(st, v.val, base) if v.val is not None else None, v.psort, v.kind)
        if isinstance(v, It) and isinstance(v.idx, str) and len(v.idx) > 90:
            n = self.sym(base, 'int'); st.assume('%s == %s' % (n, v.idx)); return v.at(n)
        return v

    def sort_of_type(self, t):
        t = strip(t)
        k = t['k']
        if k in ('int', 'enum'): return 'int'
        if k == 'bool': return 'bool'
        if k == 'float': return 'Fl'
        if k == 'rec':
            n = t['n']
            if n in STRINGS or n == 'std::filesystem::path': return 'Seq<u8>'
            if n in JREC: return JREC[n][0]
            if n in ('std::optional', 'std::unique_ptr', 'std::shared_ptr'): return 'Option<%s>' % self.sort_of_type(t['a'][0])
            if n in ('std::vector', 'std::list', 'std::deque', 'std::array', 'std::initializer_list'):
                return 'Seq<%s>' % self.sort_of_type(t['a'][0])
            if n in ('std::map', 'std::unordered_map'): return 'Map<%s, %s>' % (self.sort_of_type(t['a'][0]), self.sort_of_type(t['a'][1]))
            if n in ('std::set', 'std::unordered_set'): return 'Set<%s>' % self.sort_of_type(t['a'][0])
            if n == 'std::variant' and self.var_sort(t): return self.var_sort(t)
            if n == 'std::monostate': return '()'
            if n in ('std::pair', 'std::tuple'):
                xs = [self.sort_of_type(x) for x in t['a']]
                return '(' + ', '.join(xs) + (',' if len(xs) == 1 else '') + ')'
            if n in self.opaque_sorts: return self.opaque_sorts[n]
            if n in STRUCT: return STRUCT[n][0]
        raise Unsupported('no Verus sort for type %s %s' % (k, t.get('n', '')))

    opaque_sorts = {}

    def is_var(self, t):
        a = t.get('a', [])
        return len(a) == 3 and a[0].get('n') == 'std::basic_string' and a[1].get('n') == 'std::unique_ptr'

    def var_sort(self, t):
        if self.is_var(t): return 'Var'
        from c_value import tname
        return VARIANT_SORT.get(tname(t))

    def fresh(self, st, t, base, facts=True):
        """an arbitrary value of C++ type t (type invariants of machine integers and container sizes as facts)"""
        t = strip(t)
        k = t['k']
        if k in ('int', 'enum'):
            n = self.sym(base, 'int')
            if facts:
                lo, hi = int_range(ity(t)); st.assume('%s <= %s <= %d' % (lit(lo), n, hi))
            return I(n, ity(t))
        if k == 'bool': return B(self.sym(base, 'bool'))
        if k == 'float': return L('Fl', self.sym(base, 'Fl'))
        if k == 'rec':
            n = t['n']
            if n in ('std::pair', 'std::tuple'):
                return R('tuple', {i: self.fresh(st, x, base) for i, x in enumerate(t['a'])})
            if n in ('std::optional', 'std::unique_ptr', 'std::shared_ptr'):
                b = self.sym(base, 'bool'); return O(b, self.fresh(st, t['a'][0], base), self.sort_of_type(t['a'][0]), 'opt' if n == 'std::optional' else 'ptr')
            if n in ('std::monostate',): return Unit()
            if n == 'std::basic_ostream':
                import stdlib
                return R('ostream', {'buf': L('Seq<u8>', self.sym('buf', 'Seq<u8>')), 'prec': I(self.sym('prec', 'int'), stdlib.LL)})
            if n == 'std::basic_istream':
                import stdlib
                return stdlib.stream(self, st, self.sym('d', 'Seq<u8>'), self.sym('n', 'int'), self.sym('sk', 'bool'), self.sym('fail', 'bool'), self.sym('eof', 'bool'), self.sym('p', 'int'))
            recs = self.recs_by_name.get(n)
            if n not in JREC and n not in self.opaque_sorts and recs:
                full, r = recs[0]
                return R(n, {f['n']: self.fresh(st, f['t'], f['n']) for f in r['fields']})
            sort = self.sort_of_type(t)
            s = self.sym(base, sort)
            if n == 'std::array': st.assume('%s.len() == %s' % (s, t['a'][1]['v']))
            elif sort.startswith('Seq<') and facts: st.assume('%s.len() <= 0x7fff_ffff_ffff_ffff' % s)
            return leaf(sort, s)
        if k == 'ptr' and t['to'].get('k') == 'int' and t['to']['bits'] == 8:
            s = self.sym(base, 'Seq<u8>'); st.assume('no_nul(%s)' % s, '%s.len() <= 0x7fff_ffff_ffff_ffff' % s)
            return It('str', s, 0, ('lit', s), nul=True)
        if k == 'nullptr': return Unit()
        raise Unsupported('arbitrary value of type %s %s' % (k, t.get('n', '')))

    def default(self, st, t):
        """value-initialised / default constructed value"""
        t = strip(t); k = t['k']
        if k in ('int', 'enum'): return I(0, ity(t))
        if k == 'bool': return B(False)
        if k == 'float': return L('Fl', 'fl_int(%d, 0)' % flk(t))
        if k == 'ptr': return P(True, None)
        if k == 'rec':
            n = t['n']
            if n in STRINGS: return L('Seq<u8>', 'Seq::<u8>::empty()')
            if n in ('std::optional', 'std::unique_ptr', 'std::shared_ptr'): return O(False, None, self.sort_of_type(t['a'][0]), 'opt' if n == 'std::optional' else 'ptr')
            if n in ('std::vector', 'std::list', 'std::deque'):
                return L(self.sort_of_type(t), 'Seq::<%s>::empty()' % self.sort_of_type(t['a'][0]))
            if n == 'std::array':
                # elements of class type are default constructed, others are indeterminate: an arbitrary value stands for both
                return self.fresh(st, t, 'arr')
            if n in ('std::map', 'std::unordered_map'):
                return L(self.sort_of_type(t), 'Map::<%s, %s>::empty()' % (self.sort_of_type(t['a'][0]), self.sort_of_type(t['a'][1])))
            if n in ('std::set', 'std::unordered_set'): return L(self.sort_of_type(t), 'Set::<%s>::empty()' % self.sort_of_type(t['a'][0]))
            if n in ('std::pair', 'std::tuple'): return R('tuple', {i: self.default(st, x) for i, x in enumerate(t['a'])})
            if n == 'std::variant' and self.var_sort(t): return W(self.var_sort(t), 0, self.default(st, t['a'][0]))
            if n == 'std::monostate': return Unit()
            if n == 'json::value': return R('Value', {'ty': I(1, ('enum', 8, True)), 'raw': W('Var', 0, L('Seq<u8>', 'Seq::<u8>::empty()'))})
            if n == 'json::array': return R('Arr', {'d': L('Seq<Value>', 'Seq::<Value>::empty()')})
            if n == 'json::object': return R('Obj', {'d': L('Map<Seq<u8>, Value>', 'Map::<Seq<u8>, Value>::empty()')})
            recs = self.recs_by_name.get(n)
            if recs:
                full, r = recs[0]
                return R(n, {f['n']: self.default(st, f['t']) for f in r['fields']})
        raise Unsupported('default value of %s %s' % (k, t.get('n', '')))

    # ---------------------------------------------------------------- memory
    def tick(self):
        self.serial += 1
        return self.serial

    def mk(self, root, path=()):
        l = BLV(root, tuple(path)); l.born = self.tick(); return l

    def derive(self, st, lv, *steps):
        self.alive(st, lv)
        l = BLV(lv.root, lv.path + tuple(steps)); l.born = self.tick(); return l

    def alive(self, st, lv):
        born = getattr(lv, 'born', 0)
        for (ser, root, path) in st.kills:
            if ser > born and root == lv.root and (len(path) < len(lv.path) and lv.path[:len(path)] == path or may_contain(path, lv.path)):
                self.emit(st, 'no use of a released or invalidated object', False)
                return

    def kill(self, st, lv):
        st.kills = st.kills + ((self.tick(), lv.root, lv.path),)

    def proj(self, st, v, s):
        k = s[0]
        if k == 'f':
            if isinstance(v, L) and v.sort in ('Value', 'Arr', 'Obj'): v = leaf(v.sort, v.e)
            if not isinstance(v, R): raise Unsupported('field %s of %s' % (s[1], v.sort))
            if s[1] not in v.f: raise Unsupported('field %s' % s[1])
            return v.f[s[1]]
        if k == 't':
            if isinstance(v, R): return v.f[s[1]]
            if isinstance(v, L) and v.sort.startswith('('):
                return leaf(split_sorts(v.sort[1:-1])[s[1]], '%s.%d' % (v.e, s[1]))
            raise Unsupported('tuple element of %s' % v.sort)
        if k == 'i':
            if isinstance(v, L) and v.sort.startswith('Seq<'):
                es = v.sort[4:-1]
                e = '%s[%s]' % (v.e, lit(s[1]))
                if es == 'u8':
                    return I('sc(%s)' % e, ('i', 8, True), byte='(%s as int)' % e)
                return leaf(es, e)
            if isinstance(v, R) and v.name == 'carr':
                if isc(s[1]): return v.f[s[1]]
                raise Unsupported('symbolic index into a C array')
            raise Unsupported('index of %s' % v.sort)
        if k == 'k':
            if isinstance(v, L) and v.sort.startswith('Map<'):
                return leaf(split_sorts(v.sort[4:-1])[1], '%s[%s]' % (v.e, s[1]))
            raise Unsupported('key of %s' % v.sort)
        if k == 'o':
            if isinstance(v, O):
                if v.val is None:
                    # the object lives on in the pointer it was moved to: a reference to it is not followed there
                    if getattr(v, 'moved', False): raise Unsupported('access through a smart pointer that was moved from')
                    return L(v.psort, 'arbitrary::<%s>()' % v.psort)
                return v.val
            raise Unsupported('payload of %s' % v.sort)
        if k == 'alt':
            if isinstance(v, W):
                if v.tag == s[1]: return v.val
                return leaf(VARIANTS[v.name]['alts'][s[1]], VARIANTS[v.name]['get']('(%s)' % v.x(), s[1]))
            if isinstance(v, L) and v.sort in VARIANTS:
                return leaf(VARIANTS[v.sort]['alts'][s[1]], VARIANTS[v.sort]['get'](v.e, s[1]))
            raise Unsupported('alternative of %s' % v.sort)
        if k == 'desc':
            if isinstance(v, R) or isinstance(v, L) or isinstance(v, W):
                return leaf(s[2], 'desc_%s(%s, %s)' % (s[2].lower(), v.x(), s[1]))
        raise Unsupported('projection %s' % k)

    def upd(self, st, v, path, nv):
        if not path: return nv
        s = path[0]; k = s[0]
        if isinstance(v, L) and v.sort in ('Value', 'Arr', 'Obj'): v = leaf(v.sort, v.e)
        if k == 'desc':
            return L(sortof(v), 'upd_desc_%s(%s, %s, %s)' % (s[2].lower(), v.x(), s[1], self.upd(st, self.proj(st, v, s), path[1:], nv).x()))
        sub_ = self.proj(st, v, s) if len(path) > 1 else None
        n = self.upd(st, sub_, path[1:], nv)
        if k in ('f', 't') and isinstance(v, R):
            f = dict(v.f); f[s[1]] = n; return R(v.name, f)
        if k == 'i' and isinstance(v, L):
            return self.name_it(st, L(v.sort, '%s.update(%s, %s)' % (v.e, lit(s[1]), n.x() if v.sort != 'Seq<u8>' else tobyte(n))), 'sq')
        if k == 'i' and isinstance(v, R):
            f = dict(v.f); f[s[1]] = n; return R(v.name, f)
        if k == 'k': return self.name_it(st, L(v.sort, '%s.insert(%s, %s)' % (v.e, s[1], n.x())), 'mp')
        if k == 'o': return O(v.has, n, v.psort, v.kind)
        if k == 'alt':
            name = v.name if isinstance(v, W) else v.sort
            return W(name, s[1], n)
        raise Unsupported('update %s of %s' % (k, v.sort))

    def read(self, st, lv):
        self.alive(st, lv)
        if lv.root not in st.store: raise Unsupported('read of unknown object %r' % (lv.root,))
        v = st.store[lv.root]
        for s in lv.path: v = self.proj(st, v, s)
        return v

    def write(self, st, lv, nv, keep=False):
        self.alive(st, lv)
        if self.track is not None: self.track.append((lv.root, lv.path))
        if not lv.path: st.store[lv.root] = self.name_it(st, nv, 'w')
        else: st.store[lv.root] = self.upd(st, st.store[lv.root], lv.path, self.name_it(st, nv, 'w'))
        if not keep: self.kill(st, lv)

    # ---------------------------------------------------------------- obligations
    def emit(self, st, name, goal, hints=()):
        if goal is True or self.quiet or st.dead():
            if goal is True and not self.quiet: self.trivial = getattr(self, 'trivial', 0) + 1
            return
        hs = list(hints)
        self.obls.append(Obl(self.cur_fn, name, st.pc, lit(goal), self.line, hs))
        # what has been demanded may be used afterwards
        if goal is not False: st.assume(goal)

    # ---------------------------------------------------------------- monadic helpers
    def bind(self, rs, f):
        out = []
        for st, v in rs:
            if isinstance(v, Throw): out.append((st, v))
            else: out.extend(f(st, v))
        return out

    def evs(self, es, st):
        """evaluate a list of expressions left to right; argument expressions may be LVs"""
        rs = [(st, [])]
        for e in es:
            nrs = []
            for s, vs in rs:
                if isinstance(vs, Throw): nrs.append((s, vs)); continue
                for s2, v in self.ev(e, s):
                    nrs.append((s2, v if isinstance(v, Throw) else vs + [v]))
            rs = nrs
        return rs

    def rv(self, e, st):
        """evaluate to a value"""
        return self.bind(self.ev(e, st), lambda s, v: [(s, self.val(s, v))])

    def val(self, st, v):
        return self.read(st, v) if isinstance(v, LV) else v

    def lval(self, st, v, tag='tmp'):
        """as an lvalue (materialise a temporary when it is a value)"""
        if isinstance(v, LV): return v
        r = self.root(tag)
        st.store[r] = v
        return self.mk(r)

    # merging of states after branches
    def merge_vals(self, c, a, b):
        if a is b: return a
        if isinstance(a, LV) or isinstance(b, LV):
            if isinstance(a, LV) and isinstance(b, LV) and a.key() == b.key(): return a if a.born <= b.born else b
            raise NoMerge()
        if isinstance(a, I) and isinstance(b, I):
            ra, rb = a.range(), b.range()
            return I(ite(c, a.e, b.e), a.ty, None, min(a.zeros(), b.zeros()), (min(ra[0], rb[0]), max(ra[1], rb[1])) if ra and rb else None)
        if isinstance(a, B) and isinstance(b, B):
            if isinstance(a.e, bool) or isinstance(b.e, bool):
                return B(or_(and_(c, a.e), and_(not_(c), b.e)))
            return B(ite(c, a.e, b.e))
        if isinstance(a, Unit) and isinstance(b, Unit): return a
        if isinstance(a, It) and isinstance(b, It):
            if a.snap == b.snap and a.kind == b.kind and a.tok == b.tok and a.rev == b.rev: return a.at(ite(c, a.idx, b.idx))
            raise NoMerge()
        if isinstance(a, P) and isinstance(b, P):
            if a.lv is None and b.lv is None: return P(or_(and_(c, a.null), and_(not_(c), b.null)), None)
            if a.lv is None: return P(or_(c, b.null), b.lv)
            if b.lv is None: return P(or_(not_(c), a.null), a.lv)
            if a.lv.key() == b.lv.key(): return P(or_(and_(c, a.null), and_(not_(c), b.null)), a.lv)
            raise NoMerge()
        if isinstance(a, O) and isinstance(b, O) and a.psort == b.psort:
            has = or_(and_(c, a.has), and_(not_(c), b.has))
            if getattr(a, 'moved', False) and getattr(b, 'moved', False): return a
            if a.val is None: return O(has, b.val, a.psort, a.kind)
            if b.val is None: return O(has, a.val, a.psort, a.kind)
            return O(has, self.merge_vals(c, a.val, b.val), a.psort, a.kind)
        if isinstance(a, L) and isinstance(b, L) and a.sort == b.sort and a.e != b.e and a.sort.startswith('Seq<') and self.cur_contract is not None and self.cur_contract.split: raise NoMerge()
        if isinstance(a, L) and isinstance(b, L) and a.sort == b.sort: return L(a.sort, ite(c, a.e, b.e))
        if isinstance(a, R) and isinstance(b, R) and a.name == b.name and a.f.keys() == b.f.keys():
            return R(a.name, {k: self.merge_vals(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, W) and isinstance(b, W) and a.tag == b.tag: return W(a.name, a.tag, self.merge_vals(c, a.val, b.val))
        if isinstance(a, (W, L)) and isinstance(b, (W, L)) and sortof(a) == sortof(b): return L(sortof(a), ite(c, a.x(), b.x()))
        if isinstance(a, F) and isinstance(b, F) and a.node is b.node: return a
        raise NoMerge()

    def merge(self, base, c, x, y):
        """x,y: (state, value) reached under c / not c from base.  Returns one pair or raises NoMerge"""
        (s1, v1), (s2, v2) = x, y
        n = len(base.pc)
        if s1.pc[:n] != base.pc or s2.pc[:n] != base.pc: raise NoMerge()
        if s1.frames != s2.frames: raise NoMerge()
        e1 = s1.pc[n:]; e2 = s2.pc[n:]
        if getattr(self.cur_contract, 'inl', None) and {k for k in set(s1.kills) ^ set(s2.kills) if k[1] in base.store}: raise NoMerge()
        v = None
        if v1 is not None or v2 is not None:
            if v1 is None or v2 is None: raise NoMerge()
            v = self.merge_vals(c, v1, v2) if isinstance(v1, (Val, LV)) else (v1 if v1 == v2 else (_ for _ in ()).throw(NoMerge()))
        st = State(base.pc, {}, s1.kills if len(s1.kills) >= len(s2.kills) else s2.kills, s1.frames)
        st.kills = tuple(sorted(set(s1.kills) | set(s2.kills), key=lambda t: t[0]))
        named = []
        for k in s1.store:
            if k in s2.store:
                a, b = s1.store[k], s2.store[k]
                try:
                    m_ = self.merge_vals(c, a, b)
                    if m_ is not a and m_ is not b: named.append(k)
                    st.store[k] = m_
                except NoMerge:
                    if k in base.store: raise
            # objects created in one branch only are out of scope afterwards
        for f in e1:
            if f != lit(c): st.pc = st.pc + (lit(imp(c, f)),)
        nc = lit(not_(c))
        for f in e2:
            if f != nc: st.pc = st.pc + (lit(imp(not_(c), f)),)
        for k in named:
            x = st.store[k]
            if isinstance(x, I) and isinstance(x.e, str) and len(x.e) > 30:
                n_ = self.sym('m', 'int'); st.assume('%s == %s' % (n_, x.e)); st.store[k] = I(n_, x.ty, None, x.lz, x.rg)
            elif isinstance(x, L) and len(x.e) > 30:
                n_ = self.sym('m', x.sort); st.assume('%s == %s' % (n_, x.e)); st.store[k] = L(x.sort, n_)
        return st, v

    def branch(self, st, c):
        """split on condition c -> list of (state, bool)"""
        if c is True: return [(st, True)]
        if c is False: return [(st, False)]
        a = st.fork().assume(c); b = st.fork().assume(not_(c))
        return [(a, True), (b, False)]

    # ---------------------------------------------------------------- casts and arithmetic
    def conv(self, st, v, ty):
        """integer conversion to ty=(kind,bits,signed); modular"""
        k, bits, sg = ty
        if isinstance(v, B):
            if k == 'bool': return v
            return I(ite(v.e, 1, 0), ty)
        if not isinstance(v, I): raise Unsupported('integer conversion of %s' % v.sort)
        if k == 'bool':
            return B(not_(eq(v.e, 0)))
        if bits == 0: return I(v.e, v.ty, v.byte)
        if v.byte is not None and not sg and v.ty[1] == 8 and v.ty[2]:
            if bits == 8: return I(v.byte, ty)
        n = 1 << bits
        if isc(v.e):
            x = v.e % n
            if sg and x >= n // 2: x -= n
            return I(x, ty, None)
        src = v.range()
        lo, hi = int_range(ty)
        if src and lo <= src[0] and src[1] <= hi: return I(v.e, ty, v.byte, v.lz, v.rg)
        lz = min(v.zeros(), bits - 1)
        if not sg: return self.name_it(st, I('wrapu(%s, %d)' % (lit(v.e), n), ty, None, lz))
        b8 = None
        if bits == 8:       # as a char: remember the byte
            b8 = lit(v.e) if src and 0 <= src[0] and src[1] < 256 else 'wrapu(%s, 256)' % lit(v.e)
        return I('wraps(%s, %d)' % (lit(v.e), n), ty, b8, lz)

    def arith(self, st, op, a, b, ty, what='arithmetic'):
        """a,b already converted to the operation type ty"""
        x, y = a.e, b.e
        lo, hi = int_range(ty) if ty[1] else (None, None)
        sg = ty[2]
        ra, rb = a.range(), b.range()
        rg = None; lz = 0
        if ra and rb:
            if op == '+': rg = (ra[0] + rb[0], ra[1] + rb[1])
            elif op == '-': rg = (ra[0] - rb[1], ra[1] - rb[0])
            elif op == '*': c4 = [p * q for p in ra for q in rb]; rg = (min(c4), max(c4))
            elif op == '<<' and isc(y) and 0 <= y < 64: rg = (ra[0] << y, ra[1] << y)
            elif op == '>>' and isc(y) and 0 <= y < 64: rg = (ra[0] >> y, ra[1] >> y)
        if op == '<<' and isc(y): lz = a.zeros() + y
        if op in '+-|': lz = min(a.zeros(), b.zeros())
        if op == '&': lz = max(a.zeros(), b.zeros())
        def fin(e):
            r = fin0(e)
            if not isc(r.e):
                r.lz = min(lz, 62)
                if rg and lo is not None and lo <= rg[0] and rg[1] <= hi: r.rg = rg
            return r
        def fin0(e):
            if isc(e):
                if lo is None or lo <= e <= hi: return I(e, ty)
                if sg:
                    self.emit(st, 'no signed overflow', False); return I(e, ty)
                return I(e % (hi + 1), ty)
            if ty[1] == 0: return I(e, ty)
            if sg:
                self.emit(st, 'no signed overflow', '%s <= %s <= %d' % (lit(lo), e, hi)) if op not in ('%', '&', '|', '^', '>>') else None
                return I(e, ty)
            if op in ('%', '&', '|', '^', '>>', '/'): return I(e, ty)
            if rg and lo <= rg[0] and rg[1] <= hi: return I(e, ty)
            if op == '+' and isc(y) and isinstance(x, str) and False: return I(e, ty)
            return I('wrapu(%s, %d)' % (e, hi + 1), ty)
        if op == '+': return fin(add(x, y))
        if op == '-': return fin(sub(x, y))
        if op == '*': return fin(mul(x, y))
        if op in ('/', '%'):
            self.emit(st, 'divisor is not zero', not_(eq(y, 0)))
            if isc(x) and isc(y) and y != 0:
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return fin(q if op == '/' else x - q * y)
            if sg: return fin('%s(%s, %s)' % ('cdiv' if op == '/' else 'cmod', lit(x), lit(y)))
            return fin('(%s %s %s)' % (lit(x), op, lit(y)))
        if op in ('<<', '>>'):
            if not isc(y): raise Unsupported('shift by a variable amount')
            self.emit(st, 'shift amount in range', 0 <= y < ty[1])
            if op == '<<':
                if sg: self.emit(st, 'left shift of a negative number', le(0, x))
                return fin(mul(x, 1 << y))
            return fin(ediv(x, 1 << y))
        def mask(x, c):   # x & c for a constant c of at most three runs of ones, on two's complement: exact
            runs = [(m.start(), m.end()) for m in re.finditer('1+', bin(c)[:1:-1])]
            if not 0 < len(runs) <= 3: return None
            r = 0
            for i, j in runs: r = add(r, mul(emod(ediv(x, 1 << i), 1 << (j - i)), 1 << i))
            return r
        if op in ('&', '|', '^'):
            if isc(x) and isc(y):
                return fin({'&': x & y, '|': x | y, '^': x ^ y}[op])
            if isc(x): x, y = y, x
            if op == '&':
                if isc(y) and y >= 0 and (y & (y + 1)) == 0:
                    return I(emod(x, y + 1), ty, None, 0, (0, y))
                if isc(y) and y < 0 and ((-1 - y) & -y) == 0 and sg: return I(sub(x, emod(x, -y)), ty)      # ...111000
                m = mask(x, y) if isc(y) and y >= 0 else None
                if m is not None: return I(m, ty, None, 0, (0, y))
                r = self.sym('band', 'int')
                st.assume('%s == band(%s, %s)' % (r, lit(x), lit(y)))
                st.assume('(0 <= %s && 0 <= %s) ==> 0 <= %s <= %s && %s <= %s' % (lit(x), lit(y), r, lit(x), r, lit(y)))
                return I(r, ty)
            if op == '|':
                if isc(x) and x == 0: return I(y, ty)
                if isc(y) and y == 0: return I(x, ty)
                za, zb = (a, b) if a.e == x else (b, a)
                for hi_, lo_ in ((za, zb), (zb, za)):
                    z = hi_.zeros(); r_ = lo_.range()
                    if z and r_ and 0 <= r_[0] and r_[1] < (1 << z) and (not sg or hi_.range()[0] >= 0):
                        return fin(add(hi_.e, lo_.e))
                m = mask(x, y) if isc(y) and y >= 0 and not any(h.zeros() and not isc(h.e) for h in (za, zb)) else None
                if m is not None: return I(sub(add(x, y), m), ty)
                r = self.sym('bor', 'int')
                done_ = False
                for hi_, lo_ in ((za, zb), (zb, za)):
                    z = hi_.zeros()
                    if z and not isc(hi_.e):
                        c0 = '' if hi_.range()[0] >= 0 else '0 <= %s && ' % lit(hi_.e)
                        st.assume('(%s0 <= %s < %d) ==> %s == %s + %s' % (c0, lit(lo_.e), 1 << min(z, 31), r, lit(hi_.e), lit(lo_.e)))
                        done_ = True
                if done_: return I(r, ty)
                for k in (3, 4, 5, 6, 7, 8, 10):
                    m = 1 << k
                    for (u, w) in ((x, y), (y, x)):
                        if isc(u) and (u % m or u < 0): continue
                        if isc(w) and not (0 <= w < m): continue
                        st.assume('bor_fact(%s, %s, %s, %d)' % (lit(u), lit(w), r, m))
                return I(r, ty)
            m = mask(x, y) if isc(y) and y >= 0 else None
            if m is not None: return I(sub(add(x, y), mul(m, 2)), ty)
            r = self.sym('bxor', 'int')
            return I(r, ty)
        raise Unsupported('operator ' + op)

    def compare(self, st, op, a, b):
        a = self.val(st, a); b = self.val(st, b)
        if isinstance(a, It) and isinstance(b, It): return self.it_compare(st, op, a, b)
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, P):
                if b.null is True: r = a.null
                elif a.null is True: r = b.null
                elif a.lv is not None and b.lv is not None and a.lv.key() == b.lv.key(): r = True
                else: raise Unsupported('pointer comparison')
                return r if op == '==' else not_(r)
            if isinstance(a, It) or isinstance(b, It):   # char* against nullptr
                p = a if isinstance(a, P) else b
                if p.null is True: return op != '=='
            raise Unsupported('pointer comparison')
        if isinstance(a, B) and isinstance(b, B):
            r = eq(a.e, b.e); return r if op == '==' else not_(r)
        x, y = a.e, b.e
        if a.sort == 'Fl' or b.sort == 'Fl': return fl_compare(op, x, y)
        if a.byte is not None and isc(y) and 0 <= y < 128 and op in ('==', '!='): x = a.byte
        if b.byte is not None and isc(x) and 0 <= x < 128 and op in ('==', '!='): y = b.byte
        if op == '==': return eq(x, y)
        if op == '!=': return not_(eq(x, y))
        if op == '<': return lt(x, y)
        if op == '<=': return le(x, y)
        if op == '>': return lt(y, x)
        if op == '>=': return le(y, x)
        raise Unsupported(op)

    def it_compare(self, st, op, a, b):
        if a.kind == 'str' and a.tok != b.tok and a.snap != b.snap:
            self.emit(st, 'compared iterators belong to the same container', False)
        elif a.tok != b.tok and a.snap != b.snap:
            self.emit(st, 'compared iterators belong to the same container', False)
        if a.rev != b.rev: raise Unsupported('iterator comparison')
        x, y = (b.idx, a.idx) if a.rev else (a.idx, b.idx)
        if op == '==': return eq(x, y)
        if op == '!=': return not_(eq(x, y))
        if op == '<': return lt(x, y)
        if op == '<=': return le(x, y)
        if op == '>': return lt(y, x)
        if op == '>=': return le(y, x)

    def it_len(self, it):
        if it.kind == 'map': return '(ks(%s).len() as int)' % it.snap
        if it.snap.startswith('seq![') and ';' not in it.snap: return it.snap.count('u8')
        if it.snap == 'Seq::<u8>::empty()': return 0
        return '(%s.len() as int)' % it.snap

    def it_valid(self, st, it):
        lv = it.lv
        if lv is None: return
        for (ser, root, path) in st.kills:
            if ser > it.born and root == lv.root and lv.path[:len(path)] == path and len(path) <= len(lv.path):
                self.emit(st, 'no use of an iterator invalidated by a modification of its container', False)
                return
        try:
            cur = self.read(st, lv)
        except Unsupported:
            return
        if isinstance(cur, L) and cur.e != it.snap:
            if it.kind == 'str': self.emit(st, 'iterator was not invalidated by a modification of its container', '%s == %s' % (cur.e, it.snap))
            if it.kind == 'map': self.emit(st, 'iterated map keeps its keys', '%s.dom() =~= %s.dom()' % (cur.e, it.snap))

    def it_deref(self, st, it):
        """-> LV or value designated by an iterator"""
        if it.rev: it = it.at(sub(it.idx, 1)); it.rev = False   # a reverse iterator designates the element before its base
        n = self.it_len(it)
        self.it_valid(st, it)
        nul = it.nul or it.kind == 'str' and it.cstr
        hi = lt(it.idx, n) if not nul else le(it.idx, n)
        self.emit(st, 'iterator or pointer is dereferenceable (inside its container)', and_(le(0, it.idx), hi))
        if it.kind == 'str':
            e = '%s[%s]' % (it.snap, lit(it.idx))
            if nul:
                return I('(if %s < %s { sc(%s) } else { 0 })' % (lit(it.idx), n, e), ('i', 8, True), byte='(if %s < %s { %s as int } else { 0 })' % (lit(it.idx), n, e))
            return I('sc(%s)' % e, ('i', 8, True), byte='(%s as int)' % e)
        if it.kind == 'vec':
            if it.lv is not None:
                cur = self.read(st, it.lv)
                if isinstance(cur, L) and cur.e != it.snap:
                    self.emit(st, 'iterator is inside its container', lt(it.idx, '(%s.len() as int)' % cur.e))
                return self.derive(st, it.lv, ('i', it.idx))
            return self.proj(st, L(it.sort_, it.snap), ('i', it.idx))
        if it.kind == 'map':
            key = 'ks(%s)[%s]' % (it.snap, lit(it.idx))
            kn = self.sym('key', 'Seq<u8>'); st.assume('%s == %s' % (kn, key), '%s.dom().contains(%s)' % (it.snap, kn))
            return R('mapentry', {'first': L('Seq<u8>', kn), 'second': self.derive(st, it.lv, ('k', kn))})
        raise Unsupported('dereference of %s iterator' % it.kind)

    def it_add(self, st, it, d):
        n = self.it_len(it)
        r = add(it.idx, d)
        self.emit(st, 'iterator stays inside its container', and_(le(0, r), le(r, n)))
        return it.at(r)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > 400000: raise Unsupported('too many steps')
        if e is None: return [(st, Unit())]
        if 'l' in e: self.line = e['l'] or self.line
        t = e.get('t')
        if 'ce' in e and e.get('vk') == 'r' and t and t['k'] in ('int', 'enum', 'bool'):
            v = int(e['ce'])
            return [(st, B(bool(v)) if t['k'] == 'bool' else I(v, ity(t)))]
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsupported('expression %s' % e['k'])
        return m(e, st)

    def pass1(self, e, st): return self.ev(e['c'][0], st)
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = pass1
    e_CXXDefaultArgExpr = e_CXXDefaultInitExpr = pass1

    def e_MaterializeTemporaryExpr(self, e, st):
        def f(s, v):
            if isinstance(v, LV): return [(s, v)]
            return [(s, self.lval(s, v))]
        return self.bind(self.ev(e['c'][0], st), f)

    def e_CXXStdInitializerListExpr(self, e, st):
        def f(s, v):
            v = self.val(s, v); sort = self.sort_of_type(e['t'])
            if not (isinstance(v, R) and v.name == 'carr'): raise Unsupported('initializer list')
            return [(s, L(sort, 'seq![%s]' % ', '.join(v.f[i].x() for i in sorted(v.f)) if v.f else 'Seq::<%s>::empty()' % sort[4:-1]))]
        return self.bind(self.ev(e['c'][0], st), f)

    def e_CXXBoolLiteralExpr(self, e, st): return [(st, B(bool(e['v'])))]
    def e_IntegerLiteral(self, e, st): return [(st, I(int(e['v']), ity(e['t'])))]
    e_CharacterLiteral = e_IntegerLiteral
    def e_CXXNullPtrLiteralExpr(self, e, st): return [(st, P(True, None))]
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def lit_seq(self, bs):
        if not bs: return 'Seq::<u8>::empty()'
        return 'seq![%s]' % ', '.join('%du8' % (b & 255) for b in bs)

    def e_StringLiteral(self, e, st):
        s = self.lit_seq(e['v'])
        return [(st, It('str', s, 0, ('lit', s), nul=True))]
    e_PredefinedExpr = e_StringLiteral

    def e_CXXThisExpr(self, e, st):
        return [(st, P(False, st.frames[-1].this))]

    def e_FloatingLiteral(self, e, st):
        k = flk(e['t']); n, d = float(e['v']).as_integer_ratio()
        if d == 1: return [(st, L('Fl', 'fl_int(%d, %s)' % (k, lit(n))))]
        return [(st, L('Fl', 'fl_lit(%d, %s, %d)' % (k, lit(n), d)))]

    def frame_root(self, st, vid):
        for fr in reversed(st.frames):
            if vid in fr.vars: return fr.vars[vid]
        raise Unsupported('variable %d' % vid)

    def var_lv(self, st, vid):
        r = self.frame_root(st, vid)
        v = st.store.get(r)
        if isinstance(v, LV): return v
        return self.mk(r)

    def e_DeclRefExpr(self, e, st):
        dk = e['dk']
        if dk in ('var', 'parm', 'binding'):
            return [(st, self.var_lv(st, e['id']))]
        if dk == 'enumc': return [(st, I(int(e['v']), ity(e['t'])))]
        if dk == 'global': return [(st, self.global_lv(st, e))]
        if dk == 'fn': return [(st, F(e, None, None))]
        raise Unsupported('reference to %s %s' % (dk, e['n']))

    def global_lv(self, st, e):
        r = ('g', e['gfull'])
        if r not in st.store:
            g = self.globals.get(e['gfull'])
            m = self.global_model(self, e) if self.global_model else None
            if m is not None: st.store[r] = m; return self.mk(r)
            if not g or 'val' not in g: raise Unsupported('global %s' % e['gq'])
            st.store[r] = self.const_val(g['val'], g['t'])
        return self.mk(r)

    def const_val(self, v, t):
        t = strip(t)
        if 'i' in v and t['k'] == 'bool': return B(bool(int(v['i'])))
        if 'i' in v: return I(int(v['i']), ity(t))
        if t['k'] == 'rec' and t['n'] == 'std::basic_string_view':
            ln = int(v['s'][0]['i']); p = v['s'][1]
            if ln == 0: return L('Seq<u8>', 'Seq::<u8>::empty()')
            off = p.get('off', 0)
            return L('Seq<u8>', self.lit_seq(p['str'][off:off + ln]))
        if t['k'] == 'rec' and t['n'] == 'std::array':
            xs = v['s'][0]['a']
            els = [self.const_val(x, t['a'][0]) for x in xs]
            return R('carr', {i: x for i, x in enumerate(els)})
        if t['k'] == 'arr':
            return R('carr', {i: self.const_val(x, t['to']) for i, x in enumerate(v['a'])})
        if t['k'] == 'rec' and 's' in v and not v['s']: return R(t['n'], {})
        if t['k'] == 'ptr' and 'str' in v:
            bs = v['str']
            return It('str', self.lit_seq(bs), v.get('off', 0), ('lit', self.lit_seq(bs)), nul=True)
        raise Unsupported('constant of type %s' % t.get('n', t['k']))

    def jfield(self, e):
        """map an AST field to the Verus field"""
        rec = e['rec'].get('n')
        if rec in JREC:
            r = self.recs_by_name[rec][0][1]
            names = [f['n'] for f in r['fields']]
            if rec == 'json::value':
                if len(names) != 2: raise Unsupported('unexpected layout of json::value')
                ft = r['fields'][names.index(e['n'])]['t']
                return 'ty' if ft['k'] == 'enum' else 'raw'
            if len(names) != 1: raise Unsupported('unexpected layout of ' + rec)
            return 'd'
        return e['n']

    def e_MemberExpr(self, e, st):
        dk = e['dk']
        if dk == 'global': return [(st, self.global_lv(st, e))]
        if dk != 'field': raise Unsupported('member %s' % e['n'])
        def f(s, b):
            if e.get('arrow'):
                b = self.val(s, b)
                b = self.deref_ptr(s, b)
            rec = e['rec'].get('n', '')
            name = e['n']
            if rec in ('std::pair',): step = ('t', 0 if name == 'first' else 1)
            else: step = ('f', self.jfield(e))
            if isinstance(b, R) and b.name == 'mapentry':
                x = b.f[name]
                if isinstance(x, LV): return [(s, x)]
                return [(s, self.lval(s, x))]
            if isinstance(b, LV):
                cur = self.read(s, b)
                if isinstance(cur, R) and cur.name == 'mapentry':
                    x = cur.f[name]
                    return [(s, x if isinstance(x, LV) else self.derive(s, b, ('f', name)))]
                l = self.derive(s, b, step)
                # reference members
                v = self.read(s, l)
                if isinstance(v, LV): return [(s, v)]
                return [(s, l)]
            return [(s, self.proj(s, b, step))]
        return self.bind(self.ev(e['c'][0], st), f)

    def deref_ptr(self, st, p):
        if isinstance(p, LV): p = self.read(st, p)
        if isinstance(p, P):
            self.emit(st, 'no null pointer dereference', not_(p.null))
            if p.lv is None: raise Unsupported('null pointer dereference')
            return p.lv
        if isinstance(p, It): return self.it_deref(st, p)
        raise Unsupported('dereference of %s' % p.sort)

    def e_ImplicitCastExpr(self, e, st):
        ck = e['ck']; c = e['c'][0]
        if ck == 'LValueToRValue': return self.rv(c, st)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'ToVoid', 'DerivedToBase', 'UncheckedDerivedToBase'):
            rs = self.ev(c, st)
            return rs
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            ty = ity(e['t'])
            return self.bind(self.rv(c, st), lambda s, v: [(s, self.conv(s, v, ty))])
        if ck == 'ArrayToPointerDecay':
            def f(s, v):
                if isinstance(v, It): return [(s, v)]
                if isinstance(v, LV):
                    cur = self.read(s, v)
                    if isinstance(cur, It): return [(s, cur)]
                    if isinstance(cur, L) and cur.sort == 'Seq<u8>':
                        return [(s, It('str', cur.e, 0, v.key(), lv=v))]
                raise Unsupported('array decay')
            return self.bind(self.ev(c, st), f)
        if ck == 'NullToPointer': return [(st, P(True, None))]
        if ck == 'PointerToBoolean':
            def f(s, v):
                if isinstance(v, P): return [(s, B(not_(v.null)))]
                if isinstance(v, It): return [(s, B(True))]
                raise Unsupported('pointer to bool')
            return self.bind(self.rv(c, st), f)
        if ck == 'BitCast':
            return self.rv(c, st)
        if ck == 'FloatingCast':
            a, b = flk(c['t']), flk(e['t'])
            return self.bind(self.rv(c, st), lambda s, v: [(s, v if a == b else L('Fl', 'fl_cast(%d, %d, %s)' % (a, b, v.e)))])
        if ck == 'IntegralToFloating':
            return self.bind(self.rv(c, st), lambda s, v: [(s, L('Fl', 'fl_int(%d, %s)' % (flk(e['t']), lit(v.e))))])
        raise Unsupported('cast ' + ck)
    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXReinterpretCastExpr(self, e, st): raise Unsupported('reinterpret_cast')

    def e_UnaryOperator(self, e, st):
        op = e['op']; c = e['c'][0]
        if op == '!':
            def f(s, v):
                if isinstance(v, I): return [(s, B(eq(v.e, 0)))]
                return [(s, B(not_(v.e)))]
            return self.bind(self.rv(c, st), f)
        if op in ('++', '--'):
            def f(s, l):
                v = self.read(s, l)
                if isinstance(v, It):
                    nv = self.it_add(s, v, 1 if op == '++' else -1)
                else:
                    ty = v.ty
                    one = I(1, ty)
                    pty = ty if ty[1] >= 32 else ('i', 32, True)
                    nv = self.arith(s, '+' if op == '++' else '-', v, one, pty)
                    nv = self.conv(s, nv, ty)
                self.write(s, l, nv, keep=True)
                return [(s, v if e.get('post') else l)]
            return self.bind(self.ev(c, st), f)
        if op == '*':
            return self.bind(self.rv(c, st), lambda s, v: [(s, self.deref_ptr(s, v))])
        if op == '&':
            def f(s, l):
                if isinstance(l, LV):
                    return [(s, P(False, l))]
                if isinstance(l, I) and l.byte is not None: return [(s, ('addr', l))]
                raise Unsupported('address-of')
            if c.get('k') == 'ParenExpr': c = c['c'][0]
            if is_it_deref(c):
                # &(*it): a pointer to the element, not an access
                return self.bind(self.rv(c['c'][0], st), lambda s, v: [(s, v if isinstance(v, It) and v.kind == 'str' else P(False, self.deref_ptr(s, v)))])
            return self.bind(self.ev(c, st), f)
        if op == '-':
            ty = ity(e['t'])
            return self.bind(self.rv(c, st), lambda s, v: [(s, self.arith(s, '-', I(0, ty), self.conv(s, v, ty), ty))])
        if op == '+': return self.rv(c, st)
        if op == '~':
            ty = ity(e['t'])
            def f(s, v):
                if ty[2]: return [(s, I(sub(-1, v.e), ty))]
                return [(s, I(sub((1 << ty[1]) - 1, v.e), ty))]
            return self.bind(self.rv(c, st), f)
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, e, st):
        op = e['op']; a, b = e['c']
        if op == ',':
            return self.bind(self.ev(a, st), lambda s, v: self.ev(b, s))
        if op in ('&&', '||'):
            out = []
            for s, v in self.rv(a, st):
                if isinstance(v, Throw): out.append((s, v)); continue
                c = v.e
                if isinstance(c, bool):
                    if c == (op == '&&'): out.extend(self.rv(b, s))
                    else: out.append((s, v))
                    continue
                s1 = s.fork().assume(c if op == '&&' else not_(c))
                s2 = s.fork().assume(not_(c) if op == '&&' else c)
                rs = self.rv(b, s1)
                if len(rs) == 1 and not isinstance(rs[0][1], Throw):
                    try:
                        if op == '&&': out.append(self.merge(s, c, rs[0], (s2, B(False))))
                        else: out.append(self.merge(s, not_(c), rs[0], (s2, B(True))))
                        # keep the readable form
                        out[-1] = (out[-1][0], B(and_(c, rs[0][1].e) if op == '&&' else or_(c, rs[0][1].e)))
                        continue
                    except NoMerge:
                        pass
                out.extend(rs); out.append((s2, B(op == '||')))
            return out
        if op == '=':
            def f(s, vs):
                l, r = vs
                self.write(s, l, self.val(s, r), keep=True)
                return [(s, l)]
            # right operand first (C++17)
            out = []
            for s, v in self.rv(b, st):
                if isinstance(v, Throw): out.append((s, v)); continue
                for s2, l in self.ev(a, s):
                    if isinstance(l, Throw): out.append((s2, l)); continue
                    if not isinstance(l, LV): raise Unsupported('assignment target')
                    self.write(s2, l, v, keep=True); out.append((s2, l))
            return out
        if op in ('==', '!=', '<', '<=', '>', '>='):
            def f(s, vs): return [(s, B(self.compare(s, op, vs[0], vs[1])))]
            return self.bind(self.evs([a, b], st), f)
        ty = ity(e['t']) if e['t']['k'] in ('int', 'enum', 'bool') else None
        def f(s, vs):
            x, y = [self.val(s, v) for v in vs]
            if isinstance(x, It) or isinstance(y, It):
                if isinstance(x, It) and isinstance(y, It) and op == '-':
                    if x.tok != y.tok: self.emit(s, 'subtracted iterators belong to the same container', False)
                    return [(s, I(sub(x.idx, y.idx), ('i', 64, True)))]
                if isinstance(x, I): x, y = y, x
                d = y.e if op == '+' else sub(0, y.e)
                return [(s, self.it_add(s, x, d))]
            return [(s, self.arith(s, op, x, y, ty))]
        return self.bind(self.evs([a, b], st), f)

    def e_CompoundAssignOperator(self, e, st):
        op = e['op'][:-1]; a, b = e['c']
        def go(s, y):
            def f(s2, l):
                x = self.read(s2, l)
                if isinstance(x, It):
                    nv = self.it_add(s2, x, y.e if op == '+' else sub(0, y.e))
                else:
                    ct = ity(e['clt'])
                    # shifts keep the type of the left operand
                    yy = y if op in ('<<', '>>') else self.conv(s2, y, ct)
                    nv = self.arith(s2, op, self.conv(s2, x, ct), yy, ity(e['ct']))
                    nv = self.conv(s2, nv, ity(e['t']))
                self.write(s2, l, nv, keep=True)
                return [(s2, l)]
            return self.bind(self.ev(a, s), f)
        return self.bind(self.rv(b, st), go)

    def e_ConditionalOperator(self, e, st):
        out = []
        for s, c in self.rv(e['c'][0], st):
            if isinstance(c, Throw): out.append((s, c)); continue
            br = self.branch(s, c.e)
            if len(br) == 1:
                out.extend(self.ev(e['c'][1] if br[0][1] else e['c'][2], br[0][0])); continue
            ra = self.ev(e['c'][1], br[0][0]); rb = self.ev(e['c'][2], br[1][0])
            if len(ra) == 1 and len(rb) == 1 and not isinstance(ra[0][1], Throw) and not isinstance(rb[0][1], Throw):
                try:
                    out.append(self.merge(s, c.e, ra[0], rb[0])); continue
                except NoMerge:
                    pass
            out.extend(ra); out.extend(rb)
        return out

    def e_InitListExpr(self, e, st):
        t = e['t']
        if t['k'] in ('int', 'enum', 'bool', 'ptr', 'float'):
            return self.rv(e['c'][0], st) if e.get('c') else [(st, self.default(st, t))]
        if t['k'] == 'rec':
            recs = self.recs_by_name.get(t['n'])
            if t['n'] in ('std::monostate', 'std::integer_sequence'): return [(st, Unit())]
            if recs:
                r = recs[0][1]
                def f(s, vs):
                    fs = {}
                    for fd, v in zip(r['fields'], vs):
                        fs[fd['n']] = v if fd['t']['k'] in ('ref', 'rref') and isinstance(v, LV) else self.val(s, v)
                    return [(s, R(t['n'], fs))]
                return self.bind(self.evs(e.get('c') or [], st), f)
        if t['k'] == 'arr':
            return self.bind(self.evs(e.get('c') or [], st), lambda s, vs: [(s, R('carr', {i: self.val(s, v) for i, v in enumerate(vs)}))])
        raise Unsupported('init list of %s' % t.get('n', t['k']))

    def e_CXXScalarValueInitExpr(self, e, st): return [(st, self.default(st, e['t']))]
    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_LambdaExpr(self, e, st):
        caps = {}
        this = st.frames[-1].this
        for c in e['caps']:
            if c.get('this'): continue
            lv = self.var_lv(st, c['id'])
            if c.get('byref'): caps[c['id']] = lv
            else: caps[c['id']] = self.read(st, lv)
        return [(st, F(e, caps, this))]

    def e_CXXThrowExpr(self, e, st):
        c = e.get('c') or [None]
        t = c[0]['t'] if c and c[0] else {'k': 'rethrow'}
        thr = Throw(t.get('n', 'rethrow'))
        # the message of the exception is not specified, but building it must be allowed where it is built
        x = c[0]
        while isinstance(x, dict) and (not str(x.get('k', '')).startswith(('CXXConstruct', 'CXXTemporaryObject')) or x.get('copy') or x.get('move')) and len(x.get('c') or []) == 1: x = x['c'][0]
        self.used_std.add('exception construction (message text not specified)')
        if not isinstance(x, dict) or not x.get('c'): return [(st, thr)]
        out = []
        for s2, v in self.rvs(x['c'], st) if False else self.ev(x['c'][0], st):
            out.append((s2, v if isinstance(v, Throw) else thr))
        return out

    def e_ArraySubscriptExpr(self, e, st):
        def f(s, vs):
            b, i = [self.val(s, v) for v in vs]
            if isinstance(b, It):
                return [(s, self.it_deref(s, b.at(add(b.idx, i.e))))]
            raise Unsupported('subscript')
        return self.bind(self.evs(e['c'], st), f)

    def e_TypeTraitExpr(self, e, st): return [(st, B(bool(e['v'])))]
    e_CXXNoexceptExpr = e_TypeTraitExpr

    # ---------------------------------------------------------------- calls
    def e_CallExpr(self, e, st):
        if 'fn' not in e: raise Unsupported('indirect call')
        return self.bind(self.evs(e.get('c') or [], st), lambda s, vs: self.call(s, e, None, vs))

    def e_CXXMemberCallExpr(self, e, st):
        if 'fn' not in e: raise Unsupported('indirect call')
        def f(s, vs):
            o = vs[0]
            if e.get('arrow'): o = self.deref_ptr(s, o if not isinstance(o, LV) else self.read(s, o))
            return self.call(s, e, o, vs[1:])
        return self.bind(self.evs(e['c'], st), f)

    def e_CXXOperatorCallExpr(self, e, st):
        if 'fn' not in e: raise Unsupported('indirect operator call')
        def f(s, vs):
            if e.get('memop'): return self.call(s, e, vs[0], vs[1:])
            return self.call(s, e, None, vs)
        cs = e['c']
        if e.get('oo', '').endswith('=') and e.get('oo') not in ('==', '!=', '<=', '>='):
            # assignment operators: right operand first
            def g(s, y):
                return self.bind(self.ev(cs[0], s), lambda s2, x: f(s2, [x, y]))
            return self.bind(self.ev(cs[1], st), g)
        return self.bind(self.evs(cs, st), f)

    def e_CXXConstructExpr(self, e, st):
        def f(s, vs): return self.construct(s, e, vs)
        return self.bind(self.evs(e.get('c') or [], st), f)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def contract_for(self, f):
        f = self.funcs.get(f.get('fn'), f)
        for c in self.contracts:
            if c.matches(f): return c
        return None

    def moved_from(self, st, v):
        """what the source of a move is left as"""
        if isinstance(v, L):
            if v.sort == 'Seq<u8>': return L('Seq<u8>', self.sym('moved', 'Seq<u8>'))
            if v.sort.startswith('Seq<'): return L(v.sort, 'Seq::<%s>::empty()' % v.sort[4:-1])
            if v.sort.startswith('Map<'): return L(v.sort, 'Map::<%s>::empty()' % v.sort[4:-1])
            return L(v.sort, self.sym('moved', v.sort))
        if isinstance(v, O):
            if v.kind == 'ptr':
                r = O(False, None, v.psort, v.kind); r.moved = True; return r
            return O(v.has, self.moved_from(st, v.val) if v.val is not None else None, v.psort, v.kind)
        if isinstance(v, R): return R(v.name, {k: self.moved_from(st, x) for k, x in v.f.items()})
        if isinstance(v, W): return W(v.name, v.tag, self.moved_from(st, v.val))
        return v

    def take(self, st, lv):
        """move out of lv"""
        if not isinstance(lv, LV): return lv
        v = self.read(st, lv)
        self.write(st, lv, self.moved_from(st, v), keep=True)
        return v

    def construct(self, st, e, vs):
        """constructor call -> value"""
        t = e['t']
        n = t.get('n', '')
        if e.get('copy') and n not in JREC:
            v = self.val(st, vs[0])
            if isinstance(v, L) and v.sort in ('Seq<Value>', 'Map<Seq<u8>, Value>'):
                import stdlib
                stdlib.elems_ok(self, st, v)
            return [(st, v)]
        if e.get('move') and n not in JREC: return [(st, self.take(st, vs[0]))]
        if n.startswith('json::') or n.startswith('vd::'):
            fn = self.funcs.get(e['fn'])
            c = self.contract_for(e)
            this = self.root('obj')
            if c is not None and c.opaque and not (self.cur_contract is c and False):
                st.store[this] = None
                return self.apply(st, c, e, self.mk(this), vs, ctor=True)
            if fn is None or 'body' not in fn:
                if e.get('dflt'): return [(st, self.default(st, t))]
                raise Unsupported('constructor of %s without a body' % n)
            def done(s, _):
                v = s.store.pop(this)
                return [(s, v)]
            recn = self.recs_by_name.get(n)
            shell = R(JREC[n][0] if n in JREC else n, {})
            if n in JREC:
                for fld in JREC[n][1]: shell.f[fld] = None
            st.store[this] = shell
            return self.bind(self.inline(st, fn, self.mk(this), vs, ctor=True), done)
        h = self.std.ctor(self, st, e, vs)
        return h

    def call(self, st, e, obj, args):
        q = e['q']
        if q.startswith('json::') or q.startswith('vd::'):
            c = self.contract_for(e)
            fn = self.funcs.get(e['fn'])
            if c is not None and c.opaque and not (self.cur_contract is not None and c.name in getattr(self.cur_contract, 'inl', ())):
                return self.apply(st, c, e, obj, args)
            if fn is None or 'body' not in fn:
                raise Unsupported('call of %s, which has neither contract nor body' % q)
            this = None
            if obj is not None:
                this = self.lval(st, obj, 'this')
            return self.inline(st, fn, this, args)
        r = self.std.call(self, st, e, obj, args)
        return r

    def inline(self, st, fn, this, args, ctor=False):
        self.depth += 1
        if self.depth > 40: raise Unsupported('inlining too deep: ' + fn['q'])
        if any(fr.fn is fn for fr in st.frames) and sum(fr.fn is fn for fr in st.frames) > 3: raise Unsupported('recursion without a contract: ' + fn['q'])
        self.inlined.add(fn['q'])
        saved = st.frames
        fr = Frame(self.tick(), this, fn)
        st.frames = st.frames + (fr,)
        if 'lamcaps' in fn:
            for vid, cv in fn['lamcaps'].items():
                r = self.root('cap'); fr.vars[vid] = r
                st.store[r] = cv
        base = st.fork()
        for p, a in zip(fn['params'], args):
            r = self.root(p['n']); fr.vars[p['id']] = r
            if p['t']['k'] in ('ref', 'rref'):
                st.store[r] = self.lval(st, a)
            else:
                st.store[r] = self.val(st, a)
        rs = self.run_body(st, fn, this, ctor)
        out = []
        for s, o in rs:
            s.frames = saved
            if isinstance(o, Throw): out.append((s, o))
            elif isinstance(o, Ret): out.append((s, o.v))
            elif o == NORM: out.append((s, Unit()))
            else: raise Unsupported('outcome %r' % (o,))
        self.depth -= 1
        return out

    def call_lambda(self, st, f, args, types):
        """call of a closure; types: the argument types, which pick the instantiation of a generic lambda"""
        if not isinstance(f, F) or f.node.get('k') != 'LambdaExpr': raise Unsupported('call of something that is no lambda')
        for c in f.node['caps']:
            if not c.get('this') and not c.get('byref'): raise Unsupported('lambda that captures by copy')
        import stdlib
        for op in f.node['ops']:
            if len(op['pt']) == len(types) and all(stdlib.tkey(strip(p)) == stdlib.tkey(strip(t)) for p, t in zip(op['pt'], types)):
                fn = self.funcs.get(op['fn'])
                if fn is None or 'body' not in fn: raise Unsupported('lambda without a body')
                return self.inline(st, fn, f.this, args)
        raise Unsupported('lambda that takes such an argument')

    def run_body(self, st, fn, this, ctor):
        sts = [(st, NORM)]
        if ctor:
            for i in fn.get('inits', []):
                nxt = []
                for s, o in sts:
                    if o != NORM: nxt.append((s, o)); continue
                    if i.get('deleg'):
                        # delegating constructor builds the whole object
                        for s2, v in self.rv(i['e'], s):
                            if isinstance(v, Throw): nxt.append((s2, v)); continue
                            s2.store[this.root] = v; nxt.append((s2, NORM))
                        continue
                    if i.get('base'):
                        nxt.append((s, o)); continue
                    n = fn['cls']['n']
                    name = self.jfield({'rec': {'n': n}, 'n': i['m']})
                    fld = None
                    for ff in (self.recs_by_name.get(n) or [(0, {'fields': []})])[0][1]['fields']:
                        if ff['n'] == i['m']: fld = ff
                    isref = fld and fld['t']['k'] in ('ref', 'rref')
                    for s2, v in (self.ev(i['e'], s) if isref else self.rv(i['e'], s)):
                        if isinstance(v, Throw): nxt.append((s2, v)); continue
                        old = s2.store[this.root]
                        f = dict(old.f); f[name] = v
                        s2.store[this.root] = R(old.name, f)
                        nxt.append((s2, NORM))
                sts = nxt
        out = []
        for s, o in sts:
            if o != NORM: out.append((s, o))
            else: out.extend(self.stmt(fn.get('body'), s))
        return out

    # ---------------------------------------------------------------- contracts
    def role_lv(self, st, role, ctx):
        """role -> LV.  ctx: {'this': LV, 'args': {name: LV}}"""
        parts = role.split('.')
        if parts[0] == 'this':
            lv = ctx['this']
        elif parts[0] in ctx['args']: lv = ctx['args'][parts[0]]
        elif parts[0].isdigit(): lv = ctx['arglist'][int(parts[0])]
        else: raise Unsupported('role ' + role)
        for p in parts[1:]:
            v = self.read(st, lv)
            if isinstance(v, LV): lv = v; v = self.read(st, lv)
            if isinstance(v, L) and v.sort in ('Value', 'Arr', 'Obj'): v = leaf(v.sort, v.e)
            if isinstance(v, R):
                key = p if p in v.f else None
                if key is None and p.isdigit(): key = list(v.f)[int(p)]
                if key is None: raise Unsupported('role %s' % role)
                lv = self.mk(lv.root, lv.path + ((('t' if v.name == 'tuple' else 'f'), key),))
            else: raise Unsupported('role %s (%s)' % (role, v.sort))
        return lv

    def subst(self, tpl, st, ctx, old=None, ret=None):
        def rep(m):
            r = m.group(1)
            if r == 'ret': return ret.x() if not isinstance(ret, LV) else self.read(st, ret).x()
            if r.startswith('ret.'):
                v = ret
                if isinstance(v, LV): v = self.read(st, v)
                p = r[4:]
                if isinstance(v, O): return lit(v.has) if p == 'has' else v.val.x() if v.val is not None else 'arbitrary::<%s>()' % v.psort
                if isinstance(v, P): return lit(v.null) if p == 'null' else self.read(st, v.lv).x() if v.lv is not None else 'arbitrary::<Value>()'
                if isinstance(v, It) and p == 'idx': return lit(v.idx)
                return self.proj(st, v, ('f', p) if not p.isdigit() else ('t', int(p))).x()
            s = st
            if r.startswith('old.'):
                r = r[4:]; s = old if old is not None else ctx.get('old', st)
            suffix = None
            for suf in ('.snap', '.idx', '.byte', '.has', '.val', '.null'):
                if r.endswith(suf): suffix = suf; r = r[:-len(suf)]
            if r.split('.')[0].split('|')[0] in ctx.get('ghost', {}):
                return ctx['ghost'][r]
            lv = self.local_role(s, r, ctx)
            v = self.read(s, lv) if isinstance(lv, LV) else lv
            if isinstance(v, LV): v = self.read(s, v)
            if suffix == '.snap': return v.snap
            if suffix == '.idx': return lit(v.idx)
            if suffix == '.has': return lit(v.has)
            if suffix == '.null': return lit(v.null)
            if suffix == '.val':
                if isinstance(v, P): return self.read(s, v.lv).x()
                return v.val.x() if v.val is not None else 'arbitrary::<%s>()' % v.psort
            if isinstance(v, It) and v.kind == 'str' and v.nul and suffix is None and r.isdigit():   # a C string argument is its text
                return v.snap if v.idx == 0 else '%s.subrange(%s, %s.len() as int)' % (v.snap, lit(v.idx), v.snap)
            if isinstance(v, R) and v.name == 'carr': return 'seq![%s]' % ', '.join(v.f[i].x() for i in sorted(v.f))
            return v.x()
        return re.sub(r'\{([A-Za-z_0-9.|~]+(?:<[^{}]*>)?)\}', rep, tpl)

    def local_role(self, st, r, ctx):
        name, _, want = r.partition('|')
        head = name.split('.')[0]
        if head == 'this' or head in ctx['args'] or head.isdigit(): return self.role_lv(st, name, ctx)
        # a local variable of the innermost frame that has it (alternatives are separated by ~)
        for nm in name.split('~'):
            for fr in reversed(st.frames):
                cands = [(vid, root) for vid, root in fr.vars.items() if root[2] == nm and st.store.get(root) is not None]
                if cands: return self.mk(cands[-1][1])
        if want:
            best = []
            for fr in reversed(st.frames):
                for vid, root in fr.vars.items():
                    v = st.store.get(root)
                    if v is None or isinstance(v, LV): continue
                    if (isinstance(v, It) and want == 'iter') or (not isinstance(v, It) and sortof_safe(v) == want): best.append(root)
                if best: break
            if len(best) == 1: return self.mk(best[0])
        raise Unsupported('no local variable for role %s' % r)

    def make_ctx(self, st, f, this, args):
        """evaluate arguments to LVs"""
        ctx = {'this': this, 'args': {}, 'arglist': [], 'ghost': {}}
        fn = self.funcs.get(f['fn']) if 'fn' in f else f
        for i, a in enumerate(args):
            pt = f['pt'][i]
            lv = self.lval(st, a if pt['k'] in ('ref', 'rref') else self.val(st, a), 'arg')
            ctx['arglist'].append(lv)
            if fn and i < len(fn.get('params', [])) and fn['params'][i]['n']: ctx['args'][fn['params'][i]['n']] = lv
        return ctx

    def apply(self, st, c, e, obj, args, ctor=False):
        """replace a call by the callee's contract"""
        self.used_contracts.add(c.name)
        this = None
        if ctor: this = obj
        elif obj is not None: this = self.lval(st, obj, 'this')
        ctx = self.make_ctx(st, e, this, args)
        if c.setup is not None: c.setup(self, st, ctx, e, False)
        for i, r in enumerate(c.requires):
            self.emit(st, 'precondition %d of %s' % (i + 1, c.name), self.subst(r, st, ctx))
        if c.measure is not None and self.cur_contract is not None and self.cur_contract.measure is not None and self.group(c) == self.group(self.cur_contract):
            self.emit(st, 'recursion into %s terminates' % c.name, 'msr_less(%s, %s)' % (self.subst(c.measure, st, ctx), self.entry_measure))
        old = st.fork()
        out = []
        if c.throws is not None:
            cond = self.subst(c.throws, st, ctx) if isinstance(c.throws, str) else c.throws
            cond = {'true': True, 'false': False}.get(cond, cond)
            if cond is not False:
                s2 = st.fork().assume(cond)
                for m in c.modifies: self.havoc(s2, self.role_lv(s2, m, ctx), m)
                for r in c.throws_ens: s2.assume(self.subst(r, s2, ctx, old))
                out.append((s2, Throw('json::exception')))
                if cond is True: return out
                st.assume(not_(cond))
        elif c.may_throw:
            s2 = st.fork()
            for m in c.modifies: self.havoc(s2, self.role_lv(s2, m, ctx), m)
            out.append((s2, Throw('json::exception')))
        for m in c.modifies:
            if m in c.defs: continue
            self.havoc(st, self.role_lv(st, m, ctx), m)
        for m, d in c.defs.items():
            lv = self.role_lv(st, m, ctx)
            cur = self.read(st, lv)
            txt = self.subst(d, st, ctx, old)
            s_ = 'int' if isinstance(cur, It) else sortof(cur)
            n = self.sym(m.split('.')[-1], s_); st.assume('%s == %s' % (n, txt))
            nv = cur.at(n) if isinstance(cur, It) else (I(n, cur.ty) if isinstance(cur, I) else leaf(s_, n))
            self.write(st, lv, nv)
        rt = e.get('rt')
        if ctor:
            ret = self.fresh(st, e['t'], 'new')
            st.store.pop(this.root, None)
            if c.ret is not None:
                ret = self.ret_def(st, c, e['t'], ctx, old)
        elif rt['k'] == 'void': ret = Unit()
        elif c.ret is not None and callable(c.ret): ret = c.ret(self, st, ctx, old, e)
        elif c.ret is not None: ret = self.ret_def(st, c, rt, ctx, old)
        else: ret = self.fresh(st, rt, 'ret')
        for r in c.ensures: st.assume(self.subst(r, st, ctx, old, ret))
        out.append((st, ret))
        return out

    def ret_def(self, st, c, rt, ctx, old):
        txt = self.subst(c.ret, st, ctx, old)
        t = strip(rt)
        if t['k'] == 'bool':
            if len(txt) > 60:
                n = self.sym('ret', 'bool'); st.assume('%s == (%s)' % (n, txt)); txt = n
            return B(txt)
        if t['k'] in ('int', 'enum'): return I(txt, ity(t))
        s = self.sort_of_type(t)
        n = self.sym('ret', s); st.assume('%s == %s' % (n, txt))
        return leaf(s, n)

    def group(self, c): return getattr(c, 'grp', None) or c.q.split('::')[1]

    def havoc(self, st, lv, base):
        v = self.read(st, lv)
        self.write(st, lv, self.havoc_val(st, v, base))

    def havoc_val(self, st, v, base='h'):
        base = base.split('.')[-1]
        if isinstance(v, I):
            n = self.sym(base, 'int')
            r = int_range(v.ty)
            if r: st.assume('%s <= %s <= %s' % (lit(r[0]), n, lit(r[1])))
            return I(n, v.ty)
        if isinstance(v, B): return B(self.sym(base, 'bool'))
        if isinstance(v, L):
            n = self.sym(base, v.sort)
            if v.sort.startswith('Seq<'): st.assume('%s.len() <= 0x7fff_ffff_ffff_ffff' % n)
            return L(v.sort, n)
        if isinstance(v, It): return v.at(self.sym(base, 'int'))
        if isinstance(v, R): return R(v.name, {k: self.havoc_val(st, x, base) for k, x in v.f.items()})
        if isinstance(v, W): return leaf(v.name, self.sym(base, v.name))
        if isinstance(v, O):
            n = self.sym(base, 'Option<%s>' % v.psort)
            o = leaf('Option<%s>' % v.psort, n); o.kind = v.kind; return o
        if isinstance(v, (Unit, F)): return v
        raise Unsupported('havoc of %s' % v.sort)

    # ---------------------------------------------------------------- statements: -> list of (state, outcome)
    def stmt(self, s, st):
        if s is None: return [(st, NORM)]
        if st.dead(): return []
        if 'l' in s: self.line = s['l'] or self.line
        m = getattr(self, 's_' + s['k'], None)
        if m is not None: return m(s, st)
        if s['k'].endswith('Expr') or s['k'].endswith('Operator') or 't' in s:
            return [(s2, v if isinstance(v, Throw) else NORM) for s2, v in self.ev(s, st)]
        raise Unsupported('statement ' + s['k'])

    def seq(self, ss, st):
        cur = [(st, NORM)]
        for x in ss:
            nxt = []
            for s, o in cur:
                if o != NORM: nxt.append((s, o))
                else: nxt.extend(self.stmt(x, s))
            cur = nxt
            if len(cur) > 400: raise Unsupported('too many paths')
        return cur

    def s_CompoundStmt(self, s, st): return self.seq(s['c'], st)
    def s_NullStmt(self, s, st): return [(st, NORM)]
    def s_AttributedStmt(self, s, st): return self.stmt(s['c'][-1], st)

    def s_IfConst(self, s, st):
        return self.seq([x for x in s['c'] if x is not None], st)

    def s_ReturnStmt(self, s, st):
        c = (s.get('c') or [None])[0]
        if c is None: return [(st, Ret(Unit()))]
        rt = st.frames[-1].fn['rt']
        rs = self.ev(c, st) if rt['k'] in ('ref', 'rref') else self.rv(c, st)
        return [(s2, v if isinstance(v, Throw) else Ret(v)) for s2, v in rs]

    def s_BreakStmt(self, s, st): return [(st, BRK)]
    def s_ContinueStmt(self, s, st): return [(st, CONT)]

    def bind_var(self, st, v):
        n = v['n']
        for g in ('__begin', '__end', '__range'):
            if n.startswith(g): n = g
        r = ('v', self.tick(), n)
        st.frames[-1].vars[v['id']] = r
        return r

    def s_DeclStmt(self, s, st):
        cur = [(st, NORM)]
        for v in s['vars']:
            nxt = []
            for s1, o in cur:
                if o != NORM: nxt.append((s1, o)); continue
                nxt.extend(self.declare(v, s1))
            cur = nxt
        return cur

    def declare(self, v, st):
        # frames are shared between forked states: variable ids are bound once per frame
        fr = st.frames[-1]
        if v['id'] in fr.vars: r = fr.vars[v['id']]
        else: r = self.bind_var(st, v)
        if v.get('static') and not v.get('constexpr'): raise Unsupported('static local')
        out = []
        isref = v['t']['k'] in ('ref', 'rref')
        if v.get('init') is None:
            if v['t']['k'] == 'arr':
                st.store[r] = R('carr', {}) if v['t']['to'].get('bits') != 8 else L('Seq<u8>', self.sym(v['n'], 'Seq<u8>'))
                if v['t']['to'].get('bits') == 8: st.assume('%s.len() == %d' % (st.store[r].e, v['t']['size']))
            else: st.store[r] = None
            return [(st, NORM)]
        rs = self.ev(v['init'], st) if isref else self.rv(v['init'], st)
        for s2, x in rs:
            if isinstance(x, Throw): out.append((s2, x)); continue
            if isref: s2.store[r] = self.lval(s2, x)
            else: s2.store[r] = self.name_it(s2, x, v['n'])
            if 'bindings' in v:
                o = self.structured(v, s2, r)
                if isinstance(o, list): out.extend(o); continue
            out.append((s2, NORM))
        return out

    def structured(self, v, st, r):
        base = st.store[r]
        lv = base if isinstance(base, LV) else self.mk(r)
        fr = st.frames[-1]
        cur = self.read(st, lv)
        for i, b in enumerate(v['bindings']):
            if b['id'] in fr.vars: br = fr.vars[b['id']]
            else:
                br = ('v', self.tick(), b['n']); fr.vars[b['id']] = br
            if isinstance(cur, R) and cur.name == 'mapentry':
                x = cur.f['first' if i == 0 else 'second']
                st.store[br] = x if isinstance(x, LV) else self.lval(st, x)
            elif isinstance(cur, R) and cur.name != 'tuple':
                st.store[br] = self.derive(st, lv, ('f', list(cur.f)[i]))
            else:
                st.store[br] = self.derive(st, lv, ('t', i))

    def s_IfStmt(self, s, st):
        pre = [(st, NORM)]
        if s.get('init'): pre = self.stmt(s['init'], st)
        out = []
        for s0, o in pre:
            if o != NORM: out.append((s0, o)); continue
            mid = self.stmt(s['cv'], s0) if s.get('cv') else [(s0, NORM)]
            for s1, o1 in mid:
                if o1 != NORM: out.append((s1, o1)); continue
                out.extend(self.if_body(s, s1))
        return out

    def if_body(self, s, st):
        out = []
        for s1, c in self.rv(s['cond'], st):
            if isinstance(c, Throw): out.append((s1, c)); continue
            br = self.branch(s1, c.e if isinstance(c, B) else not_(eq(c.e, 0)))
            rr = []
            for s2, taken in br:
                rr.append(self.stmt(s['then'] if taken else s.get('else'), s2))
            if len(rr) == 2:
                na = [x for x in rr[0] if x[1] == NORM]; nb = [x for x in rr[1] if x[1] == NORM]
                if len(na) == 1 and len(nb) == 1:
                    try:
                        m = self.merge(s1, br_cond(c), (na[0][0], None), (nb[0][0], None))
                        out.extend([x for x in rr[0] + rr[1] if x[1] != NORM])
                        out.append((m[0], NORM))
                        continue
                    except NoMerge:
                        pass
            for x in rr: out.extend(x)
        return out

    def s_SwitchStmt(self, s, st):
        out = []
        if s.get('init'):
            pre = self.stmt(s['init'], st)
        else: pre = [(st, NORM)]
        for s0, o in pre:
            if o != NORM: out.append((s0, o)); continue
            for s1, c in self.rv(s['cond'], s0):
                if isinstance(c, Throw): out.append((s1, c)); continue
                out.extend(self.switch(s, s1, c))
        return out

    def switch(self, s, st, c):
        items = []      # flattened: ('label', values or None) / ('stmt', s)
        def flat(x):
            if x is None: return
            if x['k'] == 'CaseStmt':
                if 'v2' in x: raise Unsupported('case range')
                items.append(('case', int(x['v']))); flat(x['body'])
            elif x['k'] == 'DefaultStmt':
                items.append(('default', None)); flat(x['body'])
            else: items.append(('stmt', x))
        body = s['body']
        for x in (body['c'] if body['k'] == 'CompoundStmt' else [body]): flat(x)
        labels = [(i, it[1]) for i, it in enumerate(items) if it[0] == 'case']
        e = c.e
        byte = c.byte
        def cond(v):
            if byte is not None and 0 <= v < 128: return eq(byte, v)
            return eq(e, v)
        out = []
        # group labels by the position where execution starts (adjacent labels share a body)
        def start(i):
            while i < len(items) and items[i][0] != 'stmt': i += 1
            return i
        groups = {}
        for i, v in labels: groups.setdefault(start(i), []).append(v)
        dpos = [start(i) for i, it in enumerate(items) if it[0] == 'default']
        if isc(e):
            pos = None
            for p, vs in groups.items():
                if e in vs: pos = p
            if pos is None: pos = dpos[0] if dpos else None
            todo = [(st, pos)]
        else:
            todo = []
            allc = []
            for p, vs in groups.items():
                if dpos and p == dpos[0]: continue
                cc = False
                for v in vs: cc = or_(cc, cond(v))
                allc.append(cc)
                todo.append((st.fork().assume(cc), p))
            rest = st.fork()
            for cc in allc: rest.assume(not_(cc))
            todo.append((rest, dpos[0] if dpos else None))
        for s1, p in todo:
            if p is None: out.append((s1, NORM)); continue
            stmts = [it[1] for it in items[p:] if it[0] == 'stmt']
            for s2, o in self.seq(stmts, s1):
                out.append((s2, NORM if o == BRK else o))
        return out

    def s_CXXTryStmt(self, s, st):
        out = []
        for s1, o in self.stmt(s['body'], st):
            if isinstance(o, Throw):
                h = None
                for hd in s['handlers']:
                    ht = strip(hd['var']['t'])['n'] if 'var' in hd else None
                    if ht is None or ht == o.ty or ht == 'std::exception': h = hd; break
                if h is None: out.append((s1, o))
                else: out.extend(self.stmt(h['body'], s1))
            else: out.append((s1, o))
        return out

    # ---- loops
    def s_WhileStmt(self, s, st): return self.loop(s, st, None, s['cond'], None, s['body'], s.get('cv'))
    def s_ForStmt(self, s, st):
        pre = self.stmt(s['init'], st) if s.get('init') else [(st, NORM)]
        out = []
        for s1, o in pre:
            if o != NORM: out.append((s1, o)); continue
            out.extend(self.loop(s, s1, None, s.get('cond'), s.get('inc'), s['body'], s.get('cv')))
        return out
    def s_DoStmt(self, s, st): return self.loop(s, st, None, s['cond'], None, s['body'], None, do=True)
    def s_CXXForRangeStmt(self, s, st):
        cur = [(st, NORM)]
        for part in ('init', 'range', 'begin', 'end'):
            if s.get(part) is None: continue
            nxt = []
            for s1, o in cur:
                if o != NORM: nxt.append((s1, o))
                else: nxt.extend(self.stmt(s[part], s1))
            cur = nxt
        out = []
        for s1, o in cur:
            if o != NORM: out.append((s1, o)); continue
            out.extend(self.loop(s, s1, None, s['cond'], s['inc'], {'k': 'CompoundStmt', 'c': [s['lv'], s['body']]}, None))
        return out

    def iterate(self, s, st, cond, inc, body, cv, do):
        """one iteration from st: returns (exits [(st,NORM)], back [st], others)"""
        exits, back, others = [], [], []
        if do:
            heads = [(st, True)]
        else:
            heads = []
            sts = self.stmt(cv, st) if cv else [(st, NORM)]
            for s0, o0 in sts:
                if o0 != NORM: others.append((s0, o0)); continue
                if cond is None: heads.append((s0, True)); continue
                for s1, c in self.rv(cond, s0):
                    if isinstance(c, Throw): others.append((s1, c)); continue
                    for s2, t in self.branch(s1, c.e if isinstance(c, B) else not_(eq(c.e, 0))): heads.append((s2, t))
        for s1, t in heads:
            if not t: exits.append((s1, NORM)); continue
            for s2, o in self.stmt(body, s1):
                if o == BRK: exits.append((s2, NORM))
                elif o in (NORM, CONT):
                    rs = self.ev(inc, s2) if inc else [(s2, None)]
                    for s3, v in rs:
                        if isinstance(v, Throw): others.append((s3, v)); continue
                        if do:
                            for s4, c in self.rv(cond, s3):
                                if isinstance(c, Throw): others.append((s4, c)); continue
                                for s5, t5 in self.branch(s4, c.e):
                                    if t5: back.append(s5)
                                    else: exits.append((s5, NORM))
                        else: back.append(s3)
                else: others.append((s2, o))
        return exits, back, others

    def loop(self, s, st, _, cond, inc, body, cv, do=False):
        # 1. constant trip count: unroll while the condition is decided
        c = self.cur_contract
        idx = self.loop_no
        key = id(s)
        if key in self.loop_ids: idx = self.loop_ids[key]
        forced = False
        if c is not None and idx < len(c.loops) and c.loops[idx].force:
            # a loop with a constant trip count that is nevertheless cut at an invariant (unrolled when the invariant has no meaning here)
            try:
                for t in c.loops[idx].inv: self.subst(t, st, dict(self.ctx), self.entry_state)
                forced = True
            except Unsupported: pass
        if not forced and not do and cond is not None:
            r = self.try_unroll(s, st, cond, inc, body, cv)
            if r is not None: return r
        if key not in self.loop_ids: self.loop_ids[key] = idx; self.loop_no += 1
        if c is None or idx >= len(c.loops): raise Unsupported('loop %d of %s has no invariant' % (idx + 1, self.cur_fn))
        spec = c.loops[idx]
        ctx = dict(self.ctx)
        hints = [lambda s_, h=h: self.subst(h, s_, ctx, self.entry_state) for h in spec.hints]
        def invs(x): return [(i, self.subst(t, x, ctx, self.entry_state)) for i, t in enumerate(spec.inv)]
        entry = st.fork()
        ctx['loop_entry'] = entry
        for i, t in invs(st):
            self.emit(st, 'loop %d invariant %d holds on entry' % (idx + 1, i + 1), t, [h(st) for h in hints])
        # 2. what the body changes
        mods = self.modset(s, st, cond, inc, body, cv, do)
        h = st.fork()
        for root, path in mods:
            if root not in h.store: continue
            lv = self.mk(root, path)
            v = self.read(h, lv)
            if v is None: continue
            nm = root[2] if isinstance(root, tuple) and len(root) > 2 else 'x'
            if isinstance(v, LV): raise Unsupported('loop rebinds a reference')
            self.write(h, lv, self.havoc_val(h, v, path[-1][1] if path and isinstance(path[-1][1], str) and path[-1][0] == 'f' else nm), keep=True)
        for i, t in invs(h): h.assume(t)
        dec0 = self.subst(spec.dec, h, ctx, self.entry_state) if spec.dec else None
        exits, back, others = self.iterate(s, h, cond, inc, body, cv, do)
        for b in back:
            self.paths += 1
            for i, t in invs(b):
                self.emit(b, 'loop %d invariant %d is preserved' % (idx + 1, i + 1), t, [hh(b) for hh in hints])
            if dec0:
                d1 = self.subst(spec.dec, b, ctx, self.entry_state)
                self.emit(b, 'loop %d terminates' % (idx + 1), '0 <= %s && %s < %s' % (dec0, d1, dec0))
            elif not self.quiet: self.no_term = True
        return exits + others

    def try_unroll(self, s, st, cond, inc, body, cv):
        """unroll only when every evaluation of the condition is decided by constants"""
        q = self.quiet
        try:
            self.quiet = 1
            rs = self.rv(cond, st.fork()) if not cv else None
        except Unsupported:
            rs = None
        finally:
            self.quiet = q
        if rs is None or len(rs) != 1 or isinstance(rs[0][1], Throw) or not isinstance(rs[0][1].e, bool): return None
        if cond.get('k') == 'CXXBoolLiteralExpr' or 'ce' in cond: return None
        out = []; cur = [st]; n = 0
        while cur:
            n += 1
            if n > 600: raise Unsupported('unrolling a loop too often')
            nxt = []
            for x in cur:
                rs = self.rv(cond, x)
                for x1, c in rs:
                    if isinstance(c, Throw): out.append((x1, c)); continue
                    if not isinstance(c.e, bool): raise Unsupported('loop stops being constant')
                    if not c.e: out.append((x1, NORM)); continue
                    for s2, o in self.stmt(body, x1):
                        if o == BRK: out.append((s2, NORM))
                        elif o in (NORM, CONT):
                            for s3, v in (self.ev(inc, s2) if inc else [(s2, None)]):
                                if isinstance(v, Throw): out.append((s3, v))
                                else: nxt.append(s3)
                        else: out.append((s2, o))
            cur = nxt
            if len(cur) > 64: raise Unsupported('too many paths in an unrolled loop')
        return out

    def modset(self, s, st, cond, inc, body, cv, do):
        mods = []
        for rnd in range(4):
            h = st.fork()
            q, tr = self.quiet, self.track
            self.quiet = 1; self.track = []
            try:
                for root, path in mods:
                    lv = self.mk(root, path); v = self.read(h, lv)
                    if v is None: continue
                    self.write(h, lv, self.havoc_val(h, v), keep=True)
                self.track = []
                self.iterate(s, h, cond, inc, body, cv, do)
                new = self.track
            finally:
                self.quiet, self.track = q, tr
            add_ = []
            for root, path in new:
                if root not in st.store: continue
                # cut the path at the first step that is not a plain field
                cut = []
                for p in path:
                    if p[0] in ('f', 't'): cut.append(p)
                    else: break
                k = (root, tuple(cut))
                if not any(m[0] == root and k[1][:len(m[1])] == m[1] for m in mods + add_):
                    add_ = [m for m in add_ if not (m[0] == root and m[1][:len(k[1])] == k[1])]
                    mods = [m for m in mods if not (m[0] == root and m[1][:len(k[1])] == k[1])]
                    add_.append(k)
            if self.track is not None: self.track.extend(new)
            if not add_: return mods
            mods = mods + add_
        raise Unsupported('modified set does not stabilise')

    # ---------------------------------------------------------------- verifying one function
    def verify(self, f, c, alias=None):
        self.cur_contract = c
        self.cur_fn = c.name + ('' if alias is None else ' [%s]' % alias[0])
        self.loop_no = 0; self.loop_ids = {}
        self.decl = {}; self.obls = []; self.quiet = 0; self.steps = 0; self.depth = 0; self.paths = 0
        self.no_term = False
        self.track = None
        st = State()
        fr = Frame(0, None, f)
        st.frames = (fr,)
        ctx = {'this': None, 'args': {}, 'arglist': [], 'ghost': {}}
        isctor = f['kind'] == 'ctor'
        if 'cls' in f and not f.get('static'):
            r = ('v', 0, 'this')
            n = f['cls']['n']
            if isctor:
                shell = R(JREC[n][0] if n in JREC else n, {})
                if n in JREC:
                    for fld in JREC[n][1]: shell.f[fld] = None
                st.store[r] = shell
            elif c.setup is None or n in JREC: st.store[r] = self.fresh(st, f['cls'], 'self')
            else: st.store[r] = None
            fr.this = self.mk(r); ctx['this'] = fr.this
        for p in f['params']:
            pr = ('v', self.tick(), p['n'] or 'arg')
            fr.vars[p['id']] = pr
            if p['t']['k'] in ('ref', 'rref'):
                tgt = ('v', self.tick(), (p['n'] or 'arg') + '_obj')
                lv = self.mk(tgt)
                st.store[tgt] = self.fresh(st, p['t'], p['n'] or 'arg')
                st.store[pr] = lv
            else:
                try: st.store[pr] = self.fresh(st, p['t'], p['n'] or 'arg')
                except Unsupported:
                    if c.setup is None: raise
                    st.store[pr] = None     # the contract's setup describes it
                lv = self.mk(pr)
            ctx['arglist'].append(lv)
            if p['n']: ctx['args'][p['n']] = lv
        if alias is not None: alias[1](self, st, ctx, f)
        if c.setup is not None: c.setup(self, st, ctx, f, True)
        for r in c.requires: st.assume(self.subst(r, st, ctx))
        self.ctx = ctx
        entry = st.fork(); self.entry_state = entry; ctx['old'] = entry
        self.entry_measure = self.subst(c.measure, st, ctx) if c.measure else None
        body_st = st
        # parameters taken by value can be modified by the body: contracts speak about their values on entry
        rs = self.run_body(body_st, f, fr.this, isctor)
        nret = nthrow = 0
        hints = c.hints
        self.end_pcs = []
        tc = None
        if c.throws is not None: tc = self.subst(c.throws, entry, ctx)
        for s, o in rs:
            if s.dead(): continue
            self.paths += 1
            s.frames = (fr,)
            # entry values of by-value parameters
            hs = []
            if isinstance(o, Throw):
                nthrow += 1
                if tc is None and not c.may_throw: self.emit(s, 'no exception is thrown', False)
                elif tc is not None:
                    self.emit(s, 'an exception is thrown only when specified', tc, [self.subst(h, s, ctx, entry) for h in hints if '{ret' not in h])
                    for i, r in enumerate(c.throws_ens):
                        self.emit(s, 'exceptional postcondition %d' % (i + 1), self.subst(r, s, ctx, entry))
                self.end_pcs.append((s.pc, 'throw'))
                continue
            nret += 1
            ret = o.v if isinstance(o, Ret) else Unit()
            self.line = f.get('line', self.line)
            if isctor: ret = s.store[fr.this.root]
            self.end_pcs.append((s.pc, 'return'))
            hs = [self.subst(h, s, ctx, entry, ret) for h in hints]
            if tc is not None: self.emit(s, 'the specified exception is thrown', not_(tc), hs)
            if c.ret is not None and not callable(c.ret):
                self.emit(s, 'return value', goal_eq(self.subst('{ret}', s, ctx, entry, ret), self.subst(c.ret, s, ctx, entry), ret, self, s), hs)
            elif c.ret is not None and hasattr(c.ret, 'check'):
                c.ret.check(self, s, ctx, entry, ret, hs)
            for i, r in enumerate(c.ensures):
                self.emit(s, 'postcondition %d' % (i + 1), self.subst(r, s, ctx, entry, ret), hs)
            for m, d in c.defs.items():
                lv = self.role_lv(s, m, ctx)
                v = self.read(s, lv)
                self.emit(s, 'final value of %s' % m, goal_eq(v.x(), self.subst(d, s, ctx, entry, ret), v, self, s), hs)
            # frame: everything reachable that the contract does not list is unchanged
            self.check_frame(s, entry, ctx, c, f, hs)
        return {'fn': self.cur_fn, 'obls': self.obls, 'decl': self.decl, 'nret': nret, 'nthrow': nthrow, 'ends': self.end_pcs, 'paths': self.paths}

    def check_frame(self, s, entry, ctx, c, f, hs):
        roles = []
        if ctx['this'] is not None and f['kind'] != 'ctor':
            v = entry.store.get(ctx['this'].root)
            if isinstance(v, R):
                for k in v.f: roles.append(('this.' + k, self.mk(ctx['this'].root, (('f', k),))))
        for i, lv in enumerate(ctx['arglist']):
            if f['pt'][i]['k'] in ('ref', 'rref'): roles.append((f['params'][i]['n'] or str(i), lv))
        listed = []
        for m in list(c.modifies) + list(c.defs):
            l = self.role_lv(entry.fork(), m, ctx)
            listed.append((l.root, l.path))
        for name, lv in roles:
            if any(r == lv.root and (p[:len(lv.path)] == lv.path or lv.path[:len(p)] == p or any(x[0] == 'desc' for x in p)) for r, p in listed): continue
            a = read_raw(self, entry, lv); b = read_raw(self, s, lv)
            if a is b or a is None: continue
            try:
                xa, xb = a.x(), b.x()
            except Unsupported:
                continue
            if xa == xb: continue
            if isinstance(a, It) : self.emit(s, 'frame: %s is unchanged' % name, eq(a.idx, b.idx), hs)
            else: self.emit(s, 'frame: %s is unchanged' % name, '%s == %s' % (xb, xa), hs)

def may_contain(path, sub):
    """with some part of unknown position ('desc') involved: may the object at sub lie inside the one at path?"""
    n = 0
    while n < len(path) and n < len(sub) and path[n] == sub[n]: n += 1
    a, b = path[n:], sub[n:]
    if a and b and b[0][0] == 'desc': return True
    return bool(a) and a[0][0] == 'desc' and any(p[0] in ('i', 'k', 'desc') for p in b)

def read_raw(eng, st, lv):
    v = st.store[lv.root]
    for p in lv.path: v = eng.proj(st, v, p)
    return v

class BLV(LV):
    __slots__ = ('born',)

class NoMerge(Exception):
    pass

def br_cond(c): return c.e if isinstance(c, B) else not_(eq(c.e, 0))

def is_it_deref(c):
    return c.get('k') == 'CXXOperatorCallExpr' and c.get('oo') == '*' or (c.get('k') == 'UnaryOperator' and c.get('op') == '*')

def sortof_safe(v):
    try: return sortof(v)
    except Exception: return None

def split_sorts(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def tobyte(v):
    if v.byte is not None:
        b = v.byte
        if b.startswith('(') and b.endswith(' as int)') and balanced(b[1:-1]): return b[1:-len(' as int)')]
        return '(%s as u8)' % b
    if isc(v.e): return '%du8' % (v.e % 256)
    return '(wrapu(%s, 256) as u8)' % lit(v.e)

def goal_eq(a, b, v, eng, st):
    if isinstance(v, LV): v = eng.read(st, v)
    if isinstance(v, B): return '(%s) == (%s)' % (a, b)
    if isinstance(v, (I, It)): return '%s == %s' % (a, b)
    return '(%s) =~~= (%s)' % (a, b)
