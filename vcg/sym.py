"""Symbolic values, lvalues and state of the verification-condition generator.

Everything here is about *representing* C++ values by Verus terms:
  machine integers     -> mathematical int (ranges are facts, overflow is an obligation)
  std::string / views  -> Seq<u8>
  vector<value>        -> Seq<Value>,  map<string,value> -> Map<Seq<u8>,Value>
  json::value          -> Value{ty,raw}, json::array -> Arr{d}, json::object -> Obj{d}
"""

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ integer terms (python int when constant)
def lit(x):
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, int):
        return str(x) if x >= 0 else '(%d)' % x
    return x

def isc(x):
    return isinstance(x, int) and not isinstance(x, bool)

def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(b) and b == 0: return a
    if isc(a) and a == 0: return b
    return '(%s + %s)' % (lit(a), lit(b))

def sub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    if a == b: return 0
    return '(%s - %s)' % (lit(a), lit(b))

def mul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(b) and b == 1: return a
    if isc(a) and a == 1: return b
    return '(%s * %s)' % (lit(a), lit(b))

def emod(a, n):
    if isc(a): return a % n
    return '(%s %% %s)' % (lit(a), lit(n))

def ediv(a, n):
    if isc(a): return a // n
    return '(%s / %s)' % (lit(a), lit(n))

def not_(a):
    if isinstance(a, bool): return not a
    if a.startswith('!(') and a.endswith(')') and balanced(a[2:-1]): return a[2:-1]
    return '!(%s)' % a

def balanced(s):
    d = 0
    for c in s:
        if c == '(': d += 1
        elif c == ')':
            d -= 1
            if d < 0: return False
    return d == 0

def and_(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return '(%s && %s)' % (a, b)

def or_(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return '(%s || %s)' % (a, b)

def imp(a, b):
    if a is True: return b
    if a is False or b is True: return True
    return '((%s) ==> (%s))' % (lit(a), lit(b))

def eq(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, bool): return b if a else not_(b)
    if isinstance(b, bool): return a if b else not_(a)
    if isc(a) and isc(b): return a == b
    if a == b: return True
    return '(%s == %s)' % (lit(a), lit(b))

def lt(a, b):
    if isc(a) and isc(b): return a < b
    return '(%s < %s)' % (lit(a), lit(b))

def le(a, b):
    if isc(a) and isc(b): return a <= b
    if a == b: return True
    return '(%s <= %s)' % (lit(a), lit(b))

def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a == b and type(a) == type(b): return a
    num = lambda x: str(x) + 'int' if isinstance(x, int) and not isinstance(x, bool) and x >= 0 else lit(x)
    return '(if %s { %s } else { %s })' % (c, num(a), num(b))

# ------------------------------------------------------------------ values
class Val:
    pass

class I(Val):                       # integer-like (char, enum, size_t, ...)
    """lz: known number of low zero bits; rg: known range"""
    def __init__(s, e, ty=('i', 32, True), byte=None, lz=0, rg=None):
        s.e = e; s.ty = ty; s.byte = byte; s.lz = lz; s.rg = rg
    def x(s): return lit(s.e)
    def zeros(s):
        if isc(s.e): return 64 if s.e == 0 else (s.e & -s.e).bit_length() - 1
        return s.lz
    def range(s):
        if isc(s.e): return (s.e, s.e)
        if s.rg: return s.rg
        k, bits, sg = s.ty
        if k == 'bool': return (0, 1)
        if bits == 0: return None
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    sort = 'int'

class B(Val):
    def __init__(s, e): s.e = e
    def x(s): return lit(s.e)
    sort = 'bool'

class L(Val):                       # leaf of a Verus sort
    def __init__(s, sort, e): s.sort = sort; s.e = e
    def x(s): return s.e

class R(Val):                       # record / tuple / pair / json class with known fields
    def __init__(s, name, f): s.name = name; s.f = f
    @property
    def sort(s): return s.name
    def x(s): return rec_expr(s)

class O(Val):                       # optional / unique_ptr / shared_ptr
    def __init__(s, has, val, psort, kind='opt'):
        s.has = has; s.val = val; s.psort = psort; s.kind = kind
    @property
    def sort(s): return 'Option<%s>' % s.psort
    def x(s):
        if s.has is True: return 'Some(%s)' % s.val.x()
        if s.has is False: return 'Option::<%s>::None' % s.psort
        return '(if %s { Some(%s) } else { None })' % (s.has, s.val.x())

class W(Val):                       # variant with known alternative
    def __init__(s, name, tag, val): s.name = name; s.tag = tag; s.val = val
    @property
    def sort(s): return s.name
    def x(s):
        return VARIANTS[s.name]['mk'](s.tag, s.val.x())

class It(Val):                      # iterator (or char pointer) into a container
    """kind: str|vec|map|lits ; snap: container expression when taken ; idx: int term ; tok: identity (LV key, version)"""
    def __init__(s, kind, snap, idx, tok, nul=False, rev=False, lv=None):
        s.kind = kind; s.snap = snap; s.idx = idx; s.tok = tok; s.nul = nul; s.rev = rev; s.lv = lv
    sort = 'iter'
    sort_ = None; born = 0; moving = False; cstr = False   # cstr: a NUL follows the last character
    def x(s): return lit(s.idx)
    def at(s, idx):
        r = It(s.kind, s.snap, idx, s.tok, s.nul, s.rev, s.lv); r.sort_ = s.sort_; r.born = s.born; r.moving = s.moving; r.cstr = s.cstr
        return r

class P(Val):                       # pointer to object; null: bool term
    def __init__(s, null, lv): s.null = null; s.lv = lv
    sort = 'ptr'

class F(Val):                       # function object: lambda closure
    def __init__(s, node, caps, this): s.node = node; s.caps = caps; s.this = this
    sort = 'fn'

class Unit(Val):
    sort = '()'
    def x(s): return '()'

class LV:
    __slots__ = ('root', 'path')
    def __init__(s, root, path=()): s.root = root; s.path = path
    def f(s, *steps): return LV(s.root, s.path + tuple(steps))
    def key(s): return (s.root, s.path)
    def __repr__(s): return 'LV(%r,%r)' % (s.root, s.path)

class Throw:
    def __init__(s, ty, val=None): s.ty = ty; s.val = val

# json class layout: AST record name -> (Verus datatype, [(verus field, AST field, kind)])
# std::variant types that specifications know: canonical name -> sort, registered by the contract modules
VARIANT_SORT = {}
def register_variant(name, sort, alts):
    VARIANT_SORT[name] = sort
    VARIANTS[sort] = {'mk': lambda t, v: '%s::A%d(%s)' % (sort, t, v), 'alts': alts, 'is': lambda e, t: '(%s is A%d)' % (e, t), 'get': lambda e, t: '%s->A%d_0' % (e, t)}
# classes of the driver whose objects specifications know: C++ name -> (sort, [(field, sort)])
STRUCT = {}
STRUCT_OF = {}
def register_struct(name, sort, fields):
    STRUCT[name] = (sort, fields); STRUCT_OF[sort] = (name, fields)
JREC = {
    'json::value': ('Value', ['ty', 'raw']),
    'json::array': ('Arr', ['d']),
    'json::object': ('Obj', ['d']),
}
FSORT = {('Value', 'ty'): 'int', ('Value', 'raw'): 'Var', ('Arr', 'd'): 'Seq<Value>', ('Obj', 'd'): 'Map<Seq<u8>, Value>'}
VARIANTS = {
    'Var': {'mk': lambda t, v: 'Var::%s(%s)' % ('SAO'[t], v), 'alts': ['Seq<u8>', 'Option<Arr>', 'Option<Obj>'],
            'is': lambda e, t: '(%s is %s)' % (e, 'SAO'[t]), 'get': lambda e, t: '%s->%s_0' % (e, 'SAO'[t])},
}

def rec_expr(r):
    if r.name == 'Value':
        return '(Value { ty: %s, raw: %s })' % (r.f['ty'].x(), r.f['raw'].x())
    if r.name in ('Arr', 'Obj'):
        return '(%s { d: %s })' % (r.name, r.f['d'].x())
    if r.name == 'tuple':
        return '(' + ', '.join(r.f[k].x() for k in sorted(r.f)) + (',' if len(r.f) == 1 else '') + ')'
    if r.name in STRUCT:
        return '(%s { %s })' % (STRUCT[r.name][0], ', '.join('%s: %s' % (f, r.f[f].x()) for f, _ in STRUCT[r.name][1]))
    raise Unsupported('record %s as a term' % r.name)

def leaf(sort, e):
    """value of a Verus sort as the structured form used by the executor"""
    if sort == 'int': return I(e, ('i', 0, True))
    if sort == 'bool': return B(e)
    if sort == '()': return Unit()
    if sort.startswith('Option<'):
        ps = sort[7:-1]
        return O('(%s is Some)' % e, leaf(ps, '%s->Some_0' % e), ps)
    if sort in ('Value',):
        return R('Value', {'ty': I('%s.ty' % e, ('enum', 8, True)), 'raw': L('Var', '%s.raw' % e)})
    if sort in ('Arr',): return R('Arr', {'d': L('Seq<Value>', '%s.d' % e)})
    if sort in ('Obj',): return R('Obj', {'d': L('Map<Seq<u8>, Value>', '%s.d' % e)})
    if sort in STRUCT_OF:
        n, fs = STRUCT_OF[sort]
        return R(n, {f: leaf(t, '%s.%s' % (e, f)) for f, t in fs})
    return L(sort, e)

def sortof(v):
    if isinstance(v, R) and v.name == 'tuple':
        return '(' + ', '.join(sortof(v.f[k]) for k in sorted(v.f)) + (',' if len(v.f) == 1 else '') + ')'
    if isinstance(v, R) and v.name in STRUCT: return STRUCT[v.name][0]
    return v.sort
