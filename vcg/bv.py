"""Bit-precise verification of the straight-line packed-byte primitives (packed_bytes*.hpp, bitops.hpp).

The function bodies extracted by cxxdump are turned into SMT-LIB bit-vector terms; each contract clause is one obligation, discharged by
z3 (unsat of its negation, all bit patterns).  SSE/AVX intrinsics and the ctz/clz builtins are assumed contracts, written per byte/bit below."""
import os, subprocess, time
from sym import Unsupported

class T:                      # bit-vector term
    def __init__(s, e, w, sg=False): s.e = e; s.w = w; s.sg = sg
def bv(v, w): return '(_ bv%d %d)' % (v % (1 << w), w)
def ext(hi, lo, e): return '((_ extract %d %d) %s)' % (hi, lo, e)
def ite(c, a, b): return '(ite %s %s %s)' % (c, a, b)
def byte(e, k): return ext(8 * k + 7, 8 * k, e)
def cat(bs):                  # bytes, lowest first
    return bs[0] if len(bs) == 1 else '(concat %s)' % ' '.join(reversed(bs))

def width(t):
    while t['k'] in ('ref', 'rref'): t = t['to']
    if t['k'] in ('int', 'enum'): return t['bits'], t['signed']
    if t['k'] == 'bool': return 1, False
    if t['k'] == 'vec': return t['bits'], False
    raise Unsupported('bit-vector of type %s' % t['k'])

class Ret(Exception):
    pass

INTRIN = {}
def intr(*ns):
    def d(f):
        for n in ns: INTRIN[n] = f
        return f
    return d
def bytewise(f):
    def g(ev, e, a):
        n = a[0].w // 8
        return T(cat([f(*[byte(x.e, k) for x in a]) for k in range(n)]), a[0].w)
    return g
FF, ZZ = '#xff', '#x00'
INTRIN.update({k: bytewise(lambda x, y: ite('(= %s %s)' % (x, y), FF, ZZ)) for k in ('_mm_cmpeq_epi8', '_mm256_cmpeq_epi8')})
INTRIN.update({k: bytewise(lambda x, y: ite('(bvult %s %s)' % (x, y), y, x)) for k in ('_mm_max_epu8', '_mm256_max_epu8')})
INTRIN.update({k: bytewise(lambda x, y: ite('(bvult %s %s)' % (x, y), x, y)) for k in ('_mm_min_epu8', '_mm256_min_epu8')})
INTRIN.update({k: bytewise(lambda x, y: ite('(bvsgt %s %s)' % (x, y), FF, ZZ)) for k in ('_mm_cmpgt_epi8', '_mm256_cmpgt_epi8')})
INTRIN.update({k: bytewise(lambda x, y: ite('(bvslt %s %s)' % (x, y), FF, ZZ)) for k in ('_mm_cmplt_epi8',)})
INTRIN.update({k: bytewise(lambda x, y: '(bvsub %s %s)' % (x, y)) for k in ('_mm_sub_epi8', '_mm256_sub_epi8')})
INTRIN.update({k: bytewise(lambda x, y: '(bvadd %s %s)' % (x, y)) for k in ('_mm_add_epi8', '_mm256_add_epi8')})
INTRIN.update({k: bytewise(lambda x, y: ite('(bvult %s %s)' % (x, y), ZZ, '(bvsub %s %s)' % (x, y))) for k in ('_mm_subs_epu8', '_mm256_subs_epu8')})
for p in ('_mm_', '_mm256_'):
    s = 'si128' if p == '_mm_' else 'si256'
    INTRIN[p + 'or_' + s] = lambda ev, e, a: T('(bvor %s %s)' % (a[0].e, a[1].e), a[0].w)
    INTRIN[p + 'and_' + s] = lambda ev, e, a: T('(bvand %s %s)' % (a[0].e, a[1].e), a[0].w)
    INTRIN[p + 'xor_' + s] = lambda ev, e, a: T('(bvxor %s %s)' % (a[0].e, a[1].e), a[0].w)
    INTRIN[p + 'andnot_' + s] = lambda ev, e, a: T('(bvand (bvnot %s) %s)' % (a[0].e, a[1].e), a[0].w)
    INTRIN[p + 'testz_' + s] = lambda ev, e, a: T(ite('(= (bvand %s %s) %s)' % (a[0].e, a[1].e, bv(0, a[0].w)), bv(1, 32), bv(0, 32)), 32, True)
    INTRIN[p + 'loadu_' + s] = lambda ev, e, a: ev.load(a[0], width(e['rt'])[0] // 8)
    INTRIN[p + 'setzero_' + s] = lambda ev, e, a: T(bv(0, width(e['rt'])[0]), width(e['rt'])[0])
@intr('_mm_set1_epi8', '_mm256_set1_epi8')
def _(ev, e, a): n = width(e['rt'])[0] // 8; return T(cat([a[0].e] * n), 8 * n)
@intr('_mm_movemask_epi8', '_mm256_movemask_epi8')
def _(ev, e, a):
    n = a[0].w // 8
    m = cat_bits([ext(8 * k + 7, 8 * k + 7, a[0].e) for k in range(n)])
    return T(m if n == 32 else '((_ zero_extend %d) %s)' % (32 - n, m), 32, True)
def cat_bits(bs): return '(concat %s)' % ' '.join(reversed(bs))
@intr('__builtin_ctz', '__builtin_ctzl', '__builtin_ctzll')
def _(ev, e, a):
    x = a[0]; ev.need('argument of %s is not zero' % e['q'], '(not (= %s %s))' % (x.e, bv(0, x.w)))
    r = bv(x.w, 32)
    for k in reversed(range(x.w)): r = ite('(= %s #b1)' % ext(k, k, x.e), bv(k, 32), r)
    return T(ev.name(r, 32), 32, True)
@intr('__builtin_clz', '__builtin_clzl', '__builtin_clzll')
def _(ev, e, a):
    x = a[0]; ev.need('argument of %s is not zero' % e['q'], '(not (= %s %s))' % (x.e, bv(0, x.w)))
    r = bv(x.w, 32)
    for k in range(x.w): r = ite('(= %s #b1)' % ext(k, k, x.e), bv(x.w - 1 - k, 32), r)
    return T(ev.name(r, 32), 32, True)

class BV:
    def __init__(self, dump):
        self.funcs = {f['id']: f for f in dump['funcs']}
        self.used = set()
    def begin(self, step):
        self.defs = []; self.n = 0; self.obls = []; self.step = step; self.guard = ['true']; self.depth = 0; self.line = 0
    def var(self, w):
        self.n += 1; v = 'x%d' % self.n
        self.defs.append('(declare-const %s (_ BitVec %d))' % (v, w)); return v
    def name(self, e, w):
        if len(e) < 60: return e
        self.n += 1; v = 'x%d' % self.n
        self.defs.append('(define-fun %s () (_ BitVec %d) %s)' % (v, w, e)); return v
    def need(self, what, goal):
        self.obls.append((what, '(=> %s %s)' % (self.guard[-1], goal), self.line))
    def load(self, p, n):
        if not (isinstance(p, tuple) and p[0] == 'mem'): raise Unsupported('load through an unknown pointer')
        self.need('reads only the %d bytes it may read' % self.step, 'true' if n <= self.step else 'false')
        if n > self.step: raise Unsupported('load of %d bytes, only %d are readable' % (n, self.step))
        return T(ext(8 * n - 1, 0, p[1]), 8 * n)

    def call(self, f, args):
        self.depth += 1
        if self.depth > 12: raise Unsupported('recursion')
        env = {}
        for p, a in zip(f['params'], args): env[p['id']] = [a]
        r = self.stmt(f['body'], env)
        self.depth -= 1
        if r is None: raise Unsupported('no value returned on some path')
        return r

    # a statement returns the value returned by the function, or None when control goes on
    def stmt(self, s, env):
        if s is None: return None
        if s.get('l'): self.line = s['l']
        k = s['k']
        if k in ('CompoundStmt', 'IfConst'):
            cs = s['c']
            for i, c in enumerate(cs):
                if c is not None and c['k'] == 'IfStmt':
                    return self.if_(c, cs[i + 1:], env)
                r = self.stmt(c, env)
                if r is not None: return r
            return None
        if k == 'ReturnStmt': return self.ev(s['c'][0], env)
        if k == 'NullStmt': return None
        if k == 'DeclStmt':
            for v in s['vars']:
                w = None
                if v.get('init') is not None: env[v['id']] = [self.ev(v['init'], env)]
                else:
                    w, sg = width(v['t']); env[v['id']] = [T(self.var(w), w, sg)]
            return None
        if k == 'IfStmt': return self.if_(s, [], env)
        self.ev(s, env); return None

    def if_(self, s, rest, env):
        if s.get('init') or s.get('cv'): raise Unsupported('if with a declaration')
        c = self.ev(s['cond'], env)
        b = '(= %s #b1)' % c.e
        rs = []
        for cond, br in ((b, s['then']), ('(not %s)' % b, s.get('else'))):
            e2 = {k: list(v) for k, v in env.items()}
            self.guard.append('(and %s %s)' % (self.guard[-1], cond))
            r = self.stmt(br, e2)
            if r is None: r = self.stmt({'k': 'CompoundStmt', 'c': rest}, e2)
            self.guard.pop()
            rs.append(r)
        if rs[0] is None or rs[1] is None: raise Unsupported('if without a value')
        return T(ite(b, rs[0].e, rs[1].e), rs[0].w, rs[0].sg)

    def conv(self, v, t):
        if t['k'] == 'bool':
            return T(ite('(= %s %s)' % (v.e, bv(0, v.w)), '#b0', '#b1'), 1)
        w, sg = width(t)
        if v.w == w: return T(v.e, w, sg)
        if v.w > w: return T(ext(w - 1, 0, v.e), w, sg)
        return T('((_ %s_extend %d) %s)' % ('sign' if v.sg else 'zero', w - v.w, v.e), w, sg)

    def ev(self, e, env):
        if e.get('l'): self.line = e['l']
        t = e.get('t')
        if 'ce' in e and e.get('vk') == 'r' and t and t['k'] in ('int', 'bool', 'enum'):
            w, sg = width(t); return T(bv(int(e['ce']), w), w, sg)
        k = e['k']
        if k in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr', 'MaterializeTemporaryExpr', 'SubstNonTypeTemplateParmExpr'): return self.ev(e['c'][0], env)
        if k == 'DeclRefExpr':
            if e['dk'] in ('var', 'parm') and e['id'] in env: return env[e['id']][0]
            raise Unsupported('reference to ' + e['n'])
        if k == 'CXXBoolLiteralExpr': return T('#b1' if e['v'] else '#b0', 1)
        if k.endswith('CastExpr'):
            ck = e['ck']
            if ck in ('LValueToRValue', 'NoOp', 'BitCast'): return self.ev(e['c'][0], env)
            if ck in ('IntegralCast', 'IntegralToBoolean'): return self.conv(self.ev(e['c'][0], env), t)
            raise Unsupported('cast ' + ck)
        if k == 'UnaryOperator':
            op = e['op']
            if op == '&':
                c = e['c'][0]
                if c['k'] == 'DeclRefExpr' and c['id'] in env: return ('addr', env[c['id']], width(c['t']))
                raise Unsupported('address')
            x = self.ev(e['c'][0], env)
            if op == '!': return T(ite('(= %s %s)' % (x.e, bv(0, x.w)), '#b1', '#b0'), 1)
            if op == '~': return T('(bvnot %s)' % x.e, x.w, x.sg)
            if op == '-': return T('(bvneg %s)' % x.e, x.w, x.sg)
            raise Unsupported('unary ' + op)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return self.binop(e, env)
        if k == 'ConditionalOperator':
            c = self.ev(e['c'][0], env); b = '(= %s #b1)' % c.e
            self.guard.append('(and %s %s)' % (self.guard[-1], b)); x = self.ev(e['c'][1], env); self.guard.pop()
            self.guard.append('(and %s (not %s))' % (self.guard[-1], b)); y = self.ev(e['c'][2], env); self.guard.pop()
            return T(ite(b, x.e, y.e), x.w, x.sg)
        if k == 'CallExpr':
            q = e.get('q', '')
            if q in ('memcpy', 'std::memcpy', '__builtin_memcpy'):
                d, s_, n = [self.ev(c, env) for c in e['c']]
                ne = e['c'][2].get('ce')
                if ne is None or not (isinstance(d, tuple) and d[0] == 'addr'): raise Unsupported('memcpy')
                n = int(ne); w, sg = d[2]
                self.need('copies no more than the size of the destination', 'true' if 8 * n <= w else 'false')
                if 8 * n > w: raise Unsupported('memcpy past the destination')
                x = self.load(s_, n)
                old = d[1][0]
                d[1][0] = T(x.e if 8 * n == w else '(concat %s %s)' % (ext(w - 1, 8 * n, old.e), x.e), w, sg)
                return d
            a = [self.ev(c, env) for c in e.get('c') or []]
            if q == 'json::_bitops::is_little_endian':
                self.used.add('is_little_endian() is true on this target'); return T('#b1', 1)
            if q in INTRIN:
                self.used.add(q)
                r = INTRIN[q](self, e, a); r.e = self.name(r.e, r.w); return r
            f = self.funcs.get(e['fn'])
            if f and 'body' in f: return self.call(f, a)
            raise Unsupported('call of ' + q)
        raise Unsupported('expression ' + k)

    def binop(self, e, env):
        op = e['op']; a, b = e['c']
        if op == '=' or k_assign(e):
            if a['k'] != 'DeclRefExpr' or a['id'] not in env: raise Unsupported('assignment target')
            if op == '=': v = self.ev(b, env)
            else:
                ct = e['clt']; x = self.conv(self.ev(a, env), ct); y = self.ev(b, env)
                if op[:-1] not in ('<<', '>>'): y = self.conv(y, ct)
                v = self.conv(self.arith(op[:-1], x, y, *width(e['ct'])), e['t'])
            v.e = self.name(v.e, v.w); env[a['id']][0] = v; return v
        x = self.ev(a, env)
        if op in ('&&', '||'):
            g = '(= %s #b1)' % x.e
            self.guard.append('(and %s %s)' % (self.guard[-1], g if op == '&&' else '(not %s)' % g)); y = self.ev(b, env); self.guard.pop()
            return T('(%s %s %s)' % ('bvand' if op == '&&' else 'bvor', x.e, y.e), 1)
        y = self.ev(b, env)
        sg = x.sg
        c = {'==': '(= %s %s)', '!=': '(not (= %s %s))', '<': '(bvslt %s %s)' if sg else '(bvult %s %s)', '<=': '(bvsle %s %s)' if sg else '(bvule %s %s)',
             '>': '(bvsgt %s %s)' if sg else '(bvugt %s %s)', '>=': '(bvsge %s %s)' if sg else '(bvuge %s %s)'}
        if op in c: return T(ite(c[op] % (x.e, y.e), '#b1', '#b0'), 1)
        return self.arith(op, x, y, *width(e['t']))

    def arith(self, op, x, y, w, sg):
        if op in ('<<', '>>'):
            if y.w < x.w: y = T('((_ zero_extend %d) %s)' % (x.w - y.w, y.e), x.w)
            elif y.w > x.w: y = T(ext(x.w - 1, 0, y.e), x.w)
            self.need('shift amount in range', '(bvult %s %s)' % (y.e, bv(x.w, x.w)))
            o = 'bvshl' if op == '<<' else 'bvashr' if sg else 'bvlshr'
            return T('(%s %s %s)' % (o, x.e, y.e), w, sg)
        o = {'+': 'bvadd', '-': 'bvsub', '*': 'bvmul', '&': 'bvand', '|': 'bvor', '^': 'bvxor', '/': 'bvsdiv' if sg else 'bvudiv', '%': 'bvsrem' if sg else 'bvurem'}.get(op)
        if o is None: raise Unsupported('operator ' + op)
        if sg and op in '+-*':
            ex = lambda v: '((_ sign_extend %d) %s)' % (w, v)
            self.need('no signed overflow', '(= %s (%s %s %s))' % (ex('(%s %s %s)' % (o, x.e, y.e)), o, ex(x.e), ex(y.e)))
        if op in '/%': self.need('divisor is not zero', '(not (= %s %s))' % (y.e, bv(0, w)))
        return T(self.name('(%s %s %s)' % (o, x.e, y.e), w), w, sg)

def k_assign(e): return e['k'] == 'CompoundAssignOperator'

def fz(x, n):
    """index of the first nonzero byte of mask x (n bytes), n when there is none"""
    r = bv(n, 64)
    for k in reversed(range(n)): r = ite('(not (= %s #x00))' % byte(x, k), bv(k, 64), r)
    return r
def first(n, p):
    r = bv(n, 64)
    for k in reversed(range(n)): r = ite(p(k), bv(k, 64), r)
    return r

TR = 'json::_packed_bytes::packed_bytes_trait_'
STEP = {'sse': 16, 'uint64': 8, 'uint32': 4, 'avx2': 32}
LESS_MAX = {'sse': 255, 'uint64': 128, 'uint32': 128, 'avx2': 255}

def obligations(dump):
    """-> [(function, obligation, smt text)], unsupported, used"""
    b = BV(dump); out = []; uns = []; n_f = set()
    for f in dump['funcs']:
        if not f['q'].startswith(TR) or 'body' not in f: continue
        tr, fn = f['q'][len(TR):].split('::')
        if tr not in STEP: continue
        n = STEP[tr]; w = 8 * n
        b.begin(n)
        asm = []
        try:
            if fn == 'load_unaligned':
                m = b.var(w); r = b.call(f, [('mem', m)])
                goals = [('the bytes in order', '(= %s %s)' % (r.e, m))]
            elif fn == 'less' or (fn == 'equal' and f['pt'][1]['k'] == 'int' and f['pt'][1]['bits'] == 8):
                x = b.var(w); v = b.var(8)
                r = b.call(f, [T(x, w), T(v, 8)])
                if fn == 'less':
                    asm = ['(bvule %s %s)' % (v, bv(LESS_MAX[tr], 8))]
                    p = lambda k: '(bvult %s %s)' % (byte(x, k), v)
                else: p = lambda k: '(= %s %s)' % (byte(x, k), v)
                goals = [('first byte that matches', '(= %s %s)' % (fz(r.e, n), first(n, p)))]
            elif fn == 'equal':
                x = b.var(w); y = b.var(w); r = b.call(f, [T(x, w), T(y, w)])
                goals = [('first byte that matches', '(= %s %s)' % (fz(r.e, n), first(n, lambda k: '(= %s %s)' % (byte(x, k), byte(y, k)))))]
            elif fn == 'is_zero_memberwise':
                x = b.var(w); r = b.call(f, [T(x, w)])
                goals = [('first zero byte', '(= %s %s)' % (fz(r.e, n), first(n, lambda k: '(= %s #x00)' % byte(x, k))))]
            elif fn == 'bitwise_or':
                x = b.var(w); y = b.var(w); r = b.call(f, [T(x, w), T(y, w)])
                a, c = fz(x, n), fz(y, n)
                goals = [('first byte of either', '(= %s %s)' % (fz(r.e, n), ite('(bvult %s %s)' % (a, c), a, c)))]
            elif fn == 'is_all_zero':
                x = b.var(w); r = b.call(f, [T(x, w)])
                goals = [('true iff no byte is set', '(= (= %s #b1) (= %s %s))' % (r.e, fz(x, n), bv(n, 64)))]
            elif fn == 'first_nonzero_byte':
                x = b.var(w); r = b.call(f, [T(x, w)])
                asm = ['(not (= %s %s))' % (x, bv(0, w))]
                goals = [('index of the first set byte', '(= %s %s)' % (r.e, fz(x, n)))]
            else: continue
        except Unsupported as ex:
            uns.append((f['q'], str(ex))); continue
        n_f.add(f['q'])
        for what, g, line in b.obls + [(a, c, f.get('l', 0)) for a, c in goals]:
            txt = '(set-logic QF_BV)\n' + '\n'.join(b.defs) + '\n' + '\n'.join('(assert %s)' % a for a in asm) + '\n(assert (not %s))\n(check-sat)\n(get-model)\n' % g
            out.append((f['q'].split('::', 2)[2], what, txt, line))
    return out, uns, b.used, n_f

def run(dump, work, timeout=120):
    import concurrent.futures as cf
    obs, uns, used, fns = obligations(dump)
    os.makedirs(work, exist_ok=True)
    def one(i):
        p = os.path.join(work, 'bv%d.smt2' % i)
        open(p, 'w').write(obs[i][2])
        t = time.time()
        for cmd in (['z3', '-T:%d' % timeout, p], ['cvc5', '--tlimit=%d' % (1000 * timeout), '--produce-models', p]):
            r = subprocess.run(cmd, capture_output=True, text=True).stdout
            if r.startswith('unsat'): return 'ok', '', time.time() - t, cmd[0]
            if r.startswith('sat'): return 'fail', r, time.time() - t, cmd[0]
        return 'rlimit', r[-400:], time.time() - t, 'z3+cvc5'
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, range(len(obs))))
    return [(o[0], o[1], o[3]) + r for o, r in zip(obs, rs)], uns, used, fns

if __name__ == '__main__':
    import sys, json
    d = json.load(open(sys.argv[1]))
    t = time.time()
    rs, uns, used, fns = run(d, '/tmp/w/bv')
    for r in rs: print(r[0], '|', r[1], '|', r[3], '%.2f' % r[5], r[6], r[4][:200])
    print(uns, sorted(used), time.time() - t)
