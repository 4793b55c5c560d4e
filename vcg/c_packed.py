"""Contracts of the packed-byte primitives, as used by the parser.  Their bodies are verified bit-precisely by bv.py against the same
statements (mask = index of the first byte that matches), so here they are applied only."""
from sym import *
from engine import Contract, Unsupported
import bv

def byte_term(eng, st, v):
    v = eng.val(st, v)
    if not isinstance(v, I): raise Unsupported('byte operand')
    return v.e

def mk(tr, fn):
    n = bv.STEP[tr]
    def ret(eng, st, ctx, old, e):
        a = [eng.read(st, x) for x in ctx['arglist']]
        if fn == 'load_unaligned':
            it = a[0]
            if not isinstance(it, It) or it.kind != 'str': raise Unsupported('load through something that is not text')
            ln = eng.it_len(it)
            eng.it_valid(st, it)
            eng.emit(st, 'the %d bytes that are loaded lie inside the text' % n, and_(le(0, it.idx), le(add(it.idx, n), ln)))
            s = eng.sym('pack', 'Seq<u8>')
            st.assume('%s == %s.subrange(%s, %s)' % (s, it.snap, lit(it.idx), lit(add(it.idx, n))))
            r = L('Seq<u8>', s); r.src = (it.snap, it.idx); return r
        if fn in ('less', 'equal'):
            p, v = a
            if not isinstance(p, L) or p.sort != 'Seq<u8>': raise Unsupported('operand of %s' % fn)
            m = eng.sym('mask', 'int')
            if isinstance(v, L): raise Unsupported('comparison of two packs')
            if fn == 'less': eng.emit(st, 'bound of less() in range', and_(le(0, v.e), le(v.e, bv.LESS_MAX[tr])))
            op = '<' if fn == 'less' else '=='
            t, o = getattr(p, 'src', (p.e, 0))
            st.assume('0 <= %s <= %d' % (m, n), 'forall|k: int| %s <= k < %s ==> !(#[trigger] %s[k] %s %s)' % (lit(o), lit(add(o, m)), t, op, lit(v.e)),
                      '%s < %d ==> %s[%s] %s %s' % (m, n, t, lit(add(o, m)), op, lit(v.e)))
            return I(m, ('i', 0, True), rg=(0, n))
        if fn == 'bitwise_or':
            x, y = a
            m = eng.sym('mask', 'int'); st.assume('%s == (if %s < %s { %s } else { %s })' % (m, x.x(), y.x(), x.x(), y.x()))
            return I(m, ('i', 0, True), rg=(0, n))
        if fn == 'is_all_zero': return B(eq(a[0].e, n))
        if fn == 'first_nonzero_byte':
            eng.emit(st, 'some byte is set', lt(a[0].e, n))
            return I(a[0].e, ('i', 64, False), rg=(0, n))
        raise Unsupported(fn)
    c = Contract(bv.TR + tr + '::' + fn, ret=ret)
    c.external = 'bit-vector'
    return c

contracts = [mk(t, f) for t in bv.STEP for f in ('load_unaligned', 'less', 'equal', 'bitwise_or', 'is_all_zero', 'first_nonzero_byte')]
