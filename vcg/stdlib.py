"""Assumed contracts of the C++ standard library (and compiler builtins) used by meojson.

Every handler is one assumed contract: what the standard says the function does, with its preconditions emitted as obligations.
Names used are collected in eng.used_std and reported as assumptions; the concrete oracle runs exercise the real library.
Allocation failure and length_error are assumed not to happen."""
from sym import *
from engine import STRINGS, strip, split_sorts, sortof_safe, tobyte, int_range, ity, is_str, NoMerge, flk

H = {}
C = {}
def h(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d
def c(*names):
    def d(f):
        for n in names: C[n] = f
        return f
    return d

def one(st, v): return [(st, v)]

def seq(eng, st, v):
    """a string-like argument as a Seq<u8> term"""
    v = eng.val(st, v)
    if isinstance(v, L) and v.sort == 'Seq<u8>': return v.e
    if isinstance(v, It) and v.kind == 'str' and v.nul:
        if v.idx == 0: return v.snap
        return '%s.subrange(%s, %s.len() as int)' % (v.snap, lit(v.idx), v.snap)
    if isinstance(v, R) and v.name == 'strview': return v.f['s'].e
    raise Unsupported('string argument %s' % v.sort)

def ilen(x):
    """length of a Seq term, constant when it is a literal"""
    if x.startswith('seq![') and x.endswith(']') and ';' not in x: return x.count('u8')
    if x == 'Seq::<u8>::empty()': return 0
    return '(%s.len() as int)' % x

def name_seq(eng, st, x, sort='Seq<u8>', base='s'):
    if len(x) > 60 and not x.startswith('seq!['):
        n = eng.sym(base, sort); st.assume('%s == %s' % (n, x)); return n
    return x

def iter_of(eng, st, o, kind, atend, rev=False):
    if isinstance(o, LV): v = eng.read(st, o); lv = o
    else: v = o; lv = None
    if not isinstance(v, L): raise Unsupported('iterator of %s' % v.sort)
    e = v.e
    if len(e) > 60:
        n = eng.sym('c', v.sort); st.assume('%s == %s' % (n, e)); e = n
        if lv is not None and all(p[0] == 'f' for p in lv.path): eng.write(st, lv, L(v.sort, n), keep=True)
    if kind == 'map': n = '(ks(%s).len() as int)' % e
    elif kind == 'str': n = ilen(e)
    else:
        n = '(%s.len() as int)' % e
        if kind == 'vec': st.assume('%s.len() <= 0x7fff_ffff_ffff_ffff' % e)   # max_size()
    it = It(kind, e, (n if atend != rev else 0), lv.key() if lv else ('val', e), rev=rev, lv=lv)
    it.sort_ = v.sort; it.born = eng.tick()
    return it

def set_str(eng, st, o, x):
    eng.write(st, o, L('Seq<u8>', name_seq(eng, st, x)), keep=True)

SB = 'std::basic_string::'; SV = 'std::basic_string_view::'

@h(SB + 'cbegin', SB + 'begin', SV + 'cbegin', SV + 'begin')
def _(eng, st, e, o, a): return one(st, iter_of(eng, st, o, 'str', False))
@h(SB + 'cend', SB + 'end', SV + 'cend', SV + 'end')
def _(eng, st, e, o, a): return one(st, iter_of(eng, st, o, 'str', True))

@h(SB + 'data', SB + 'c_str', SV + 'data')
def _(eng, st, e, o, a):
    it = iter_of(eng, st, o, 'str', False)
    if isinstance(it.snap, str) and lit_bytes(it.snap) is None: st.assume('%s.len() <= 0x7fff_ffff_ffff_ffff' % it.snap)   # max_size()
    # one past the last character of std::string is a readable NUL; pointer arithmetic stays within [0, size()]
    it.cstr = e['q'].startswith(SB)
    return one(st, it)

@h(SB + 'size', SB + 'length', SV + 'size', SV + 'length')
def _(eng, st, e, o, a):
    return one(st, I(ilen(seq(eng, st, o)), ('i', 64, False)))
@h(SB + 'empty', SV + 'empty')
def _(eng, st, e, o, a):
    return one(st, B(eq(ilen(seq(eng, st, o)), 0)))
@h(SB + 'clear')
def _(eng, st, e, o, a): set_str(eng, st, o, 'Seq::<u8>::empty()'); return one(st, Unit())
@h(SB + 'reserve')
def _(eng, st, e, o, a): return one(st, Unit())
@h(SB + 'push_back')
def _(eng, st, e, o, a):
    b = tobyte(eng.val(st, a[0])); x = seq(eng, st, o)
    set_str(eng, st, o, '%s.push(%s)' % (x, b)); return one(st, Unit())

@h(SB + 'pop_back')
def _(eng, st, e, o, a):
    x = seq(eng, st, o); eng.emit(st, 'pop_back() of a non-empty string', lt(0, ilen(x)))
    set_str(eng, st, o, '%s.drop_last()' % x); return one(st, Unit())
@h(SB + 'front', SV + 'front', SB + 'back', SV + 'back')
def _(eng, st, e, o, a):
    x = seq(eng, st, o); n = ilen(x); eng.emit(st, 'front() or back() of a non-empty string', lt(0, n))
    i = 0 if e['q'].endswith('front') else sub(n, 1)
    if isinstance(o, LV): return one(st, eng.derive(st, o, ('i', i)))
    return one(st, I('sc(%s[%s])' % (x, lit(i)), ('i', 8, True), byte='(%s[%s] as int)' % (x, lit(i))))
@h(SV + 'remove_prefix', SV + 'remove_suffix')
def _(eng, st, e, o, a):
    x = seq(eng, st, o); n = eng.val(st, a[0]).e; eng.emit(st, 'removed prefix or suffix is inside the view', le(n, ilen(x)))
    if e['q'].endswith('prefix'): set_str(eng, st, o, '%s.subrange(%s, %s)' % (x, lit(n), ilen(x)))
    else: set_str(eng, st, o, '%s.subrange(0, %s)' % (x, lit(sub(ilen(x), n))))
    return one(st, Unit())
@h(SB + 'erase')
def _(eng, st, e, o, a):
    x = seq(eng, st, o); n = ilen(x); v = [eng.val(st, y) for y in a]
    if not v: set_str(eng, st, o, 'Seq::<u8>::empty()'); return one(st, o)
    if not isinstance(v[0], I): raise Unsupported('basic_string::erase(iterator)')
    p = v[0].e; ok = le(p, n)
    out = []
    if p != 0:
        out.append((st.fork().assume(not_(ok)), Throw('std::out_of_range')))
        st.assume(ok)
    if len(v) < 2 or v[1].e == NPOS: r = '%s.subrange(0, %s)' % (x, lit(p))
    else: r = '(%s.subrange(0, %s) + %s.subrange(%s, %s))' % (x, lit(p), x, lit(ite(lt(add(p, v[1].e), n), add(p, v[1].e), n)), n)
    set_str(eng, st, o, r); return out + one(st, o)

def sub_it(eng, st, f, l):
    f = eng.val(st, f); l = eng.val(st, l)
    if not (isinstance(f, It) and isinstance(l, It) and f.kind == 'str'): raise Unsupported('iterator range')
    if f.tok != l.tok and f.snap != l.snap: eng.emit(st, 'iterator range belongs to one container', False)
    eng.it_valid(st, f)
    eng.emit(st, 'iterator range is valid', and_(and_(le(0, f.idx), le(f.idx, l.idx)), le(l.idx, eng.it_len(f))))
    return '%s.subrange(%s, %s)' % (f.snap, lit(f.idx), lit(l.idx))

def chars(eng, st, a, pt):
    """the characters denoted by constructor/append arguments"""
    a = [eng.val(st, x) for x in a]
    if len(a) >= 1 and isinstance(a[-1], (L, R, Unit)) and pt and strip(pt[-1]).get('n') == 'std::allocator': a = a[:-1]; pt = pt[:-1]
    if len(a) == 1: return seq(eng, st, a[0])
    if len(a) == 2:
        if isinstance(a[0], It) and isinstance(a[1], It): return sub_it(eng, st, a[0], a[1])
        if isinstance(a[0], It) and isinstance(a[1], I):
            n = eng.it_len(a[0])
            eng.emit(st, 'character range is inside the buffer', and_(le(0, a[1].e), le(add(a[0].idx, a[1].e), n)))
            return '%s.subrange(%s, %s)' % (a[0].snap, lit(a[0].idx), lit(add(a[0].idx, a[1].e)))
        if isinstance(a[0], I) and isinstance(a[1], I):
            return 'rep(%s, %s)' % (lit(a[0].e), tobyte(a[1]))
        if isinstance(a[0], L) and isinstance(a[1], I):
            eng.emit(st, 'substring starts inside the string', le(a[1].e, ilen(a[0].e)))
            return substr(eng, st, a[0].e, a[1].e, None)
    if len(a) == 3 and isinstance(a[0], L):
        eng.emit(st, 'substring starts inside the string', le(a[1].e, ilen(a[0].e)))
        return substr(eng, st, a[0].e, a[1].e, a[2].e)
    raise Unsupported('string from %s' % [x.sort for x in a])

NPOS = (1 << 64) - 1
def substr(eng, st, x, p, n):
    ln = ilen(x)
    if n is None or n == NPOS: end = ln
    else: end = ite(lt(add(p, n), ln), add(p, n), ln)
    return '%s.subrange(%s, %s)' % (x, lit(p), lit(end))

@h(SB + 'append')
def _(eng, st, e, o, a):
    x = seq(eng, st, o); y = chars(eng, st, a, e['pt'])
    set_str(eng, st, o, '(%s + %s)' % (x, y)); return one(st, o)
@h(SB + 'operator+=')
def _(eng, st, e, o, a):
    x = seq(eng, st, o); v = eng.val(st, a[0])
    if isinstance(v, I): set_str(eng, st, o, '%s.push(%s)' % (x, tobyte(v)))
    else: set_str(eng, st, o, '(%s + %s)' % (x, seq(eng, st, v)))
    return one(st, o)
@h(SB + 'assign')
def _(eng, st, e, o, a): set_str(eng, st, o, chars(eng, st, a, e['pt'])); return one(st, o)
@h(SB + 'operator=', SV + 'operator=')
def _(eng, st, e, o, a):
    if strip(e['pt'][0]).get('n') == 'std::basic_string' and e['pt'][0]['k'] == 'rref' and isinstance(a[0], LV):
        v = eng.take(st, a[0]); eng.write(st, o, v, keep=True); return one(st, o)
    eng.write(st, o, L('Seq<u8>', seq(eng, st, a[0])), keep=True); return one(st, o)
@h(SB + 'operator basic_string_view')
def _(eng, st, e, o, a): return one(st, L('Seq<u8>', seq(eng, st, o)))

@h('std::filesystem::path::native', 'std::filesystem::path::string')
def _(eng, st, e, o, a): return one(st, o if e['q'].endswith('native') else eng.val(st, o))     # POSIX: the native form is the std::string
@c('std::basic_string', 'std::basic_string_view', 'std::filesystem::path')
def _(eng, st, e, a):
    if e.get('dflt') or not a: return one(st, L('Seq<u8>', 'Seq::<u8>::empty()'))
    if e['t']['n'] == 'std::filesystem::path': a = a[:1]      # the other argument is the format hint, which POSIX ignores
    x = chars(eng, st, a, e['pt'][:len(a)])
    if e['t']['n'] == 'std::basic_string' and len(e['pt']) >= 1 and strip(e['pt'][0]).get('k') == 'ptr' and len(a) <= 2:
        v = eng.val(st, a[0])
    return one(st, L('Seq<u8>', name_seq(eng, st, x)))

@h(SB + 'substr', SV + 'substr')
def _(eng, st, e, o, a):
    x = seq(eng, st, o); p = eng.val(st, a[0]).e; n = eng.val(st, a[1]).e if len(a) > 1 else NPOS
    bad = lt(ilen(x), p)
    out = []
    if bad is not False:
        if bad is True: return [(st, Throw('std::out_of_range'))]
        s2 = st.fork().assume(bad); out.append((s2, Throw('std::out_of_range'))); st.assume(not_(bad))
    out.append((st, L('Seq<u8>', const_sub(x, p, n) or substr(eng, st, x, p, n))))
    return out

def lit_bytes(x):
    if x == 'Seq::<u8>::empty()': return []
    if x.startswith('seq![') and x.endswith(']') and ';' not in x: return [int(t[:-2]) for t in x[5:-1].split(', ')]
    return None
def mk_lit(bs): return 'seq![%s]' % ', '.join('%du8' % b for b in bs) if bs else 'Seq::<u8>::empty()'
def const_sub(x, p, n):
    b = lit_bytes(x)
    if b is None or not isc(p) or not (isc(n)): return None
    return mk_lit(b[p:p + n])

@h(SV + 'find', SB + 'find')
def _(eng, st, e, o, a):
    x = lit_bytes(seq(eng, st, o)); v = eng.val(st, a[0])
    p = eng.val(st, a[1]).e if len(a) > 1 else 0
    if x is None: raise Unsupported('find in a non-constant string')
    y = [v.e] if isinstance(v, I) else lit_bytes(seq(eng, st, v))
    if y is None: raise Unsupported('find of a non-constant string')
    r = bytes(x).find(bytes([k & 255 for k in y]), p)
    return one(st, I(r if r >= 0 else NPOS, ('i', 64, False)))
@h(SV + 'find_last_of', SB + 'find_last_of')
def _(eng, st, e, o, a):
    x = lit_bytes(seq(eng, st, o)); v = eng.val(st, a[0])
    if x is None: raise Unsupported('find_last_of in a non-constant string')
    y = [v.e] if isinstance(v, I) else lit_bytes(seq(eng, st, v))
    r = max([i for i, b in enumerate(x) if b in y], default=-1)
    return one(st, I(r if r >= 0 else NPOS, ('i', 64, False)))

@h(SB + 'operator[]', SV + 'operator[]')
def _(eng, st, e, o, a):
    i = eng.val(st, a[0]).e; x = seq(eng, st, o)
    b = lit_bytes(x)
    if b is not None and isc(i):
        return one(st, I(b[i] - 256 if b[i] > 127 else b[i], ('i', 8, True), byte=None)) if 0 <= i < len(b) else bad_index(eng, st)
    eng.emit(st, 'string index in range', and_(le(0, i), lt(i, ilen(x))))
    if isinstance(o, LV) and 'basic_string_view' not in e['q']: return one(st, eng.derive(st, o, ('i', i)))
    return one(st, I('sc(%s[%s])' % (x, lit(i)), ('i', 8, True), byte='(%s[%s] as int)' % (x, lit(i))))
def bad_index(eng, st):
    eng.emit(st, 'string index in range', False); return []
@h(SB + 'at', SV + 'at')
def _(eng, st, e, o, a):
    i = eng.val(st, a[0]).e; x = seq(eng, st, o)
    ok = lt(i, ilen(x))
    out = []
    if ok is not True:
        out.append((st.fork().assume(not_(ok)), Throw('std::out_of_range')))
        if ok is False: return out
        st.assume(ok)
    out.append((st, eng.derive(st, o, ('i', i)) if isinstance(o, LV) else I('sc(%s[%s])' % (x, lit(i)), ('i', 8, True), byte='(%s[%s] as int)' % (x, lit(i)))))
    return out

# ------------------------------------------------------------------ iterators
NI = '__gnu_cxx::__normal_iterator::'
CLS_IT = ('std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator', '__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::move_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator')
@c(*CLS_IT)
def _(eng, st, e, a):
    v = eng.val(st, a[0])
    if isinstance(v, It):
        if (strip(e['t']).get('n') == 'std::reverse_iterator') != v.rev:
            if v.rev or v.kind == 'map': raise Unsupported('iterator construction')
            v = v.at(v.idx); v.rev = True
        return one(st, v)
    raise Unsupported('iterator construction')
@h('std::make_reverse_iterator', 'std::reverse_iterator::base')
def _(eng, st, e, o, a):
    v = eng.val(st, o if e['q'].endswith('base') else a[0])
    if not isinstance(v, It) or v.kind == 'map' or v.rev != e['q'].endswith('base'): raise Unsupported(e['q'])
    v = v.at(v.idx); v.rev = not v.rev
    return one(st, v)

def it_reg(base):
    @h(base + 'operator*')
    def _(eng, st, e, o, a):
        it = eng.val(st, o)
        v = eng.it_deref(st, it)
        return one(st, v)
    @h(base + 'operator->')
    def _(eng, st, e, o, a):
        it = eng.val(st, o)
        v = eng.it_deref(st, it)
        return one(st, P(False, eng.lval(st, v)))
    @h(base + 'operator++', base + 'operator--')
    def _(eng, st, e, o, a):
        it = eng.read(st, o)
        d = 1 if e['q'].endswith('++') else -1
        nv = eng.it_add(st, it, d if not it.rev else -d)
        eng.write(st, o, nv, keep=True)
        return one(st, it if a else o)
    @h(base + 'operator+=', base + 'operator-=')
    def _(eng, st, e, o, a):
        it = eng.read(st, o); d = eng.val(st, a[0]).e
        if e['q'].endswith('-=') != it.rev: d = sub(0, d)
        eng.write(st, o, eng.it_add(st, it, d), keep=True); return one(st, o)
    @h(base + 'operator+', base + 'operator-')
    def _(eng, st, e, o, a):
        it = eng.val(st, o); d = eng.val(st, a[0]).e
        if e['q'].endswith('-') != it.rev: d = sub(0, d)
        return one(st, eng.it_add(st, it, d))
    @h(base + 'operator=')
    def _(eng, st, e, o, a): eng.write(st, o, eng.val(st, a[0]), keep=True); return one(st, o)
    @h(base + 'operator[]')
    def _(eng, st, e, o, a):
        it = eng.val(st, o)
        return one(st, eng.it_deref(st, it.at((sub if it.rev else add)(it.idx, eng.val(st, a[0]).e))))
for _c in CLS_IT: it_reg(_c + '::')
@h('std::__detail::operator==', 'std::__detail::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator<', '__gnu_cxx::operator<=', '__gnu_cxx::operator>', '__gnu_cxx::operator>=')
def _(eng, st, e, o, a):
    op = e['q'].split('operator')[1]
    return one(st, B(eng.compare(st, op, a[0], a[1])))
@h('__gnu_cxx::operator-')
def _(eng, st, e, o, a):
    x, y = eng.val(st, a[0]), eng.val(st, a[1])
    if x.tok != y.tok and x.snap != y.snap: eng.emit(st, 'subtracted iterators belong to the same container', False)
    return one(st, I(sub(y.idx, x.idx) if x.rev else sub(x.idx, y.idx), ('i', 64, True)))
@h('std::make_move_iterator')
def _(eng, st, e, o, a):
    it = eng.val(st, a[0]); n = it.at(it.idx); n.moving = True
    return one(st, n)
@h('std::distance')
def _(eng, st, e, o, a):
    x, y = eng.val(st, a[0]), eng.val(st, a[1]); return one(st, I(sub(x.idx, y.idx) if x.rev else sub(y.idx, x.idx), ('i', 64, True)))

@h('std::initializer_list::begin', 'std::initializer_list::end', 'std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::initializer_list::size')
def _(eng, st, e, o, a):
    n = e['q'].split('::')[-1]
    if e['q'].startswith('std::initializer_list'):
        v = eng.val(st, o)
        if n == 'size': return one(st, I('(%s.len() as int)' % v.e, ('i', 64, False)))
        return one(st, iter_of(eng, st, v, 'vec', n == 'end'))   # the elements are const: nothing is moved out of them
    v = eng.val(st, a[0])
    if not isinstance(v, L): raise Unsupported('std::begin of %s' % v.sort)
    return one(st, iter_of(eng, st, v if strip(e['pt'][0]).get('n') == 'std::initializer_list' else a[0], 'map' if v.sort.startswith('Map<') else 'str' if v.sort == 'Seq<u8>' else 'vec', n.endswith('end')))

# ------------------------------------------------------------------ ctype, move & co
@h('isdigit', 'std::isdigit')
def _(eng, st, e, o, a):
    x = eng.val(st, a[0]).e
    eng.emit(st, 'argument of isdigit is an unsigned char value', and_(le(0, x), le(x, 255)))
    return one(st, I('isdigit_(%s)' % lit(x), ('i', 32, True)))
@h('isxdigit', 'std::isxdigit')
def _(eng, st, e, o, a):
    x = eng.val(st, a[0]).e
    eng.emit(st, 'argument of isxdigit is an unsigned char value', and_(le(0, x), le(x, 255)))
    return one(st, I('isxdigit_(%s)' % lit(x), ('i', 32, True)))

@h('std::move', 'std::forward', 'std::as_const', 'std::move_if_noexcept')
def _(eng, st, e, o, a): return one(st, a[0])
@h('std::addressof', 'std::__addressof')
def _(eng, st, e, o, a): return one(st, P(False, a[0]))
@h('std::swap')
def _(eng, st, e, o, a):
    x, y = eng.read(st, a[0]), eng.read(st, a[1]); eng.write(st, a[0], y); eng.write(st, a[1], x); return one(st, Unit())
@h(*[c_ + '::swap' for c_ in ('std::basic_string', 'std::vector', 'std::list', 'std::deque', 'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::optional', 'std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr')])
def _(eng, st, e, o, a):
    x, y = eng.read(st, o), eng.read(st, a[0]); eng.write(st, o, y); eng.write(st, a[0], x); return one(st, Unit())
@h('std::next', 'std::prev')
def _(eng, st, e, o, a):
    it = eng.val(st, a[0]); d = eng.val(st, a[1]).e if len(a) > 1 and not isinstance(eng.val(st, a[1]), Unit) else 1
    if not isinstance(it, It): raise Unsupported('std::next')
    if e['q'].endswith('prev') != it.rev: d = sub(0, d)
    return one(st, eng.it_add(st, it, d))
@h('std::advance')
def _(eng, st, e, o, a):
    it = eng.read(st, a[0]); d = eng.val(st, a[1]).e
    if not isinstance(it, It): raise Unsupported('std::advance')
    eng.write(st, a[0], eng.it_add(st, it, sub(0, d) if it.rev else d), keep=True); return one(st, Unit())
@h('std::exchange')
def _(eng, st, e, o, a):
    x = eng.read(st, a[0]); y = eng.take(st, a[1]); eng.write(st, a[0], y); return one(st, x)
@h('std::min', 'std::max')
def _(eng, st, e, o, a):
    x, y = eng.val(st, a[0]), eng.val(st, a[1])
    c_ = le(x.e, y.e) if e['q'].endswith('min') else le(y.e, x.e)
    return one(st, I(ite(c_, x.e, y.e), x.ty))
@c('std::allocator', 'std::nullopt_t', 'std::exception')
def _(eng, st, e, a): return one(st, Unit())

# ------------------------------------------------------------------ optional / unique_ptr
def opt_like(v):
    return isinstance(v, O)
@c('std::optional')
def _(eng, st, e, a):
    ps = eng.sort_of_type(e['t']['a'][0])
    if not a or strip(e['pt'][0]).get('n') == 'std::nullopt_t': return one(st, O(False, None, ps))
    v = a[0]
    pt = strip(e['pt'][0])
    if pt.get('n') == 'std::optional' and tkey(pt) != tkey(strip(e['t']['a'][0])):
        if tkey(pt) != tkey(strip(e['t'])): raise Unsupported('converting optional constructor')
        x = eng.take(st, v) if e['pt'][0]['k'] == 'rref' else eng.val(st, v)
        return one(st, O(x.has, x.val, ps))
    if eng.val(st, v).sort == ps or sortof_safe(eng.val(st, v)) == ps or True:
        t = strip(e['t']['a'][0])
        if t.get('n') in JREC and pt.get('n') != t['n']: raise Unsupported('converting optional constructor')
        if e['pt'][0]['k'] == 'rref' and isinstance(v, LV): x = eng.take(st, v)
        else: x = eng.val(st, v)
        if t.get('n') in JREC and e['pt'][0]['k'] != 'rref': x = jcopy(eng, st, x, t['n'])
        return one(st, O(True, x, ps))
def jcopy(eng, st, x, n):
    # copy construction of a json value: contract of value::value(const value&) (deep copy, structural equality)
    eng.used_contracts.add('value copy construction (via std copy)')
    return x
@h('std::optional::operator bool', 'std::optional::has_value', 'std::unique_ptr::operator bool', 'std::shared_ptr::operator bool', 'std::__shared_ptr::operator bool')
def _(eng, st, e, o, a): return one(st, B(eng.val(st, o).has))
@h('std::optional::operator*', 'std::unique_ptr::operator*', 'std::shared_ptr::operator*', 'std::__shared_ptr_access::operator*')
def _(eng, st, e, o, a):
    v = eng.val(st, o)
    eng.emit(st, 'dereferenced %s is not empty' % e['q'].split('::')[1], v.has)
    o = eng.lval(st, o)
    return one(st, eng.derive(st, o, ('o',)))
@h('std::optional::operator->', 'std::unique_ptr::operator->', 'std::shared_ptr::operator->', 'std::unique_ptr::get')
def _(eng, st, e, o, a):
    v = eng.val(st, o)
    if not e['q'].endswith('get'): eng.emit(st, 'dereferenced %s is not empty' % e['q'].split('::')[1], v.has)
    o = eng.lval(st, o)
    return one(st, P(not_(v.has), eng.derive(st, o, ('o',))))
@h('std::optional::value')
def _(eng, st, e, o, a):
    v = eng.val(st, o); o = eng.lval(st, o)
    out = []
    if v.has is not True:
        out.append((st.fork().assume(not_(v.has)), Throw('std::bad_optional_access')))
        if v.has is False: return out
        st.assume(v.has)
    out.append((st, eng.derive(st, o, ('o',))))
    return out
@h('std::optional::value_or')
def _(eng, st, e, o, a):
    v = eng.val(st, o); d = eng.val(st, a[0])
    if v.has is True: return one(st, v.val)
    if v.has is False: return one(st, d)
    try: return one(st, eng.merge_vals(v.has, v.val, d))
    except NoMerge:
        return [(st.fork().assume(v.has), v.val), (st.fork().assume(not_(v.has)), d)]
def assign_alias(eng, st, o, x):
    """[res.on.arguments], [container.requirements]: the source of an assignment is not a part of its target (releasing the old contents would release it)"""
    if not (isinstance(o, LV) and isinstance(x, LV)) or o.root != x.root or o.path == x.path: return
    n = 0
    while n < len(o.path) and n < len(x.path) and o.path[n] == x.path[n]: n += 1
    a, b = o.path[n:], x.path[n:]
    if (not a and b) or (b and b[0][0] == 'desc') or (a and a[0][0] == 'desc' and any(p[0] in ('i', 'k', 'desc') for p in b)):
        eng.emit(st, 'the source of the assignment is not part of what it replaces', False)
def rec_elems(eng, st, v, cls, lvl):
    """elements handled by the contract of json::value: the recursion must descend"""
    c = eng.cur_contract
    if c is None or c.measure is None or eng.group(c) != 'core': return
    m = eng.entry_measure
    if v.sort == 'Seq<Value>': eng.emit(st, 'recursion into the elements terminates', '(forall|q_: int| 0 <= q_ < %s.len() ==> msr_less((height(#[trigger] %s[q_]), %d), %s))' % (v.e, v.e, lvl, m))
    elif v.sort == 'Map<Seq<u8>, Value>': eng.emit(st, 'recursion into the elements terminates', '(forall|q_: Seq<u8>| %s.dom().contains(q_) ==> msr_less((height(#[trigger] %s[q_]), %d), %s))' % (v.e, v.e, lvl, m))
def elems_ok(eng, st, v):
    """copying elements calls value(const value&), whose precondition is well-formedness"""
    c = eng.cur_contract
    if c is None or eng.group(c) != 'core': return
    if v.sort == 'Seq<Value>': eng.emit(st, 'precondition of value(const value&) for every element', 'wf_seq(%s)' % v.e)
    elif v.sort == 'Map<Seq<u8>, Value>': eng.emit(st, 'precondition of value(const value&) for every element', 'wf_map(%s)' % v.e)
    rec_elems(eng, st, v, 'value', 3)
@h('std::optional::reset', 'std::unique_ptr::reset')
def _(eng, st, e, o, a):
    v = eng.read(st, o); eng.write(st, o, O(False, None, v.psort, v.kind)); return one(st, Unit())
@h('std::optional::operator=', 'std::unique_ptr::operator=', 'std::shared_ptr::operator=')
def _(eng, st, e, o, a):
    v = eng.read(st, o); x = a[0]
    ref = e['pt'][0]['k']
    assign_alias(eng, st, o, x)
    y = eng.take(st, x) if ref == 'rref' and isinstance(x, LV) else eng.val(st, x)
    if isinstance(y, Unit) or isinstance(y, P): y = O(False, None, v.psort, v.kind)
    elif not isinstance(y, O): y = O(True, y, v.psort, v.kind)
    eng.write(st, o, O(y.has, y.val, v.psort, v.kind)); return one(st, o)
@c('std::unique_ptr', 'std::shared_ptr')
def _(eng, st, e, a):
    ps = eng.sort_of_type(e['t']['a'][0])
    if not a: return one(st, O(False, None, ps, 'ptr'))
    v = eng.val(st, a[0])
    if isinstance(v, P) and v.null is True: return one(st, O(False, None, ps, 'ptr'))
    if isinstance(v, O): return one(st, eng.take(st, a[0]))
    raise Unsupported('smart pointer from raw pointer')
@h('std::make_unique', 'std::make_shared')
def _(eng, st, e, o, a):
    t = strip(e['rt'])['a'][0]
    ps = eng.sort_of_type(t)
    n = strip(t).get('n', '')
    def done(s, v): return [(s, O(True, v, ps, 'ptr'))]
    if n in JREC:
        return eng.bind(jmake(eng, st, e, n, t, a), done)
    if not a: return one(st, O(True, eng.default(st, t), ps, 'ptr'))
    x = eng.take(st, a[0]) if e['pt'][0]['k'] == 'rref' else eng.val(st, a[0])
    return done(st, x)

def jmake(eng, st, e, n, t, a):
    """construct json class n from forwarded arguments a (types e['pt']): find the constructor overload resolution picked"""
    if not a: return one(st, eng.default(st, {'k': 'rec', 'n': n}))
    p0 = e['pt'][0]
    v = eng.val(st, a[0])
    same = strip(p0).get('n') == n
    if len(a) == 1 and same:
        # copy or move construction: through the contract / body of the real constructor
        f = find_ctor(eng, n, 'rref' if (p0['k'] == 'rref') else 'ref')
        return eng.construct(st, {'q': f['q'], 'fn': f['id'], 'pt': f['pt'], 't': {'k': 'rec', 'n': n}, 'rt': f.get('rt')}, a)
    f = find_ctor_for(eng, n, p0)
    return eng.construct(st, {'q': f['q'], 'fn': f['id'], 'pt': f['pt'], 't': {'k': 'rec', 'n': n}, 'rt': f.get('rt')}, a)

def tkey(t):
    t = dict(strip(t))
    def k(t):
        t = strip(t)
        if t['k'] == 'rec': return (t['n'], tuple(k(x) if isinstance(x, dict) else str(x) for x in t.get('a', [])))
        if t['k'] in ('ptr', 'arr'): return (t['k'], k(t['to']))
        return (t['k'], t.get('bits'), t.get('signed'), t.get('n'), t.get('v'))
    return k(t)

def find_ctor(eng, n, kind):
    for f in eng.funcs.values():
        if f.get('kind') == 'ctor' and f['cls']['n'] == n and len(f['pt']) == 1 and strip(f['pt'][0]).get('n') == n and f['pt'][0]['k'] == kind:
            return f
    raise Unsupported('copy/move constructor of %s' % n)
def find_ctor_for(eng, n, p):
    cands = []
    for f in eng.funcs.values():
        if f.get('kind') == 'ctor' and f['cls']['n'] == n and len(f['pt']) == 1 and tkey(f['pt'][0]) == tkey(p):
            cands.append(f)
    if len(cands) > 1:
        k = 'rref' if p['k'] == 'rref' else 'ref'
        cc = [f for f in cands if f['pt'][0]['k'] == k or (f['pt'][0]['k'] not in ('ref', 'rref'))]
        if cc: cands = cc
    if len(cands) == 1: return cands[0]
    raise Unsupported('constructor of %s from %s (%d candidates)' % (n, tkey(p), len(cands)))

# ------------------------------------------------------------------ variant
def var_alt(eng, t, p):
    """index of the alternative of variant type t selected for a value of type p"""
    key = tkey(p)
    for i, x in enumerate(t['a']):
        if tkey(x) == key: return i
    raise Unsupported('variant alternative')
@c('std::variant')
def _(eng, st, e, a):
    t = e['t']
    isv = eng.is_var(t); vs = eng.var_sort(t)
    if not a:
        if not vs: return one(st, R('variant', {'tag': I(0), 'val': eng.default(st, t['a'][0])}))
        return one(st, W(vs, 0, eng.default(st, t['a'][0])))
    p = e['pt'][0]
    if strip(p).get('n') == 'std::variant':
        return one(st, eng.take(st, a[0]) if p['k'] == 'rref' else eng.val(st, a[0]))
    try:
        i = var_alt(eng, t, p)
    except Unsupported:
        v0 = eng.val(st, a[0])
        if isv and (isinstance(v0, It) or (isinstance(v0, L) and v0.sort == 'Seq<u8>')): return one(st, W('Var', 0, L('Seq<u8>', seq(eng, st, v0))))
        raise
    v = eng.take(st, a[0]) if p['k'] == 'rref' else eng.val(st, a[0])
    if not vs: return one(st, R('variant', {'tag': I(i), 'val': v}))
    return one(st, W(vs, i, v))
@h('std::variant::operator=')
def _(eng, st, e, o, a):
    p = e['pt'][0]
    assign_alias(eng, st, o, a[0])
    if strip(p).get('n') == 'std::variant':
        v = eng.take(st, a[0]) if p['k'] == 'rref' and isinstance(a[0], LV) else eng.val(st, a[0])
        eng.write(st, o, v); return one(st, o)
    t = e['cls']
    i = var_alt(eng, t, p)
    v = eng.take(st, a[0]) if p['k'] == 'rref' and isinstance(a[0], LV) else eng.val(st, a[0])
    eng.write(st, o, W(eng.var_sort(t), i, v) if eng.var_sort(t) else R('variant', {'tag': I(i), 'val': v})); return one(st, o)

@h('std::visit')
def _(eng, st, e, o, a):
    # the visitor is called with the alternative the variant holds
    if len(a) != 2: raise Unsupported('visit of several variants')
    f = eng.val(st, a[0]); t = strip(e['pt'][1]); lv = eng.lval(st, a[1]); v = eng.read(st, lv)
    out = []
    for i, x in enumerate(t['a']):
        tag = cur_tag(eng, st, v, i)
        if tag is False: continue
        s = st.fork()
        if tag is not True: s.assume(tag)
        out += eng.call_lambda(s, f, [alt_lv(eng, s, lv, v, i)], [x])
    return out

def cur_tag(eng, st, v, i):
    if isinstance(v, W): return v.tag == i
    if isinstance(v, L) and v.sort in VARIANTS: return VARIANTS[v.sort]['is'](v.e, i)
    if isinstance(v, R) and v.name == 'variant': return eq(v.f['tag'].e, i)
    raise Unsupported('variant')
def alt_lv(eng, st, o, v, i):
    if isinstance(v, R): return eng.derive(st, o, ('f', 'val'))
    return eng.derive(st, o, ('alt', i))
@h('std::get')
def _(eng, st, e, o, a):
    v = eng.val(st, a[0]); n = strip(e['pt'][0]).get('n')
    o = eng.lval(st, a[0])
    if n in ('std::pair', 'std::tuple'):
        i = get_index(e)
        x = eng.derive(st, o, ('t', i))
        y = eng.read(st, x)
        return one(st, y if isinstance(y, LV) else x)
    if n == 'std::array': return one(st, eng.derive(st, o, ('i', get_index(e))))
    if n == 'std::variant':
        i = var_alt(eng, strip(e['pt'][0]), e['rt']) if not isinstance(tmpl0(e), int) else tmpl0(e)
        tag = cur_tag(eng, st, v, i)
        out = []
        if tag is not True:
            out.append((st.fork().assume(not_(tag)), Throw('std::bad_variant_access')))
            if tag is False: return out
            st.assume(tag)
        out.append((st, alt_lv(eng, st, o, v, i)))
        return out
    raise Unsupported('std::get')
def tmpl0(e):
    ta = e.get('ta')
    if ta:
        x = ta[0]
        if isinstance(x, dict) and 'i' in x: return int(x['i'])
        if isinstance(x, dict) and x.get('k') in ('const', 'ival') and 'v' in x: return int(x['v'])
        if isinstance(x, int): return x
        if isinstance(x, str) and x.isdigit(): return int(x)
    return None
def get_index(e):
    i = tmpl0(e)
    if i is not None: return i
    raise Unsupported('std::get without a constant index')
@h('std::get_if')
def _(eng, st, e, o, a):
    p = eng.val(st, a[0])
    v = eng.read(st, p.lv)
    t = strip(e['pt'][0]); t = strip(t['to']) if t['k'] == 'ptr' else t
    rt = strip(e['rt']); want = rt['to'] if rt['k'] == 'ptr' else rt
    i = tmpl0(e)
    if not isinstance(i, int): i = var_alt(eng, t, want)
    tag = cur_tag(eng, st, v, i)
    return one(st, P(not_(tag), alt_lv(eng, st, p.lv, v, i)))
@h('std::holds_alternative')
def _(eng, st, e, o, a):
    v = eng.val(st, a[0]); i = var_alt(eng, strip(e['pt'][0]), e['ta'][0])
    return one(st, B(cur_tag(eng, st, v, i)))
@h('std::variant::index')
def _(eng, st, e, o, a):
    v = eng.val(st, o)
    if isinstance(v, W): return one(st, I(v.tag, ('i', 64, False)))
    if isinstance(v, R): return one(st, I(v.f['tag'].e, ('i', 64, False)))
    return one(st, I('(if %s is S { 0 } else { if %s is A { 1 } else { 2 } })' % (v.e, v.e), ('i', 64, False)))

# ------------------------------------------------------------------ vector<value> and other sequences
SEQS = ('std::vector', 'std::list', 'std::deque')
def vseq(eng, st, o):
    v = eng.val(st, o)
    if isinstance(v, L) and v.sort.startswith('Seq<'): return v
    raise Unsupported('sequence %s' % v.sort)
def es_of(v): return v.sort[4:-1]
for V in SEQS:
    @c(V)
    def _(eng, st, e, a):
        sort = eng.sort_of_type(e['t']); es = sort[4:-1]
        a = [x for x, p in zip(a, e['pt']) if strip(p).get('n') not in ('std::allocator', 'std::less')]
        if not a: return one(st, L(sort, 'Seq::<%s>::empty()' % es))
        v = eng.val(st, a[0])
        if len(a) == 1 and isinstance(v, L) and v.sort == sort:
            if e['pt'][0]['k'] == 'rref' and isinstance(a[0], LV): return one(st, eng.take(st, a[0]))
            elems_ok(eng, st, v)
            return one(st, v)
        if len(a) == 1 and isinstance(v, I):
            d = eng.default(st, e['t']['a'][0])
            return one(st, L(sort, 'vrep(%s, %s)' % (lit(v.e), d.x())))
        if len(a) == 2 and isinstance(v, It) and v.kind == 'vec' and not v.rev:
            l = eng.val(st, a[1])
            eng.it_valid(st, v)
            src = eng.read(st, v.lv) if v.lv is not None else L(sort, v.snap)
            eng.emit(st, 'iterated range is valid', and_(and_(le(0, v.idx), le(v.idx, l.idx)), le(l.idx, '(%s.len() as int)' % src.e)))
            rng = src.e if v.idx == 0 and l.idx == '(%s.len() as int)' % src.e else '%s.subrange(%s, %s)' % (src.e, lit(v.idx), lit(l.idx))
            if getattr(v, 'moving', False) and v.lv is not None:
                m = eng.sym('moved', src.sort); st.assume('%s.len() == %s.len()' % (m, src.e))
                eng.write(st, v.lv, L(src.sort, m))
            else: elems_ok(eng, st, L(src.sort, src.e))
            return one(st, L(sort, rng))
        raise Unsupported('vector constructor')
    for nm, end in (('cbegin', 0), ('begin', 0), ('cend', 1), ('end', 1)):
        @h(V + '::' + nm)
        def _(eng, st, e, o, a, end=end): return one(st, iter_of(eng, st, o, 'vec', bool(end)))
    for nm, end in (('rbegin', 0), ('crbegin', 0), ('rend', 1), ('crend', 1)):
        @h(V + '::' + nm)
        def _(eng, st, e, o, a, end=end): return one(st, iter_of(eng, st, o, 'vec', bool(end), True))
    @h(V + '::size')
    def _(eng, st, e, o, a): return one(st, I('(%s.len() as int)' % vseq(eng, st, o).e, ('i', 64, False)))
    @h(V + '::empty')
    def _(eng, st, e, o, a): return one(st, B('(%s.len() == 0)' % vseq(eng, st, o).e))
    @h(V + '::reserve')
    def _(eng, st, e, o, a):
        eng.kill(st, o); return one(st, Unit())
    @h(V + '::clear')
    def _(eng, st, e, o, a):
        v = vseq(eng, st, o); eng.write(st, o, L(v.sort, 'Seq::<%s>::empty()' % es_of(v))); return one(st, Unit())
    @h(V + '::operator[]')
    def _(eng, st, e, o, a):
        i = eng.val(st, a[0]).e; v = vseq(eng, st, o)
        eng.emit(st, 'vector index in range', and_(le(0, i), lt(i, '(%s.len() as int)' % v.e)))
        return one(st, eng.derive(st, eng.lval(st, o), ('i', i)))
    @h(V + '::data')
    def _(eng, st, e, o, a): return one(st, iter_of(eng, st, o, 'vec', False))
    @h(V + '::back')
    def _(eng, st, e, o, a):
        v = vseq(eng, st, o)
        eng.emit(st, 'back() of a non-empty vector', '%s.len() > 0' % v.e)
        return one(st, eng.derive(st, o, ('i', '(%s.len() - 1)' % v.e)))
    @h(V + '::front')
    def _(eng, st, e, o, a):
        v = vseq(eng, st, o)
        eng.emit(st, 'front() of a non-empty vector', '%s.len() > 0' % v.e)
        return one(st, eng.derive(st, o, ('i', 0)))
    @h(V + '::at')
    def _(eng, st, e, o, a):
        i = eng.val(st, a[0]).e; v = vseq(eng, st, o)
        ok = lt(i, '(%s.len() as int)' % v.e)
        out = [(st.fork().assume(not_(ok)), Throw('std::out_of_range'))]
        st.assume(ok)
        out.append((st, eng.derive(st, eng.lval(st, o), ('i', i))))
        return out
    @h(V + '::emplace_back', V + '::push_back')
    def _(eng, st, e, o, a):
        v = vseq(eng, st, o); es = es_of(v)
        def done(s, x):
            cur = vseq(eng, s, o)
            nm = name_seq(eng, s, '%s.push(%s)' % (cur.e, x.x() if es != 'u8' else tobyte(x)), v.sort, 'vec')
            ln = '(%s.len() as int)' % cur.e
            eng.write(s, o, L(v.sort, nm))
            return [(s, eng.derive(s, o, ('i', ln)))] if e.get('rt', {}).get('k') != 'void' else [(s, Unit())]
        return eng.bind(elem(eng, st, e, a, o), done)
    @h(V + '::pop_back')
    def _(eng, st, e, o, a):
        v = vseq(eng, st, o)
        eng.emit(st, 'pop_back() of a non-empty vector', '%s.len() > 0' % v.e)
        eng.write(st, o, L(v.sort, '%s.drop_last()' % v.e)); return one(st, Unit())
    @h(V + '::erase')
    def _(eng, st, e, o, a):
        v = vseq(eng, st, o); it = eng.val(st, a[0])
        if len(a) != 1 or it.rev: raise Unsupported('erase')
        eng.it_valid(st, it)
        if it.tok != o.key(): eng.emit(st, 'erased iterator belongs to the container', False)
        eng.emit(st, 'erased iterator is dereferenceable', and_(le(0, it.idx), lt(it.idx, '(%s.len() as int)' % v.e)))
        eng.write(st, o, L(v.sort, name_seq(eng, st, '%s.remove(%s)' % (v.e, lit(it.idx)), v.sort, 'vec')))
        r = iter_of(eng, st, o, 'vec', False)
        return one(st, r.at(it.idx))
    @h(V + '::insert')
    def _(eng, st, e, o, a):
        v = vseq(eng, st, o); pos = eng.val(st, a[0])
        if len(a) != 3: raise Unsupported('vector::insert')
        f, l = eng.val(st, a[1]), eng.val(st, a[2])
        if not (isinstance(f, It) and f.kind == 'vec' and not f.rev): raise Unsupported('vector::insert')
        eng.it_valid(st, pos); eng.it_valid(st, f)
        # [sequence.reqmts] i and j are not iterators into a
        if f.lv is not None and f.lv.key() == o.key(): eng.emit(st, 'inserted range does not belong to the vector itself', False)
        src = eng.read(st, f.lv) if f.lv is not None else L(v.sort, f.snap)
        if f.lv is not None and len(o.path) < len(f.lv.path) and f.lv.root == o.root and f.lv.path[:len(o.path)] == o.path:
            # the range lives inside an element of the vector: valid only while no reallocation happens
            eng.emit(st, 'inserted range does not live inside the vector itself', False)
        eng.emit(st, 'inserted range is valid', and_(and_(le(0, f.idx), le(f.idx, l.idx)), le(l.idx, '(%s.len() as int)' % src.e)))
        n = '(%s.len() as int)' % v.e
        rng = src.e if f.idx == 0 and l.idx == '(%s.len() as int)' % src.e else '%s.subrange(%s, %s)' % (src.e, lit(f.idx), lit(l.idx))
        if getattr(f, 'moving', False) and f.lv is not None:
            m = eng.sym('moved', src.sort); st.assume('%s.len() == %s.len()' % (m, src.e))
            eng.write(st, f.lv, L(src.sort, m))
        if pos.idx == n: r = '(%s + %s)' % (v.e, rng)
        else: r = '(%s.subrange(0, %s) + %s + %s.subrange(%s, %s))' % (v.e, lit(pos.idx), rng, v.e, lit(pos.idx), n)
        eng.write(st, o, L(v.sort, name_seq(eng, st, r, v.sort, 'vec')))
        return one(st, iter_of(eng, st, o, 'vec', False).at(pos.idx))
    @h(V + '::operator=')
    def _(eng, st, e, o, a):
        assign_alias(eng, st, o, a[0])
        mv = e['pt'][0]['k'] == 'rref' and isinstance(a[0], LV)
        x = eng.take(st, a[0]) if mv else eng.val(st, a[0])
        if not mv and isinstance(x, L): elems_ok(eng, st, x)
        eng.write(st, o, x); return one(st, o)

def elem(eng, st, e, a, o):
    """element constructed from forwarded arguments"""
    t = strip(e['cls'])['a'][0]
    n = strip(t).get('n', '')
    if n in JREC: return jmake(eng, st, e, n, t, a)
    if len(a) == 1: return one(st, eng.take(st, a[0]) if e['pt'][0]['k'] == 'rref' and isinstance(a[0], LV) else eng.val(st, a[0]))
    if not a: return one(st, eng.default(st, t))
    raise Unsupported('element construction')

# ------------------------------------------------------------------ set<T>, unordered_set<T>: iterated in a fixed order se(s) of the elements
for S_ in ('std::set', 'std::unordered_set'):
    @c(S_)
    def _(eng, st, e, a):
        sort = eng.sort_of_type(e['t'])
        if not a: return one(st, L(sort, 'Set::<%s>::empty()' % sort[4:-1]))
        v = eng.val(st, a[0])
        if len(a) == 1 and isinstance(v, L) and v.sort == sort:
            return one(st, eng.take(st, a[0]) if e['pt'][0]['k'] == 'rref' and isinstance(a[0], LV) else v)
        raise Unsupported('set constructor')
    for nm, end in (('cbegin', 0), ('begin', 0), ('cend', 1), ('end', 1)):
        @h(S_ + '::' + nm)
        def _(eng, st, e, o, a, end=end):
            v = eng.val(st, o)
            s = 'se(%s)' % name_seq(eng, st, v.e, v.sort, 'set')
            it = It('vec', s, '(%s.len() as int)' % s if end else 0, ('se', s)); it.sort_ = 'Seq<%s>' % v.sort[4:-1]; it.born = eng.tick()
            st.assume('%s.len() <= 0x7fff_ffff_ffff_ffff' % s)
            return one(st, it)
    @h(S_ + '::size')
    def _(eng, st, e, o, a): return one(st, I('(%s.len() as int)' % eng.val(st, o).e, ('i', 64, False)))
    @h(S_ + '::empty')
    def _(eng, st, e, o, a): return one(st, B('(%s.len() == 0)' % eng.val(st, o).e))
    @h(S_ + '::clear')
    def _(eng, st, e, o, a):
        v = eng.val(st, o); eng.write(st, o, L(v.sort, 'Set::<%s>::empty()' % v.sort[4:-1])); return one(st, Unit())
    @h(S_ + '::reserve')
    def _(eng, st, e, o, a): return one(st, Unit())
    @h(S_ + '::contains', S_ + '::count')
    def _(eng, st, e, o, a):
        v = eng.val(st, o); cnd = '%s.contains(%s)' % (v.e, eng.val(st, a[0]).x())
        return one(st, B(cnd) if e['q'].endswith('contains') else I('(if %s { 1int } else { 0int })' % cnd, ('i', 64, False), None, 0, (0, 1)))
    @h(S_ + '::insert', S_ + '::emplace')
    def _(eng, st, e, o, a):
        if len(a) != 1 or strip(e['pt'][0]).get('n') == 'std::initializer_list': raise Unsupported('set insertion')
        if tkey(e['pt'][0]) != tkey(strip(e['cls'])['a'][0]): raise Unsupported('conversion on set insertion')
        v = eng.val(st, o); x = eng.take(st, a[0]) if e['pt'][0]['k'] == 'rref' and isinstance(a[0], LV) else eng.val(st, a[0])
        eng.write(st, o, L(v.sort, name_seq(eng, st, '%s.insert(%s)' % (v.e, x.x()), v.sort, 'set')))
        return one(st, Unit())

# ------------------------------------------------------------------ map<string, value>
MAPS = ('std::map', 'std::unordered_map')
def mp(eng, st, o):
    v = eng.val(st, o)
    if isinstance(v, L) and v.sort.startswith('Map<'): return v
    raise Unsupported('map %s' % v.sort)
def mval(v): return split_sorts(v.sort[4:-1])[1]
def from_list(eng, st, sort, e):
    if sort == 'Map<Seq<u8>, Value>' and eng.cur_contract is not None and eng.group(eng.cur_contract) == 'core': eng.emit(st, 'precondition of value(const value&) for every element', 'wf_list(%s)' % e)
    return one(st, L(sort, 'list_map(%s, (%s.len() as int))' % (e, e)))
for M in MAPS:
    @c(M)
    def _(eng, st, e, a):
        sort = eng.sort_of_type(e['t'])
        a = [x for x, p in zip(a, e['pt']) if strip(p).get('n') not in ('std::allocator', 'std::less')]
        if not a: return one(st, L(sort, 'Map::<%s>::empty()' % sort[4:-1]))
        v = eng.val(st, a[0])
        if len(a) == 1 and isinstance(v, L) and v.sort == sort:
            if e['pt'][0]['k'] == 'rref' and isinstance(a[0], LV): return one(st, eng.take(st, a[0]))
            elems_ok(eng, st, v)
            return one(st, v)
        if len(a) == 1 and isinstance(v, L) and v.sort == 'Seq<(%s)>' % sort[4:-1] and e['t']['n'] == 'std::map': return from_list(eng, st, sort, v.e)
        if len(a) == 2 and isinstance(v, It) and v.kind == 'map':
            l = eng.val(st, a[1])
            eng.it_valid(st, v)
            if v.idx == 0 and l.idx == '(ks(%s).len() as int)' % v.snap:
                if getattr(v, 'moving', False) and v.lv is not None:
                    src = eng.read(st, v.lv)
                    m = eng.sym('moved', src.sort); st.assume('%s.dom() == %s.dom()' % (m, src.e))
                    eng.write(st, v.lv, L(src.sort, m))
                else: elems_ok(eng, st, L(sort, v.snap))
                return one(st, L(sort, v.snap))
        if len(a) == 2 and isinstance(v, It) and v.kind == 'vec' and v.lv is None and not v.rev and v.idx == 0 and e['t']['n'] == 'std::map':   # the first of equal keys stays
            l = eng.val(st, a[1]); n = '(%s.len() as int)' % v.snap
            if l.idx == n and l.snap == v.snap and v.sort_ == 'Seq<(%s)>' % sort[4:-1]:
                return from_list(eng, st, sort, v.snap)
        raise Unsupported('map constructor')
    for nm, end in (('cbegin', 0), ('begin', 0), ('cend', 1), ('end', 1)):
        @h(M + '::' + nm)
        def _(eng, st, e, o, a, end=end): return one(st, iter_of(eng, st, o, 'map', bool(end)))
    @h(M + '::size')
    def _(eng, st, e, o, a): return one(st, I('(%s.dom().len() as int)' % mp(eng, st, o).e, ('i', 64, False)))
    @h(M + '::empty')
    def _(eng, st, e, o, a): return one(st, B('(%s.dom().len() == 0)' % mp(eng, st, o).e))
    @h(M + '::clear')
    def _(eng, st, e, o, a):
        v = mp(eng, st, o); eng.write(st, o, L(v.sort, 'Map::<%s>::empty()' % v.sort[4:-1])); return one(st, Unit())
    @h(M + '::find')
    def _(eng, st, e, o, a):
        v = mp(eng, st, o); k = seq(eng, st, a[0])
        it = iter_of(eng, st, o, 'map', False)
        n = eng.sym('it', 'int')
        end = '(ks(%s).len() as int)' % it.snap
        st.assume('(%s.dom().contains(%s)) ==> (0 <= %s < %s && ks(%s)[%s] == %s)' % (it.snap, k, n, end, it.snap, n, k))
        st.assume('!(%s.dom().contains(%s)) ==> %s == %s' % (it.snap, k, n, end))
        r = it.at(n); r.key = k
        return one(st, r)
    @h(M + '::count', M + '::contains')
    def _(eng, st, e, o, a):
        v = mp(eng, st, o); k = seq(eng, st, a[0]); cnd = '%s.dom().contains(%s)' % (v.e, k)
        return one(st, B(cnd) if e['q'].endswith('contains') else I('(if %s { 1int } else { 0int })' % cnd, ('i', 64, False), None, 0, (0, 1)))
    @h(M + '::at')
    def _(eng, st, e, o, a):
        v = mp(eng, st, o); k = seq(eng, st, a[0]); cnd = '%s.dom().contains(%s)' % (v.e, k)
        out = [(st.fork().assume(not_(cnd)), Throw('std::out_of_range'))]
        st.assume(cnd)
        out.append((st, eng.derive(st, eng.lval(st, o), ('k', k)))); return out
    @h(M + '::operator[]')
    def _(eng, st, e, o, a):
        v = mp(eng, st, o); k = name_seq(eng, st, seq(eng, st, a[0]))
        if e['pt'][0]['k'] == 'rref' and isinstance(a[0], LV): eng.take(st, a[0])
        d = eng.default(st, e['cls']['a'][1])
        n = eng.sym('mp', v.sort)
        st.assume('%s == (if %s.dom().contains(%s) { %s } else { %s.insert(%s, %s) })' % (n, v.e, k, v.e, v.e, k, d.x()))
        # references to existing elements stay valid: no kill
        eng.write(st, o, L(v.sort, n), keep=True)
        return one(st, eng.derive(st, o, ('k', k)))
    @h(M + '::erase')
    def _(eng, st, e, o, a):
        v = mp(eng, st, o); x = eng.val(st, a[0])
        if isinstance(x, It):
            eng.it_valid(st, x)
            if x.tok != o.key(): eng.emit(st, 'erased iterator belongs to the container', False)
            eng.emit(st, 'erased iterator is dereferenceable', and_(le(0, x.idx), lt(x.idx, '(ks(%s).len() as int)' % v.e)))
            eng.write(st, o, L(v.sort, name_seq(eng, st, '%s.remove(ks(%s)[%s])' % (v.e, v.e, lit(x.idx)), v.sort, 'mp')))
            return one(st, iter_of(eng, st, o, 'map', False).at(x.idx))
        k = seq(eng, st, x); cnd = '%s.dom().contains(%s)' % (v.e, k)
        eng.write(st, o, L(v.sort, name_seq(eng, st, '%s.remove(%s)' % (v.e, k), v.sort, 'mp')))
        return one(st, I(ite(cnd, '1int', '0int'), ('i', 64, False)))
    def map_ins(eng, st, e, o, a, assign):
        v = mp(eng, st, o); k = name_seq(eng, st, seq(eng, st, a[0]))
        cnd = '%s.dom().contains(%s)' % (v.e, k)
        if e['pt'][0]['k'] == 'rref' and isinstance(a[0], LV) and strip(e['pt'][0]).get('n') == 'std::basic_string' and not is_constlv(a[0]):
            eng.take(st, a[0])
        e2 = dict(e); e2['pt'] = e['pt'][1:]
        t = strip(e['cls'])['a'][1]
        def done(s, x):
            cur = mp(eng, s, o)
            ins = '%s.insert(%s, %s)' % (cur.e, k, x.x())
            n = eng.sym('mp', v.sort)
            s.assume('%s == %s' % (n, ins if assign else '(if %s.dom().contains(%s) { %s } else { %s })' % (cur.e, k, cur.e, ins)))
            if assign:
                eng.write(s, o, L(v.sort, n), keep=True)
                eng.kill(s, eng.derive(s, o, ('k', k)))
            else: eng.write(s, o, L(v.sort, n), keep=True)
            it = iter_of(eng, s, o, 'map', False)
            i = eng.sym('it', 'int'); s.assume('0 <= %s < ks(%s).len() && ks(%s)[%s] == %s' % (i, it.snap, it.snap, i, k))
            return [(s, R('tuple', {0: it.at(i), 1: B(not_('%s.dom().contains(%s)' % (cur.e, k)))}))]
        n = strip(t).get('n', '')
        if n in JREC: rs = jmake(eng, st, e2, n, t, a[1:])
        elif len(a) == 2: rs = one(st, eng.take(st, a[1]) if e['pt'][1]['k'] == 'rref' and isinstance(a[1], LV) else eng.val(st, a[1]))
        else: raise Unsupported('map insertion')
        return eng.bind(rs, done)
    @h(M + '::emplace', M + '::try_emplace')
    def _(eng, st, e, o, a): return map_ins(eng, st, e, o, a, False)
    @h(M + '::insert')
    def _(eng, st, e, o, a):
        p0 = strip(e['pt'][0])
        if len(a) != 1 or p0.get('n') != 'std::pair': raise Unsupported('map insertion of this')
        mv = e['pt'][0]['k'] == 'rref'
        x = eng.take(st, a[0]) if mv and isinstance(a[0], LV) else eng.val(st, a[0])
        if isinstance(x, R) and x.name == 'mapentry': k, v = x.f['first'], eng.val(st, x.f['second'])
        elif isinstance(x, R): k, v = eng.val(st, x.f[0]), eng.val(st, x.f[1])
        else: k, v = eng.proj(st, x, ('t', 0)), eng.proj(st, x, ('t', 1))
        t = strip(e['cls'])['a'][1]
        return map_ins(eng, st, dict(e, pt=[{'k': 'ref', 'to': strip(p0['a'][0])}, {'k': 'rref' if mv else 'ref', 'to': t}]), o, [k, v], False)
    @h(M + '::insert_or_assign')
    def _(eng, st, e, o, a): return map_ins(eng, st, e, o, a, True)
    @h(M + '::operator=')
    def _(eng, st, e, o, a):
        assign_alias(eng, st, o, a[0])
        mv = e['pt'][0]['k'] == 'rref' and isinstance(a[0], LV)
        x = eng.take(st, a[0]) if mv else eng.val(st, a[0])
        if not mv and isinstance(x, L): elems_ok(eng, st, x)
        eng.write(st, o, x); return one(st, o)
def is_constlv(l): return False

# ------------------------------------------------------------------ pair / tuple
@c('std::array')
def _(eng, st, e, a):
    if a: raise Unsupported('std::array construction')
    return one(st, eng.default(st, e['t']))
@c('std::less')
def _(eng, st, e, a): return one(st, Unit())
@c('std::pair', 'std::tuple')
def _(eng, st, e, a):
    ts = e['t']['a']
    if not a: return one(st, eng.default(st, e['t']))
    if len(a) == 1 and strip(e['pt'][0]).get('n') == e['t']['n']:
        v = eng.val(st, a[0]); return one(st, v)
    f = {}
    for i, (t, x) in enumerate(zip(ts, a)):
        if t['k'] in ('ref', 'rref'): f[i] = eng.lval(st, x)
        else: f[i] = eng.take(st, x) if e['pt'][i]['k'] == 'rref' and isinstance(x, LV) else eng.val(st, x)
        if isinstance(f[i], It) and t.get('n') in STRINGS: f[i] = L('Seq<u8>', name_seq(eng, st, seq(eng, st, f[i])))
    return one(st, R('tuple', f))
@h('std::tuple::operator=', 'std::pair::operator=')
def _(eng, st, e, o, a):
    v = eng.read(st, o); x = a[0]
    if strip(e['pt'][0]).get('n') != e['cls']['n'] or strip(e['pt'][0]).get('a') != e['cls'].get('a'): raise Unsupported('converting assignment of a tuple')
    assign_alias(eng, st, o, x)
    y = eng.take(st, x) if e['pt'][0]['k'] == 'rref' and isinstance(x, LV) else eng.val(st, x)
    eng.write(st, o, y); return one(st, o)
@h('std::forward_as_tuple', 'std::tie')
def _(eng, st, e, o, a): return one(st, R('tuple', {i: eng.lval(st, x) for i, x in enumerate(a)}))
@c('std::integer_sequence')
def _(eng, st, e, a): return one(st, Unit())
@h('std::make_pair', 'std::make_tuple')
def _(eng, st, e, o, a): return one(st, R('tuple', {i: eng.val(st, x) for i, x in enumerate(a)}))
def arr_len(e):
    a = strip(e['cls']).get('a', [])
    if len(a) == 2 and isinstance(a[1], dict) and 'v' in a[1]: return int(a[1]['v'])
    raise Unsupported('std::array')
@h('std::array::size', 'std::array::max_size')
def _(eng, st, e, o, a): return one(st, I(arr_len(e), ('i', 64, False)))
@h('std::array::empty')
def _(eng, st, e, o, a): return one(st, B(arr_len(e) == 0))
for nm, end in (('cbegin', 0), ('begin', 0), ('data', 0), ('cend', 1), ('end', 1)):
    @h('std::array::' + nm)
    def _(eng, st, e, o, a, end=end): return one(st, iter_of(eng, st, o, 'vec', bool(end)))
@h('std::array::at')
def _(eng, st, e, o, a):
    i = eng.val(st, a[0]).e; n = arr_len(e); ok = lt(i, n)
    f = e.copy(); f['q'] = 'std::array::operator[]'
    out = []
    if ok is not True:
        out.append((st.fork().assume(not_(ok)), Throw('std::out_of_range')))
        if ok is False: return out
        st.assume(ok)
    return out + H['std::array::operator[]'](eng, st, f, o, a)
@h('std::array::front', 'std::array::back')
def _(eng, st, e, o, a):
    n = arr_len(e)
    eng.emit(st, 'front() or back() of a non-empty array', n > 0)
    if not n: return bad_index(eng, st)
    return one(st, eng.derive(st, eng.lval(st, o), ('i', 0 if e['q'].endswith('front') else n - 1)))
@h('std::array::operator[]')
def _(eng, st, e, o, a):
    i = eng.val(st, a[0]).e; v = eng.val(st, o)
    n = None
    t = e['cls']
    for x in t.get('a', []):
        if isinstance(x, dict) and x.get('k') == 'ival': n = int(x['v'])
    if isinstance(v, R) and isc(i):
        if i not in v.f: return bad_index(eng, st)
        return one(st, eng.derive(st, eng.lval(st, o), ('i', i)))
    if isinstance(v, R):
        eng.emit(st, 'array index in range', and_(le(0, i), lt(i, len(v.f))))
        xs = [v.f[k] for k in sorted(v.f)]
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1): r = eng.merge_vals(eq(i, k), xs[k], r)
        return one(st, r)
    eng.emit(st, 'array index in range', and_(le(0, i), lt(i, '%s.len()' % v.e)))
    return one(st, eng.derive(st, eng.lval(st, o), ('i', i)))

# ------------------------------------------------------------------ free operators on strings and containers
def is_seqlike(v): return isinstance(v, L) and v.sort == 'Seq<u8>' or isinstance(v, It) and v.kind == 'str' and v.nul
@h('std::operator+')
def _(eng, st, e, o, a):
    x, y = eng.val(st, a[0]), eng.val(st, a[1])
    def s(v): return 'seq![%s]' % tobyte(v) if isinstance(v, I) else seq(eng, st, v)
    return one(st, L('Seq<u8>', name_seq(eng, st, '(%s + %s)' % (s(x), s(y)))))
@h('std::operator==', 'std::operator!=')
def _(eng, st, e, o, a):
    op = e['q'].split('operator')[1]
    x, y = eng.val(st, a[0]), eng.val(st, a[1])
    if isinstance(x, It) and isinstance(y, It) and not (x.nul or y.nul): return one(st, B(eng.compare(st, op, x, y)))
    neg = op == '!='
    if is_seqlike(x) and is_seqlike(y):
        p, q = seq(eng, st, x), seq(eng, st, y)
        if p == q: r = True
        elif lit_bytes(p) is not None and lit_bytes(q) is not None: r = lit_bytes(p) == lit_bytes(q)
        else: r = '(%s =~= %s)' % (p, q)
        return one(st, B(not_(r) if neg else r))
    if isinstance(x, O) and (isinstance(y, (Unit, P))):
        return one(st, B(not_(x.has) if not neg else x.has))
    sx, sy = sortof_safe(x), sortof_safe(y)
    if sx == sy and sx in ('Seq<Value>', 'Map<Seq<u8>, Value>', 'Var'):
        # element-wise comparison with value::operator== (its contract: veq; throws when an invalid value is met)
        fn = {'Seq<Value>': 'seq_veq', 'Map<Seq<u8>, Value>': 'map_veq', 'Var': 'var_veq'}[sx]
        if sx != 'Var': rec_elems(eng, st, x, 'value', 1)
        if sx == 'Var':
            r = '%s(%s, %s)' % (fn, x.x(), y.x())
            return one(st, B(not_(r) if neg else r))
        n = eng.sym('cmp', 'Option<bool>'); st.assume('%s == %s(%s, %s)' % (n, fn, x.x(), y.x()))
        out = [(st.fork().assume('%s is None' % n), Throw('json::exception'))]
        st.assume('%s is Some' % n)
        r = '%s->Some_0' % n
        out.append((st, B(not_(r) if neg else r)))
        return out
    raise Unsupported('operator== on %s and %s' % (sx, sy))

# ------------------------------------------------------------------ numbers and text
@h('std::to_string')
def _(eng, st, e, o, a):
    v = eng.val(st, a[0])
    if v.sort == 'Fl': return one(st, L('Seq<u8>', 'fl_fixed(%d, %s)' % (flk(e['pt'][0]), v.e)))
    if not isinstance(v, I): raise Unsupported('std::to_string')
    return one(st, L('Seq<u8>', 'dec(%s)' % lit(v.e)))
@h('std::from_chars')
def _(eng, st, e, o, a):
    f, l = eng.val(st, a[0]), eng.val(st, a[1]); out_ = a[2]
    cur = eng.read(st, out_)
    if not isinstance(cur, I): raise Unsupported('from_chars of a floating point number')
    base = eng.val(st, a[3]).e if len(a) > 3 else 10
    if base != 10: raise Unsupported('from_chars base')
    eng.emit(st, 'character range is valid', and_(and_(le(0, f.idx), le(f.idx, l.idx)), le(l.idx, eng.it_len(f))))
    lo, hi = int_range(cur.ty)
    s_ = name_seq(eng, st, '%s.subrange(%s, %s)' % (f.snap, lit(f.idx), lit(l.idx)), base='rng')
    n = eng.sym('consumed', 'int'); v = eng.sym('parsed', 'int'); ec = eng.sym('ec', 'int')
    sg = 'true' if cur.ty[2] else 'false'
    # [charconv.from.chars]: longest prefix matching [-](digits); -> value, invalid_argument (22), result_out_of_range (34)
    st.assume('%s == fc_len(%s, %s)' % (n, s_, sg))
    st.assume('%s == (if %s == 0 { 22int } else { if %s <= fc_val(%s, %s) <= %s { 0int } else { 34int } })' % (ec, n, lit(lo), s_, sg, lit(hi)))
    st.assume('%s == (if %s == 0 { fc_val(%s, %s) } else { %s })' % (v, ec, s_, sg, lit(cur.e)))
    st.assume('%s <= %s <= %s' % (lit(lo), v, lit(hi)), '0 <= %s <= %s.len()' % (n, s_))
    eng.write(st, out_, I(v, cur.ty), keep=True)
    return one(st, R('fcres', {'ptr': f.at(add(f.idx, n)), 'ec': I(ec, ('enum', 32, True))}))
@h('std::tolower', 'tolower')
def _(eng, st, e, o, a):
    x = eng.val(st, a[0]).e
    eng.emit(st, 'argument of tolower is an unsigned char value', and_(le(0, x), le(x, 255)))
    if isc(x): return one(st, I(x + 32 if 65 <= x <= 90 else x, ('i', 32, True)))
    return one(st, I('tolower_(%s)' % lit(x), ('i', 32, True)))

LL = ('i', 64, True)
# ------------------------------------------------------------------ floating point
ST = {'stof': 1, 'stod': 2, 'stold': 3, 'strtof': 1, 'strtod': 2, 'strtold': 3}
@h('std::stof', 'std::stod', 'std::stold')
def _(eng, st, e, o, a):
    k = ST[e['q'][5:]]; s = seq(eng, st, a[0])
    out = [(st.fork().assume('st_len(%d, %s) == 0' % (k, s)), Throw('std::invalid_argument')),
           (st.fork().assume('st_len(%d, %s) > 0 && st_range(%d, %s)' % (k, s, k, s)), Throw('std::out_of_range'))]
    st.assume('st_len(%d, %s) > 0 && !st_range(%d, %s)' % (k, s, k, s))
    p = eng.val(st, a[1]) if len(a) > 1 else None
    if isinstance(p, P) and p.null is not True:
        if p.null is not False: raise Unsupported('position pointer')
        eng.write(st, p.lv, I('st_len(%d, %s)' % (k, s), ('i', 64, False)))
    return out + [(st, L('Fl', 'st_val(%d, %s)' % (k, s)))]
def errno(eng, st):
    if 'errno' not in st.store:
        n = eng.sym('errno', 'int'); st.assume('-0x8000_0000 <= %s <= 0x7fff_ffff' % n)
        st.store['errno'] = I(n, ('i', 32, True))
    return eng.mk('errno')
@h('__errno_location')
def _(eng, st, e, o, a): return one(st, P(False, errno(eng, st)))
@h('strtof', 'strtod', 'strtold', 'std::strtof', 'std::strtod', 'std::strtold')
def _(eng, st, e, o, a):
    k = ST[e['q'].split('::')[-1]]; it = eng.val(st, a[0])
    if not (isinstance(it, It) and it.kind == 'str' and (it.nul or it.cstr) and isc(it.idx) and it.idx == 0): raise Unsupported('strtod inside a text')
    eng.it_valid(st, it)
    s = it.snap
    p = eng.val(st, a[1])
    if isinstance(p, P) and p.null is not True:
        if p.null is not False: raise Unsupported('position pointer')
        eng.write(st, p.lv, it.at('st_len(%d, %s)' % (k, s)))
    lv = errno(eng, st); cur = eng.read(st, lv).e
    n = eng.sym('errno', 'int'); st.assume('%s == (if st_range(%d, %s) { 34int } else { %s })' % (n, k, s, lit(cur) if not isc(cur) else '%dint' % cur))
    eng.write(st, lv, I(n, ('i', 32, True)), keep=True)
    return one(st, L('Fl', 'st_val(%d, %s)' % (k, s)))
for n_ in ('isinf', 'isnan', 'isfinite'):
    @h('std::' + n_)
    def _(eng, st, e, o, a, n_=n_): return one(st, B('fl_%s(%d, %s)' % (n_[2:], flk(e['pt'][0]), eng.val(st, a[0]).e)))

# ------------------------------------------------------------------ output streams: what was written, and the precision for floating point numbers
# (a field width of 0, the "C" locale and no other format flags are assumed; setting them is outside the subset)
def ostream(eng, st, buf): return R('ostream', {'buf': L('Seq<u8>', buf), 'prec': I(6, LL)})
@c('std::basic_ostringstream', 'std::basic_stringstream')
def _(eng, st, e, a):
    if a: raise Unsupported('string stream constructor')
    return one(st, ostream(eng, st, 'Seq::<u8>::empty()'))
@c('std::_Setprecision')
def _(eng, st, e, a): return one(st, eng.val(st, a[0]))
@h('std::setprecision')
def _(eng, st, e, o, a): return one(st, R('setprecision', {'n': I(eng.val(st, a[0]).e, ('i', 32, True))}))
@h('std::ios_base::precision')
def _(eng, st, e, o, a):
    lv = eng.lval(st, o, 'stream'); v = eng.read(st, lv)
    if isinstance(v, LV): lv = v; v = eng.read(st, lv)
    if not (isinstance(v, R) and v.name == 'ostream'): raise Unsupported('precision of %s' % v.sort)
    old = v.f['prec']
    if a: eng.write(st, lv, R('ostream', dict(v.f, prec=I(eng.val(st, a[0]).e, LL))), keep=True)
    return one(st, old)
def oput(eng, st, o, x, t):
    lv = eng.lval(st, o, 'stream'); v = eng.read(st, lv)
    if isinstance(v, LV): lv = v; v = eng.read(st, lv)
    if not (isinstance(v, R) and v.name == 'ostream'): raise Unsupported('output to %s' % v.sort)
    f = dict(v.f)
    if isinstance(x, R) and x.name == 'setprecision': f['prec'] = x.f['n']
    else:
        if x.sort == 'Fl': s = 'fl_fmt(%d, %s, %s)' % (flk(t), lit(f['prec'].e), x.e)
        elif isinstance(x, I) and strip(t).get('bits') == 8: s = 'seq![%s]' % tobyte(x)
        elif isinstance(x, I): s = 'dec(%s)' % lit(x.e)
        else: s = seq(eng, st, x)
        f['buf'] = L('Seq<u8>', name_seq(eng, st, '(%s + %s)' % (f['buf'].e, s)) if f['buf'].e != 'Seq::<u8>::empty()' else s)
    eng.write(st, lv, R('ostream', f), keep=True)
    return one(st, eng.lval(st, o))
@h('std::operator<<')
def _(eng, st, e, o, a): return oput(eng, st, a[0], eng.val(st, a[1]), e['pt'][1])
@h('std::basic_ostream::operator<<')
def _(eng, st, e, o, a):
    x = eng.val(st, a[0])
    if not (isinstance(x, I) or isinstance(x, L) and x.sort == 'Fl'): raise Unsupported('output of %s' % x.sort)
    return oput(eng, st, o, x, e['pt'][0])
@h('std::basic_ostream::put')
def _(eng, st, e, o, a): return oput(eng, st, o, eng.val(st, a[0]), {'k': 'int', 'bits': 8, 's': True})
@h('std::basic_ostream::write')
def _(eng, st, e, o, a):
    it = eng.val(st, a[0]); n = eng.val(st, a[1]).e
    if not (isinstance(it, It) and it.kind == 'str'): raise Unsupported('ostream::write of this')
    eng.it_valid(st, it)
    eng.emit(st, 'the characters written are inside the text', and_(and_(le(0, it.idx), le(0, n)), le(add(it.idx, n), '(%s.len() as int)' % it.snap)))
    return oput(eng, st, o, L('Seq<u8>', it.snap if isc(it.idx) and it.idx == 0 and n == '(%s.len() as int)' % it.snap else '%s.subrange(%s, %s)' % (it.snap, lit(it.idx), lit(add(it.idx, n)))), None)
@h('std::basic_ostringstream::str', 'std::basic_stringstream::str')
def _(eng, st, e, o, a):
    if a: raise Unsupported('ostringstream::str(s)')
    return one(st, eng.read(st, eng.lval(st, o, 'stream')).f['buf'])

# ------------------------------------------------------------------ input streams
# d: the characters the stream delivers from its beginning; n: the size it reports when seeking to its end; sk: whether it can seek;
# p: position; fail: failbit or badbit; eof: eofbit; gc: gcount
def stream(eng, st, d, n, sk, fail, eof, p):
    st.assume('%s.len() <= 0x7fff_ffff_ffff_ffff' % d, '-1 <= %s <= 0x7fff_ffff_ffff_ffff' % n, '0 <= %s <= 0x7fff_ffff_ffff_ffff' % lit(p))
    return R('istream', {'d': L('Seq<u8>', d), 'n': I(n, LL), 'sk': B(sk), 'fail': B(fail), 'eof': B(eof), 'p': I(p, LL), 'gc': I(0, LL)})
def sget(eng, st, o):
    lv = eng.lval(st, o, 'stream'); v = eng.read(st, lv)
    if isinstance(v, LV): lv = v; v = eng.read(st, lv)
    if not (isinstance(v, R) and v.name == 'istream'): raise Unsupported('stream operation on %s' % v.sort)
    return lv, v
def sset(eng, st, lv, v, **kw):
    f = dict(v.f); f.update(kw); eng.write(st, lv, R('istream', f), keep=True)
def named(eng, st, x, sort, base):
    if isinstance(x, (bool, int)): return x
    n = eng.sym(base, sort); st.assume('%s == %s' % (n, x)); return n
IS = 'std::basic_istream::'
@h(IS + 'seekg')
def _(eng, st, e, o, a):
    lv, v = sget(eng, st, o)
    f = v.f; off = eng.val(st, a[0]).e; d = eng.val(st, a[1]).e if len(a) > 1 else 0
    if not isc(off) or off != 0 or not isc(d) or d not in (0, 2): raise Unsupported('seekg other than to the beginning or the end')
    bad = or_(f['fail'].e, not_(f['sk'].e))
    # seeking to the end of something that reports no size fails
    if d == 2: bad = or_(bad, lt(f['n'].e, 0))
    fl = named(eng, st, bad, 'bool', 'fail')
    p = named(eng, st, ite(fl, f['p'].e, f['n'].e if d == 2 else 0), 'int', 'p')
    sset(eng, st, lv, v, eof=B(False), fail=B(fl), p=I(p, LL)); return one(st, o)
@h(IS + 'tellg')
def _(eng, st, e, o, a):
    lv, v = sget(eng, st, o); f = v.f
    return one(st, I(named(eng, st, ite(or_(f['fail'].e, not_(f['sk'].e)), -1, f['p'].e), 'int', 'pos'), LL))
@h('std::fpos::operator long', 'std::fpos::operator long long')
def _(eng, st, e, o, a): return one(st, eng.val(st, o))
@h(IS + 'gcount')
def _(eng, st, e, o, a): return one(st, sget(eng, st, o)[1].f['gc'])
@h('std::basic_ios::operator bool')
def _(eng, st, e, o, a): return one(st, B(not_(sget(eng, st, o)[1].f['fail'].e)))
@h('std::basic_ios::operator!', 'std::basic_ios::fail')
def _(eng, st, e, o, a): return one(st, sget(eng, st, o)[1].f['fail'])
@h('std::basic_ios::good')
def _(eng, st, e, o, a): f = sget(eng, st, o)[1].f; return one(st, B(not_(or_(f['fail'].e, f['eof'].e))))
@h('std::basic_ios::eof')
def _(eng, st, e, o, a): return one(st, sget(eng, st, o)[1].f['eof'])
@h(IS + 'read')
def _(eng, st, e, o, a):
    lv, v = sget(eng, st, o); f = v.f
    it = eng.val(st, a[0]); n = eng.val(st, a[1]).e
    if not (isinstance(it, It) and it.kind == 'str' and it.lv is not None and it.idx == 0): raise Unsupported('istream::read into this buffer')
    cur = eng.read(st, it.lv).e
    eng.emit(st, 'the buffer of istream::read is large enough', and_(le(0, n), le(n, '%s.len()' % cur)))
    bad = or_(f['fail'].e, f['eof'].e)
    k = eng.sym('got', 'int'); b = eng.sym('buf', 'Seq<u8>'); d = f['d'].e; p = lit(f['p'].e)
    st.assume('%s == (if %s || %s >= %s.len() { 0 } else if %s <= %s.len() - %s { %s } else { %s.len() - %s })' % (k, lit(bad), p, d, lit(n), d, p, lit(n), d, p))
    st.assume('%s.len() == %s.len()' % (b, cur), '0 <= %s <= %s' % (k, lit(n)))
    st.assume('%s > 0 ==> %s.subrange(0, %s) == %s.subrange(%s, %s + %s)' % (k, b, k, d, p, p, k))
    st.assume('%s.subrange(%s, %s.len() as int) == %s.subrange(%s, %s.len() as int)' % (b, k, b, cur, k, cur))
    eng.write(st, it.lv, L('Seq<u8>', b), keep=True)
    sh = named(eng, st, '(%s < %s)' % (k, lit(n)), 'bool', 'short')
    p2 = named(eng, st, add(f['p'].e, k), 'int', 'p')
    sset(eng, st, lv, v, p=I(p2, LL), gc=I(k, LL), fail=B(named(eng, st, or_(bad, sh), 'bool', 'fail')), eof=B(named(eng, st, or_(f['eof'].e, and_(not_(bad), sh)), 'bool', 'eof')))
    return one(st, o)
@c('std::basic_ifstream')
def _(eng, st, e, vs):
    if len(vs) > 1:
        m = eng.val(st, vs[1]).e
        if m not in (8, 12): raise Unsupported('ifstream opened with mode %s' % m)
    x = eng.val(st, vs[0])
    s_ = seq(eng, st, x)
    if isinstance(x, It) and x.lv is None and not x.nul: raise Unsupported('path argument')
    can = named(eng, st, 'fs_can(%s)' % s_, 'bool', 'opened')
    r = stream(eng, st, 'fs_d(%s)' % s_, 'fs_n(%s)' % s_, 'fs_sk(%s)' % s_, not_(can), False, 0)
    r.f['open'] = B(can)
    return one(st, r)
@h('std::basic_ifstream::is_open')
def _(eng, st, e, o, a): return one(st, sget(eng, st, o)[1].f['open'])
@h('std::basic_ifstream::close')
def _(eng, st, e, o, a):
    lv, v = sget(eng, st, o); sset(eng, st, lv, v, open=B(False)); return one(st, Unit())

class Std:
    def ctor(self, eng, st, e, vs):
        n = e['t'].get('n', '')
        f = C.get(n)
        if f is None: raise Unsupported('constructor of %s' % n)
        eng.used_std.add(n + ' constructor')
        return f(eng, st, e, vs)
    def call(self, eng, st, e, obj, args):
        q = e['q']
        f = H.get(q)
        if f is None: raise Unsupported('call of %s' % q)
        eng.used_std.add(q)
        return f(eng, st, e, obj, args)
