"""Contracts of the conversions between json values and C++ containers, tuples, optionals and smart pointers.

For every C++ type T below the specification text is generated from the structure of T: mir_T(x) is the value that represents x,
is_T / can_T say which values is<T>() accepts and as<T>() converts, rd_T(v) is the result, and lem_T proves rd_T(mir_T(x)) == x."""
import re
from sym import *
from c_value import (C, V, A, O_, WV, WA, WO, tname, INTS, EXI, one, pn, rv, rthis, LoopSpec, strip, key, getsig, contracts as base_contracts, const)

ELEMS = ['int', 'unsigned int', 'long', 'unsigned long', 'bool', 'string', 'path', 'monostate', 'value']
TYPES = ['vector<int>', 'vector<string>', 'list<long>', 'deque<bool>', 'vector<vector<int>>', 'optional<int>', 'vector<optional<int>>', 'map<int>', 'vector<map<int>>',
         'array<int,3>', 'array<string,2>', 'pair<int,string>', 'tuple<int,string,bool>', 'map<string>', 'unordered_map<bool>', 'map<vector<int>>',
         'optional<string>', 'optional<vector<int>>', 'shared_ptr<int>', 'unique_ptr<string>',
         'set<int>', 'set<string>', 'unordered_set<string>', 'vector<unsigned int>', 'array<unsigned long,2>', 'vector<path>', 'list<value>', 'map<value>',
         'variant<int,string,bool>', 'variant<monostate,vector<int>,string>', 'variant<int,unsigned long,string>', 'vector<variant<int,string,bool>>', 'map<variant<int,string,bool>>']

def head(t): return t[:t.index('<')] if '<' in t else t
def args(t):
    out = []; d = 0; cur = ''
    for ch in t[t.index('<') + 1:-1]:
        if ch == ',' and d == 0: out.append(cur); cur = ''; continue
        d += (ch == '<') - (ch == '>'); cur += ch
    return out + [cur]
def mg(t): return re.sub(r'[^A-Za-z0-9]+', '_', t).strip('_')
SEQ = ('vector', 'list', 'deque', 'array'); MAP = ('map', 'unordered_map'); NUL = ('optional', 'shared_ptr', 'unique_ptr'); TUP = ('pair', 'tuple')
def isseq(t): return head(t) in SEQ
def ismap(t): return head(t) in MAP
def isnul(t): return head(t) in NUL
def istup(t): return head(t) in TUP
def isset(t): return head(t) in ('set', 'unordered_set')
def isvar(t): return head(t) == 'variant'
# classes with MEO_JSONIZATION: name -> [(member, type, key, optional, initial value)]
STRUCTS = {}
def isstruct(t): return t in STRUCTS
# classes whose conversions their author wrote: name -> [(member, type)], initial value; the conversions are uninterpreted functions
USERS = {}
def isuser(t): return t in USERS
def define_user(name, members, init):
    USERS[name] = (members, init)
    register_struct(name, 'St_' + mg(name), members)
def define_struct(name, members):
    STRUCTS[name] = members
    register_struct(name, 'St_' + mg(name), [(f, sort(ty)) for f, ty, *_ in members])
def kseq(k): return 'seq![%s]' % ', '.join('%du8' % b for b in k.encode())
# the kinds of tree that can represent a T
KIND = {'bool': {2}, 'string': {3}, 'path': {3}, 'monostate': {1}, 'value': {1, 2, 3, 4, 5, 6}}
def kinds(t):
    if t in INTS: return {4}
    if t in KIND: return KIND[t]
    if isstruct(t): return {6}
    if isuser(t): return {2, 3, 4, 5, 6}
    if isnul(t): return {1} | kinds(args(t)[0])
    if isvar(t): return set().union(*(kinds(x) for x in args(t)))
    return {6} if ismap(t) else {5}
def disjoint(t): return sum(len(kinds(x)) for x in args(t)) == len(kinds(t))
def parts(t):
    if isstruct(t): return [m[1] for m in STRUCTS[t]]
    return [x for x in args(t) if not x.isdigit()] if '<' in t else []
def has(t, x): return t == x or any(has(y, x) for y in parts(t))
def sort(t):
    if t == 'path': return 'Seq<u8>'
    if t == 'monostate': return '()'
    if isstruct(t) or isuser(t): return 'St_' + mg(t)
    if t == 'value': return 'Value'
    if t in INTS: return 'int'
    if t == 'bool': return 'bool'
    if t == 'string': return 'Seq<u8>'
    a = args(t)
    if isseq(t): return 'Seq<%s>' % sort(a[0])
    if ismap(t): return 'Map<Seq<u8>, %s>' % sort(a[0])
    if isset(t): return 'Set<%s>' % sort(a[0])
    if isvar(t): return 'Va_' + mg(t)
    if isnul(t): return 'Option<%s>' % sort(a[0])
    return '(%s)' % ', '.join(sort(x) for x in a)
def rng(t):
    b, sg = INTS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1, 'true') if sg else (0, (1 << b) - 1, 'false')

def needs(t): return has(t, 'value') or head(t) == 'array' or any(needs(x) for x in parts(t))
def gen_type(t):
    m = mg(t); S = sort(t); o = []
    def fn(n, sig, body): o.append('pub open spec fn %s_%s(%s { %s }' % (n, m, sig, body))
    if t in INTS:
        lo, hi, sg = rng(t); X = 'exact(txt(v), %s, (%d), %d)' % (sg, lo, hi)
        mir = 'mk_num(dec(x))'; is_ = 'is_num(v, %s, (%d), %d)' % (sg, lo, hi); can = is_; rd = X + '->Some_0'; ok = '(%d) <= x <= %d' % (lo, hi)
    elif t == 'bool':
        mir = 'mk_bool(x)'; is_ = 'v.ty == 2'; can = 'v.ty == 2 && (txt(v) == true_txt() || txt(v) == false_txt())'; rd = 'txt(v) == true_txt()'; ok = 'true'
    elif t in ('string', 'path'):
        mir = 'mk_str(x)'; is_ = 'v.ty == 3'; can = is_; rd = 'txt(v)'; ok = 'true'
    elif t == 'monostate':
        mir = 'mk_null()'; is_ = 'v.ty == 1'; can = is_; rd = '()'; ok = 'true'
    elif t == 'value':
        mir = 'x'; is_ = 'true'; can = is_; rd = 'v'; ok = 'wf(x) && printable(x)'
    elif isuser(t):
        # what the author's functions do: to(x) is what to_json gives, chk(x, v) what check_json says, frm(x, v) what from_json leaves in x if it returns true, thr: it throws
        fs, init = USERS[t]
        o.append('pub struct %s { %s }' % (S, ', '.join('pub %s: %s' % f for f in fs)))
        for n, sig in (('to', 'x: %s) -> Value'), ('chk', 'x: %s, v: Value) -> bool'), ('fok', 'x: %s, v: Value) -> bool'), ('frm', 'x: %s, v: Value) -> %s'), ('thr', 'x: %s, v: Value) -> bool'),
                       ('mvto', 'x: %s) -> Value'), ('mvok', 'x: %s, v: Value) -> bool'), ('mvfrm', 'x: %s, v: Value) -> %s'), ('mvthr', 'x: %s, v: Value) -> bool')):
            o.append('pub uninterp spec fn u_%s_%s(%s;' % (n, m, sig.replace('%s', S)))
        o.append('pub open spec fn ini_%s() -> %s { %s %s }' % (m, S, S, init))
        D = 'ini_%s()' % m
        mir = 'u_to_%s(x)' % m; is_ = 'u_chk_%s(%s, v)' % (m, D); can = '!u_thr_%s(%s, v) && u_fok_%s(%s, v)' % (m, D, m, D); rd = 'u_frm_%s(%s, v)' % (m, D)
        # the author's functions are each other's inverse at x
        ok = 'is_%s(mir_%s(x)) && can_%s(mir_%s(x)) && rd_%s(mir_%s(x)) == x && wf(mir_%s(x)) && printable(mir_%s(x)) && mir_%s(x).ty != 1' % ((m,) * 9)
        o.append('pub broadcast axiom fn uwf_%s(x: %s) ensures wf(#[trigger] u_to_%s(x));' % (m, S, m))
        o.append('pub broadcast axiom fn uwfm_%s(x: %s) ensures wf(#[trigger] u_mvto_%s(x));' % (m, S, m))
    elif isstruct(t):
        ms = STRUCTS[t]
        o.append('pub struct %s { %s }' % (S, ', '.join('pub %s: %s' % (f, sort(ty)) for f, ty, *_ in ms)))
        for f, ty, k, opt, d in ms:
            o.append('pub open spec fn at_%s_%s(v: Value) -> Option<Value> { at_key(v, %s) }' % (m, f, kseq(k)))
        def each(fmt, end): # fmt(member, what holds of the members after it)
            r = end
            for x in reversed(ms): r = fmt(x, r)
            return r
        AT = lambda f: 'at_%s_%s(v)' % (m, f)
        mir = 'mk_obj(Map::<Seq<u8>, Value>::empty()%s)' % ''.join('.insert(%s, mir_%s(x.%s))' % (kseq(k), mg(ty), f) for f, ty, k, opt, d in ms)
        is_ = ' && '.join('(match %s { None => %s, Some(w) => is_%s(w) })' % (AT(f), 'true' if opt else 'false', mg(ty)) for f, ty, k, opt, d in ms)
        can = ' && '.join('(match %s { None => %s, Some(w) => is_%s(w) && can_%s(w) })' % (AT(f), 'true' if opt else 'false', mg(ty), mg(ty)) for f, ty, k, opt, d in ms)
        rd = '%s { %s }' % (S, ', '.join('%s: match %s { None => %s, Some(w) => rd_%s(w) }' % (f, AT(f), d, mg(ty)) for f, ty, k, opt, d in ms))
        ok = ' && '.join('ok_%s(x.%s)' % (mg(ty), f) for f, ty, *_ in ms)
        fn('upd', 'v: Value, x: %s) -> %s' % (S, S), '%s { %s }' % (S, ', '.join('%s: match %s { None => x.%s, Some(w) => rd_%s(w) }' % (f, AT(f), f, mg(ty)) for f, ty, k, opt, d in ms)))
        # the key of the first member that is missing or does not fit
        fn('err', 'v: Value) -> Seq<u8>', each(lambda x, r: 'if !(match %s { None => %s, Some(w) => is_%s(w) }) { %s } else { %s }' % (AT(x[0]), 'true' if x[3] else 'false', mg(x[1]), kseq(x[2]), r), 'Seq::empty()'))
        # a member fits but cannot be converted (a boolean whose text is neither true nor false), with no member at fault before it
        fn('thr', 'v: Value) -> bool', each(lambda x, r: '(match %s { None => %s, Some(w) => is_%s(w) && (!can_%s(w) || %s) })' % (AT(x[0]), r if x[3] else 'false', mg(x[1]), mg(x[1]), r), 'false'))
    else:
        a = args(t); e = mg(a[0])
        if isseq(t):
            n = (' && arr_of(v).len() == %s' % a[1]) if head(t) == 'array' else ''
            mir = 'mk_arr(mirs_%s(x))' % e; is_ = 'v.ty == 5%s && iss_%s(arr_of(v), arr_of(v).len() as int)' % (n, e); can = 'v.ty == 5%s && cans_%s(arr_of(v), arr_of(v).len() as int)' % (n, e); rd = 'rds_%s(arr_of(v))' % e
            ok = 'oks_%s(x)%s' % (e, (' && x.len() == %s' % a[1]) if head(t) == 'array' else '')
        elif ismap(t):
            mir = 'mk_obj(mirm_%s(x))' % e; is_ = 'v.ty == 6 && ism_%s(obj_of(v))' % e; can = 'v.ty == 6 && canm_%s(obj_of(v))' % e; rd = 'rdm_%s(obj_of(v))' % e; ok = 'okm_%s(x)' % e
        elif isset(t):
            mir = 'mk_arr(mirs_%s(se(x)))' % e; is_ = 'v.ty == 5 && iss_%s(arr_of(v), arr_of(v).len() as int)' % e; can = is_.replace('iss_', 'cans_'); rd = 'spre(rds_%s(arr_of(v)), arr_of(v).len() as int)' % e; ok = 'oks_%s(se(x))' % e
        elif isvar(t):
            es = [mg(x) for x in a]; n = range(len(a))
            o.append('pub enum %s { %s }' % (S, ', '.join('A%d(%s)' % (i, sort(a[i])) for i in n)))
            mir = 'match x { %s }' % ', '.join('%s::A%d(y) => mir_%s(y)' % (S, i, es[i]) for i in n)
            is_ = ' || '.join('is_%s(v)' % es[i] for i in n)
            can = ' else '.join('if is_%s(v) { can_%s(v) }' % (es[i], es[i]) for i in n) + ' else { false }'
            rd = ' else '.join('if is_%s(v) { %s::A%d(rd_%s(v)) }' % (es[i], S, i, es[i]) for i in n[:-1]) + ' else { %s::A%d(rd_%s(v)) }' % (S, n[-1], es[n[-1]])
            # an alternative is only recovered when none before it accepts its representation
            ok = 'match x { %s }' % ', '.join('%s::A%d(y) => ok_%s(y)%s' % (S, i, es[i], '' if disjoint(t) else ''.join(' && !is_%s(mir_%s(y))' % (es[j], es[i]) for j in range(i))) for i in n)
        elif isnul(t):
            mir = 'match x { None => mk_null(), Some(y) => mir_%s(y) }' % e; is_ = 'v.ty == 1 || is_%s(v)' % e; can = 'v.ty == 1 || can_%s(v)' % e
            rd = 'if v.ty == 1 { None } else { Some(rd_%s(v)) }' % e; ok = 'x is Some ==> ok_%s(x->Some_0)' % e
        else:
            k = len(a); es = [mg(x) for x in a]
            mir = 'mk_arr(seq![%s])' % ', '.join('mir_%s(x.%d)' % (x, i) for i, x in enumerate(es))
            is_ = ' && '.join(['v.ty == 5 && arr_of(v).len() == %d' % k] + ['is_%s(arr_of(v)[%d])' % (x, i) for i, x in enumerate(es)])
            can = is_.replace(' is_', ' can_'); rd = '(%s)' % ', '.join('rd_%s(arr_of(v)[%d])' % (x, i) for i, x in enumerate(es)); ok = ' && '.join('ok_%s(x.%d)' % (x, i) for i, x in enumerate(es))
    fn('mir', 'x: %s) -> Value' % S, mir); fn('is', 'v: Value) -> bool', is_); fn('can', 'v: Value) -> bool', can); fn('rd', 'v: Value) -> %s' % S, rd); fn('ok', 'x: %s) -> bool' % S, ok)
    # what must hold of a C++ object of this type anyway: the length of std::array, well-formed json values
    wx = 'wf(x)' if t == 'value' else ' && '.join('wx_%s(x.%s)' % (mg(ty), f) for f, ty, *_ in STRUCTS[t]) if isstruct(t) else 'true' if '<' not in t or not needs(t) else None
    if wx is None:
        if isseq(t): wx = 'wxs_%s(x)%s' % (e, (' && x.len() == %s' % a[1]) if head(t) == 'array' else '')
        elif ismap(t): wx = 'wxm_%s(x)' % e
        elif isset(t): wx = 'wxs_%s(se(x))' % e
        elif isnul(t): wx = 'x is Some ==> wx_%s(x->Some_0)' % e
        elif isvar(t): wx = 'match x { %s }' % ', '.join('%s::A%d(y) => wx_%s(y)' % (S, i, mg(q)) for i, q in enumerate(a))
        else: wx = ' && '.join('wx_%s(x.%d)' % (mg(q), i) for i, q in enumerate(a))
    fn('wx', 'x: %s) -> bool' % S, wx)
    fn('wxs', 'x: Seq<%s>) -> bool' % S, 'forall|q: int| 0 <= q < x.len() ==> wx_%s(#[trigger] x[q])' % m)
    fn('wxm', 'x: Map<Seq<u8>, %s>) -> bool' % S, 'forall|q: Seq<u8>| x.dom().contains(q) ==> wx_%s(#[trigger] x[q])' % m)
    fn('mirs', 'x: Seq<%s>) -> Seq<Value>' % S, 'Seq::new(x.len(), |i: int| mir_%s(x[i]))' % m)
    fn('iss', 'd: Seq<Value>, n: int) -> bool', 'forall|q: int| 0 <= q < n ==> is_%s(#[trigger] d[q])' % m)
    fn('cans', 'd: Seq<Value>, n: int) -> bool', 'forall|q: int| 0 <= q < n ==> can_%s(#[trigger] d[q])' % m)
    fn('rds', 'd: Seq<Value>) -> Seq<%s>' % S, 'Seq::new(d.len(), |i: int| rd_%s(d[i]))' % m)
    fn('oks', 'x: Seq<%s>) -> bool' % S, 'forall|q: int| 0 <= q < x.len() ==> ok_%s(#[trigger] x[q])' % m)
    MS = 'Map<Seq<u8>, %s>' % S; MV = 'Map<Seq<u8>, Value>'
    fn('mirm', 'x: %s) -> %s' % (MS, MV), 'Map::new(x.dom(), |k: Seq<u8>| mir_%s(x[k]))' % m)
    fn('ism', 'd: %s) -> bool' % MV, 'forall|q: Seq<u8>| d.dom().contains(q) ==> is_%s(#[trigger] d[q])' % m)
    fn('canm', 'd: %s) -> bool' % MV, 'forall|q: Seq<u8>| d.dom().contains(q) ==> can_%s(#[trigger] d[q])' % m)
    fn('canmu', 'd: %s, n: int) -> bool' % MV, 'forall|j: int| 0 <= j < n ==> can_%s(d[#[trigger] ks(d)[j]])' % m)
    fn('rdm', 'd: %s) -> %s' % (MV, MS), 'Map::new(d.dom(), |k: Seq<u8>| rd_%s(d[k]))' % m)
    fn('okm', 'x: %s) -> bool' % MS, 'forall|q: Seq<u8>| x.dom().contains(q) ==> ok_%s(#[trigger] x[q])' % m)
    # THEOREM (C17): what represents x is accepted and reads back as x; and it prints and parses back (roundtrip.rs)
    P = []
    if t in INTS:
        lo, hi, sg = rng(t); P.append('thm_int_roundtrip(x, %s, (%d), %d); dec_num(x);' % (sg, lo, hi))
    elif t == 'bool': P.append('assert(true_txt()[0] != false_txt()[0]); assert(mk_bool(x) == v_bool(x)) by { assert(true_txt() =~= v_bool(true).raw->S_0); assert(false_txt() =~= v_bool(false).raw->S_0); }')
    elif t in ('string', 'path', 'monostate', 'value') or isuser(t): pass
    elif isstruct(t):
        P.append('let v = mir_%s(x); let d = obj_of(v);' % m)
        for f, ty, k, *_ in ms: P.append('lem_%s(x.%s);' % (mg(ty), f))
        ks_ = [kseq(k) for _, _, k, *_ in ms]
        for i in range(len(ms)):
            for j in range(i):
                a_, b_ = ms[i][2].encode(), ms[j][2].encode()
                if len(a_) == len(b_):
                    q = [n for n in range(len(a_)) if a_[n] != b_[n]][0]; P.append('assert(%s[%d] != %s[%d]);' % (ks_[i], q, ks_[j], q))
                else: P.append('assert(%s.len() != %s.len());' % (ks_[i], ks_[j]))
        for f, ty, k, *_ in ms: P.append('assert(d.dom().contains(%s) && d[%s] == mir_%s(x.%s)); assert(at_%s_%s(v) == Some(mir_%s(x.%s)));' % (kseq(k), kseq(k), mg(ty), f, m, f, mg(ty), f))
        P.append('assert forall|q: Seq<u8>| d.dom().contains(q) implies wf(#[trigger] d[q]) && printable(d[q]) by { assert(%s); }' % ' || '.join('q == ' + k for k in ks_))
        P.append('assert(forall|y: %s| upd_%s(v, y) == x);' % (S, m))
    elif isset(t):
        P.append('lem_vec_%s(se(x)); spre_se(x);' % e)
    elif isvar(t):
        P.append('match x { %s }' % ', '.join('%s::A%d(y) => { lem_%s(y); }' % (S, i, es[i]) for i in n))
    elif isseq(t):
        P.append('let d = mirs_%s(x); assert forall|q: int| 0 <= q < d.len() implies is_%s(#[trigger] d[q]) && can_%s(d[q]) && rd_%s(d[q]) == x[q] && wf(d[q]) && printable(d[q]) by { assert(ok_%s(x[q])); lem_%s(x[q]); } assert(rds_%s(d) =~= x);' % ((e,) * 7))
    elif ismap(t):
        P.append('let d = mirm_%s(x); assert forall|q: Seq<u8>| d.dom().contains(q) implies is_%s(#[trigger] d[q]) && can_%s(d[q]) && rd_%s(d[q]) == x[q] && wf(d[q]) && printable(d[q]) by { assert(x.dom().contains(q)); assert(ok_%s(x[q])); lem_%s(x[q]); } assert(rdm_%s(d) =~= x);' % ((e,) * 7))
    elif isnul(t): P.append('if x is Some { lem_%s(x->Some_0); }' % e)
    else:
        for i, q in enumerate(es): P.append('lem_%s(x.%d);' % (q, i))
    notnull = ', mir_%s(x).ty != 1' % m if 1 not in kinds(t) else ''
    if t in SETEL: o.append('pub proof fn lem_vec_%s(x: Seq<%s>)\n    requires oks_%s(x)\n    ensures rds_%s(mirs_%s(x)) == x, iss_%s(mirs_%s(x), x.len() as int), cans_%s(mirs_%s(x), x.len() as int), wf_seq(mirs_%s(x)), forall|q: int| 0 <= q < x.len() ==> wf(#[trigger] mirs_%s(x)[q]) && printable(mirs_%s(x)[q])\n{ let d = mirs_%s(x); assert forall|q: int| 0 <= q < d.len() implies is_%s(#[trigger] d[q]) && can_%s(d[q]) && rd_%s(d[q]) == x[q] && wf(d[q]) && printable(d[q]) by { assert(ok_%s(x[q])); lem_%s(x[q]); } assert(rds_%s(d) =~= x); }' .replace('%s', '@').replace('@', m).replace('Seq<%s>' % m, 'Seq<%s>' % S))
    o.append('pub proof fn lem_%s(x: %s)\n    requires ok_%s(x)\n    ensures is_%s(mir_%s(x)), can_%s(mir_%s(x)), rd_%s(mir_%s(x)) == x, wf(mir_%s(x)), printable(mir_%s(x))%s%s\n{ %s }' % (m, S, m, m, m, m, m, m, m, m, m, notnull, ', !thr_%s(mir_%s(x)), forall|y: %s| #[trigger] upd_%s(mir_%s(x), y) == x' % (m, m, S, m, m) if isstruct(t) else '', ' '.join(P)))
    if t in WFM: # what represents an object is a well-formed value
        def call(q, x): return 'wfm_%s(%s);' % (mg(q), x) if q in WFM else 'uwf_%s(%s);' % (mg(q), x) if isuser(q) else ''
        if isstruct(t): B = 'let v = mir_%s(x); let d = obj_of(v); %s assert forall|q: Seq<u8>| d.dom().contains(q) implies wf(#[trigger] d[q]) by { assert(%s); }' % (m, ' '.join(call(ty, 'x.' + f) for f, ty, *_ in ms), ' || '.join('q == ' + kseq(k) for _, _, k, *_ in ms))
        elif isseq(t): B = 'let d = mirs_%s(x); assert forall|q: int| 0 <= q < d.len() implies wf(#[trigger] d[q]) by { assert(wx_%s(x[q])); %s } assert(wf_seq(d));' % (e, e, call(a[0], 'x[q]'))
        elif isset(t): B = 'let d = mirs_%s(se(x)); assert forall|q: int| 0 <= q < d.len() implies wf(#[trigger] d[q]) by { assert(wx_%s(se(x)[q])); %s }' % (e, e, call(a[0], 'se(x)[q]'))
        elif ismap(t): B = 'let d = mirm_%s(x); assert forall|q: Seq<u8>| d.dom().contains(q) implies wf(#[trigger] d[q]) by { assert(x.dom().contains(q)); assert(wx_%s(x[q])); %s }' % (e, e, call(a[0], 'x[q]'))
        elif isnul(t): B = 'if x is Some { %s }' % call(a[0], 'x->Some_0')
        elif isvar(t): B = 'match x { %s }' % ', '.join('%s::A%d(y) => { %s }' % (S, i, call(q, 'y')) for i, q in enumerate(a))
        else: B = 'let d = arr_of(mir_%s(x)); %s assert forall|q: int| 0 <= q < d.len() implies wf(#[trigger] d[q]) by { assert(%s); }' % (m, ' '.join(call(q, 'x.%d' % i) for i, q in enumerate(a)), ' || '.join('q == %d' % i for i in range(len(a))))
        o.append('pub broadcast proof fn wfm_%s(x: %s)\n    requires wx_%s(x)\n    ensures wf(#[trigger] mir_%s(x))\n{ %s }' % (m, S, m, m, B))
    if kinds(t) <= {5, 6}:
        o.append('pub proof fn text_%s(x: %s, p: bool, ind: int, jc: bool)\n    requires ok_%s(x)\n    ensures sp_doc(lay(mir_%s(x), p, ind, 0), jc) is Some, rd_%s(sp_doc(lay(mir_%s(x), p, ind, 0), jc)->Some_0) == x\n{ lem_%s(x); thm_roundtrip(mir_%s(x), p, ind, jc); }' % (m, S, m, m, m, m, m, m))
    return '\n'.join(o)

SETEL = {args(t)[0] for t in TYPES if isset(t)}
NUMLEM = '''
// a decimal integer is a number literal
pub proof fn digits_head(n: int)
    requires 0 < n
    ensures digits(n)[0] != 48
    decreases n
{ if n >= 10 { digits_head(n / 10); digits_are(n / 10); } }
pub proof fn skip_all(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> 48 <= #[trigger] s[k] <= 57
    ensures sp_digits(s, i) == s.len()
    decreases s.len() - i
{ if i < s.len() { skip_all(s, i + 1); } }
pub proof fn dec_num(n: int)
    ensures num_lit(dec(n))
{
    let s = dec(n); let d = digits(if n < 0 { -n } else { n });
    digits_are(if n < 0 { -n } else { n });
    if n != 0 { digits_head(if n < 0 { -n } else { n }); }
    let o: int = if n < 0 { 1 } else { 0 };
    assert forall|k: int| o <= k < s.len() implies 48 <= #[trigger] s[k] <= 57 by { assert(s[k] == d[k - o]); }
    assert(s[o] == d[0]);
    skip_all(s, o + 1); skip_all(s, o);
}
// the elements of a set in the order in which the container visits them
pub uninterp spec fn se<T>(s: Set<T>) -> Seq<T>;
pub broadcast axiom fn se_len<T>(s: Set<T>) ensures #[trigger] se(s).len() == s.len();
pub broadcast axiom fn se_in<T>(s: Set<T>, i: int) requires 0 <= i < se(s).len() ensures s.contains(#[trigger] se(s)[i]);
pub broadcast axiom fn se_all<T>(s: Set<T>, x: T) requires s.contains(x) ensures exists|i: int| 0 <= i < se(s).len() && #[trigger] se(s)[i] == x;
pub open spec fn spre<T>(q: Seq<T>, n: int) -> Set<T> decreases n { if n <= 0 { Set::empty() } else { spre(q, n - 1).insert(q[n - 1]) } }
pub proof fn spre_has<T>(q: Seq<T>, n: int, x: T)
    requires n <= q.len()
    ensures spre(q, n).contains(x) == (exists|i: int| 0 <= i < n && #[trigger] q[i] == x)
    decreases n
{ if n > 0 { spre_has(q, n - 1, x); } }
pub proof fn spre_se<T>(s: Set<T>)
    ensures spre(se(s), se(s).len() as int) == s
{
    assert forall|x: T| spre(se(s), se(s).len() as int).contains(x) == s.contains(x) by { spre_has(se(s), se(s).len() as int, x); if s.contains(x) { se_all(s, x); } else { if exists|i: int| 0 <= i < se(s).len() && #[trigger] se(s)[i] == x { let i = choose|i: int| 0 <= i < se(s).len() && #[trigger] se(s)[i] == x; se_in(s, i); } } }
    assert(spre(se(s), se(s).len() as int) =~= s);
}
'''
WFM = []
def gen(types=None):
    WFM.clear(); ts = types or ELEMS + TYPES
    def want(q):
        for x in parts(q): want(x)
        if ('<' in q or isstruct(q)) and q in ts and q not in WFM: WFM.append(q)
    for t in ts:
        if isvar(t) or isstruct(t):
            for x in parts(t): want(x)
        if isstruct(t): want(t)
    return '// generated by c_typed.py\n' + NUMLEM + '\n'.join(gen_type(t) for t in ts) + '\npub broadcast group typed_lemmas { %s }\n' % ', '.join('wfm_' + mg(q) for q in WFM)

# ---------------------------------------------------------------- contracts
def arg0(t, r): return lambda f: one(f) and f.get('kind') == 'ctor' and tname(f['pt'][0]) == t and (f['pt'][0]['k'] == 'rref') == r
def ta0(t, r=None): return lambda f: bool(f.get('ta')) and tname(f['ta'][0]) == t and len(f['pt']) == 0 and (r is None or rthis(f) == r)
def rt0(t, r): return lambda f: not f['pt'] and tname(f['rt']) == t and rthis(f) == r
OPN = {}
def seqloop(x, done, keep):
    return [LoopSpec(['0 <= %s && %s <= %s.len()' % (IT, IT, x)] + done + keep, '%s.len() - %s' % (x, IT))]
IT = '{__begin~i|iter}'
def contracts_for(types, extra=()):
    contracts = []
    def add(c): c.optional = True; c.typed = True; contracts.append(c)
    for t in types:
        if '<' not in t: continue
        if isvar(t): register_variant(t, sort(t), [sort(x) for x in args(t)])
        m = mg(t); a = args(t); e = mg(a[0])
        for r in (False, True):
            amp = '&&' if r else 'const&'
            mods = ['0'] if r else []
            if not isnul(t) and not isvar(t):
                cls, w, mk, q = ('array', WA, '(Arr { d: %s })', A) if not ismap(t) else ('object', WO, '(Obj { d: %s })', O_)
                body = 'arr_of' if cls == 'array' else 'obj_of'
                loops = []
                if head(t) == 'array':
                    loops = [LoopSpec(['0 <= {i|int} && {i|int} <= %s' % a[1], '{this.d} =~= mirs_%s({old.0}).subrange(0, {i|int})' % e] + (['{0}.len() == {old.0}.len()', 'forall|k_: int| {i|int} <= k_ < {0}.len() ==> (#[trigger] {0}[k_]) == {old.0}[k_]'] if r else []), '%s - {i|int}' % a[1])]
                elif isset(t):
                    loops = seqloop('se({old.0})', ['{this.d} =~= mirs_%s(se({old.0})).subrange(0, %s)' % (e, IT)], [])
                elif isseq(t):
                    loops = seqloop('{old.0}', ['{this.d} =~= mirs_%s({old.0}).subrange(0, %s)' % (e, IT)],
                                    ['{0}.len() == {old.0}.len()', 'forall|k_: int| %s <= k_ < {0}.len() ==> (#[trigger] {0}[k_]) == {old.0}[k_]' % IT] if r else [])
                elif ismap(t):
                    n = 'ks({old.0}).len()'
                    loops = [LoopSpec(['0 <= %s && %s <= %s' % (IT, IT, n), '{this.d} =~= mirm_%s(mpre({old.0}, %s))' % (e, IT)] +
                                      (['{0}.dom() =~= {old.0}.dom()', 'forall|k_: int| %s <= k_ < ks({old.0}).len() ==> {0}[#[trigger] ks({old.0})[k_]] == {old.0}[ks({old.0})[k_]]' % IT] if r else []), '%s - %s' % (n, IT))]
                req = ['wx_%s({0})' % m] if needs(t) else []
                add(C(q + cls, name='%s(%s%s)' % (cls, t, '&&' if r else ' const&'), when=arg0(t, r), requires=req, modifies=mods, ret=mk % ('%s(mir_%s({old.0}))' % (body, m)), loops=loops,
                      hints=['assert({ret.d} =~= %s(mir_%s({old.0})))' % (body, m)]))
                # array::as<T>, object::as<T>
                d = '{old.this.d}'
                can = 'can_%s(%s)' % (m, ('mk_arr(%s)' if cls == 'array' else 'mk_obj(%s)') % '{this.d}'); rd = 'rd_%s(%s)' % (m, ('mk_arr(%s)' if cls == 'array' else 'mk_obj(%s)') % d)
                S = sort(t); res = '{result|%s}' % S
                if head(t) == 'array':
                    keep = ['{this.d}.len() == %s.len()' % d, 'forall|k_: int| {i|int} <= k_ < %s.len() ==> (#[trigger] {this.d}[k_]) == %s[k_]' % (d, d)] if r else []
                    ls = [LoopSpec(['0 <= {i|int} && {i|int} <= %s' % a[1], '%s.len() == %s' % (res, a[1]), '%s.subrange(0, {i|int}) =~= rds_%s(%s).subrange(0, {i|int})' % (res, e, d), 'cans_%s(%s, {i|int})' % (e, d)] + keep, '%s - {i|int}' % a[1])]
                elif isset(t):
                    keep = ['{this.d}.len() == %s.len()' % d, 'forall|k_: int| %s <= k_ < %s.len() ==> (#[trigger] {this.d}[k_]) == %s[k_]' % (IT, d, d)] if r else []
                    ls = seqloop(d, ['%s =~= spre(rds_%s(%s), %s)' % (res, e, d, IT), 'cans_%s(%s, %s)' % (e, d, IT)], keep)
                elif isseq(t):
                    keep = ['{this.d}.len() == %s.len()' % d, 'forall|k_: int| %s <= k_ < %s.len() ==> (#[trigger] {this.d}[k_]) == %s[k_]' % (IT, d, d)] if r else []
                    ls = seqloop(d, ['%s =~= rds_%s(%s).subrange(0, %s)' % (res, e, d, IT), 'cans_%s(%s, %s)' % (e, d, IT)], keep)
                elif ismap(t):
                    n = 'ks(%s).len()' % d
                    keep = ['{this.d}.dom() =~= %s.dom()' % d, 'forall|k_: int| %s <= k_ < %s ==> {this.d}[#[trigger] ks(%s)[k_]] == %s[ks(%s)[k_]]' % (IT, n, d, d, d)] if r else []
                    ls = [LoopSpec(['0 <= %s && %s <= %s' % (IT, IT, n), '%s =~= rdm_%s(mpre(%s, %s))' % (res, e, d, IT), 'canmu_%s(%s, %s)' % (e, d, IT)] + keep, '%s - %s' % (n, IT))]
                else: ls = []
                add(C(q + 'as', name='%s::as<%s>%s' % (cls, t, ' &&' if r else ''), when=ta0(t, r), requires=[w], modifies=['this'] if r else [], throws='!' + can, ret=rd, loops=ls))
            if not (head(t) == 'unique_ptr' and not r):
                req = ['wx_%s({0})' % m] if needs(t) else []
                add(C(V + 'value', name='value(%s%s)' % (t, '&&' if r else ' const&'), when=arg0(t, r), requires=req, modifies=mods, ret='mir_%s({old.0})' % m))
            add(C(V + 'as', name='value::as<%s>%s' % (t, ' &&' if r else ''), when=ta0(t, r), requires=[WV], modifies=['this'] if r else [], throws='!can_%s({this})' % m, ret='rd_%s({old.this})' % m))
            add(C(V + 'operator ' + OPN.get(head(t), head(t)), name='value::operator %s%s' % (t, ' &&' if r else ''), when=rt0(t, r), requires=[WV], modifies=['this'] if r else [], throws='!can_%s({this})' % m, ret='rd_%s({old.this})' % m))
        add(C(V + 'is', name='value::is<%s>' % t, when=ta0(t), requires=[WV], ret='is_%s({this})' % m))
    for t in ('path', 'monostate'):
        if t == 'path': add(C(V + 'value', name='value(path)', when=arg0(t, False), ret='mk_str({0})'))
        add(C(V + 'is', name='value::is<%s>' % t, when=ta0(t), requires=[WV], ret='is_%s({this})' % t))
        for r in (False, True):
            add(C(V + 'as', name='value::as<%s>%s' % (t, ' &&' if r else ''), when=ta0(t, r), requires=[WV], throws='!can_%s({this})' % t, **({'ret': 'rd_path({this})'} if t == 'path' else {})))
            if t == 'path': add(C(V + 'operator path', name='value::operator path%s' % (' &&' if r else ''), when=rt0(t, r), requires=[WV], throws='!can_path({this})', ret='rd_path({this})'))
    for t in sorted(set(x for t in types for x in args(t) if not x.isdigit())):
        m = mg(t)
        add(C(A + 'all', name='array::all<%s>' % t, when=ta0(t), requires=[WA], ret='iss_%s({this.d}, {this.d}.len() as int)' % m, loops=seqloop('{this.d}', ['iss_%s({this.d}, %s)' % (m, IT)], [])))
        add(C(O_ + 'all', name='object::all<%s>' % t, when=ta0(t), requires=[WO], ret='ism_%s({this.d})' % m,
              loops=[LoopSpec(['0 <= %s && %s <= ks({this.d}).len()' % (IT, IT), 'forall|j_: int| 0 <= j_ < %s ==> {this.d}.dom().contains(#[trigger] ks({this.d})[j_]) && is_%s({this.d}[ks({this.d})[j_]])' % (IT, m)], 'ks({this.d}).len() - %s' % IT)]))
        add(C(V + 'all', name='value::all<%s>' % t, when=ta0(t), requires=[WV], ret='({this}.ty == 5 && iss_%s(arr_of({this}), arr_of({this}).len() as int)) || ({this}.ty == 6 && ism_%s(obj_of({this})))' % (m, m)))
    return contracts
def lookup_for(types, paths=('I', 'K', 'KI', 'IK', 'KK')):
    """find<T>(pos or key), get(path, T): contracts that apply where a driver instantiates them"""
    out = []
    def add(c): c.optional = True; c.typed = True; c.look = True; out.append(c)
    for t in types:
        m = mg(t); D = ['wx_%s({%%d})' % m] if needs(t) else []
        for cls, w, at, isk in (('value', WV, 'at_pos({this}, {0})', 0), ('value', WV, 'at_key({this}, {0})', 1), ('array', WA, 'seq_at({this.d}, {0})', 0), ('object', WO, 'map_at({this.d}, {0})', 1)):
            x = at + '->Some_0'
            add(C('json::%s::find' % cls, name='%s::find<%s>(%s)' % (cls, t, 'key' if isk else 'pos'), when=lambda f, t=t, isk=isk: one(f) and bool(f.get('ta')) and tname(f['ta'][0]) == t and key(f) == bool(isk), requires=[w],
                  throws='%s is Some && is_%s(%s) && !can_%s(%s)' % (at, m, x, m, x), ensures=['{ret.has} == (%s is Some && is_%s(%s))' % (at, m, x), '{ret.has} ==> {ret.val} == rd_%s(%s)' % (m, x)]))
        for ks_ in paths:
            n = len(ks_)
            for cls, w, me in (('value', WV, 'Some({this})'), ('array', WA, 'Some(mk_arr({this.d}))'), ('object', WO, 'Some(mk_obj({this.d}))')):
                if cls == 'array' and ks_[0] == 'K' or cls == 'object' and ks_[0] == 'I': continue
                at = me
                for i, kk in enumerate(ks_): at = 'at_step2(%s, Step::%s({%d}))' % (at, kk, i)
                x = at + '->Some_0'
                add(C('json::%s::get' % cls, name='%s::get(%s, %s)' % (cls, ','.join('key' if q == 'K' else 'pos' for q in ks_), t), when=lambda f, ks_=ks_, t=t: getsig(f) == (ks_, t), requires=[w] + [q % n for q in D],
                      throws='%s is Some && is_%s(%s) && !can_%s(%s)' % (at, m, x, m, x), ret='if %s is Some && is_%s(%s) { rd_%s(%s) } else { {%d} }' % (at, m, x, m, x, n)))
    return out
typed = contracts_for(TYPES) + lookup_for([t for t in TYPES if head(t) != 'unique_ptr'] + ['path'])
contracts = typed + base_contracts

# the scalar conversions everything above rests on, verified in the same run
SCALAR = {'value(integer)', 'value(bool)', 'value(std::string)', 'value()', 'value(array&&)', 'value(object&&)', 'value(const value&)', 'value(value&&)', 'deep_copy'}
SCALAR_Q = {V + n for n in ('as_boolean', 'as_string', 'as_integer', 'as_long', 'operator int', 'operator long', 'operator bool', 'operator basic_string', 'as_array', 'as_object', 'is_null', 'is_array', 'is_object')} | \
    {'json::_value_impl_detail::parse_integer', 'json::_value_impl_detail::try_parse_integer'}
def select(c, f):
    return getattr(c, 'typed', False) or c.name in SCALAR or c.q in SCALAR_Q or any(c.name.startswith('value::%s<%s>' % (n, t)) for n in ('as', 'is') for t in ('int', 'long', 'bool', 'string'))
