// Serialisation: what escaping and dumping must produce, and the theorems that reading it gives the value back.
pub open spec fn hexd(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (87 + n) as u8 } }
pub open spec fn esc_char(b: u8) -> Seq<u8> {
    if b == 34 { seq![92u8, 34u8] } else if b == 92 { seq![92u8, 92u8] } else if b == 8 { seq![92u8, 98u8] } else if b == 12 { seq![92u8, 102u8] }
    else if b == 10 { seq![92u8, 110u8] } else if b == 13 { seq![92u8, 114u8] } else if b == 9 { seq![92u8, 116u8] }
    else if b < 32 { seq![92u8, 117u8, 48u8, 48u8, hexd(b as int / 16), hexd(b as int % 16)] } else { seq![b] }
}
// the first n characters of t, escaped
pub open spec fn esc_pre(t: Seq<u8>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { esc_pre(t, n - 1) + esc_char(t[n - 1]) } }
pub open spec fn esc_all(t: Seq<u8>) -> Seq<u8> { esc_pre(t, t.len() as int) }
pub open spec fn quoted(t: Seq<u8>) -> Seq<u8> { seq![34u8] + esc_all(t) + seq![34u8] }
// nothing has to be escaped in t[i..j]
pub open spec fn plain_esc(t: Seq<u8>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> 0 <= k < t.len() && #[trigger] t[k] >= 32 && t[k] != 34 && t[k] != 92 }
pub broadcast proof fn esc_pre_plain(t: Seq<u8>, a: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= t.len(), plain_esc(t, i, j)
    ensures #[trigger] (a + esc_pre(t, i) + t.subrange(i, j)) == a + esc_pre(t, j)
    decreases j - i
{
    if i < j {
        esc_pre_plain(t, a, i, j - 1);
        assert(plain_esc(t, i, j - 1));
        assert(t[j - 1] >= 32 && t[j - 1] != 34 && t[j - 1] != 92);
        assert(a + esc_pre(t, i) + t.subrange(i, j) =~= a + esc_pre(t, i) + t.subrange(i, j - 1) + seq![t[j - 1]]);
        assert(a + esc_pre(t, j - 1) + seq![t[j - 1]] =~= a + esc_pre(t, j));
    } else { assert(a + esc_pre(t, i) + t.subrange(i, j) =~= a + esc_pre(t, j)); }
}

// ---- text t stands at position i of s
pub open spec fn at(s: Seq<u8>, i: int, t: Seq<u8>) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t }
pub proof fn at_split(s: Seq<u8>, i: int, a: Seq<u8>, b: Seq<u8>)
    requires at(s, i, a + b)
    ensures at(s, i, a), at(s, i + a.len(), b), 0 <= i, i + a.len() + b.len() <= s.len(), (a + b).len() == a.len() + b.len()
{
    assert(s.subrange(i, i + a.len()) =~= s.subrange(i, i + (a + b).len()).subrange(0, a.len() as int));
    assert((a + b).subrange(0, a.len() as int) =~= a);
    assert(s.subrange(i + a.len(), i + a.len() + b.len()) =~= s.subrange(i, i + (a + b).len()).subrange(a.len() as int, (a + b).len() as int));
    assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b);
}
pub proof fn at_ix(s: Seq<u8>, i: int, t: Seq<u8>, k: int)
    requires at(s, i, t), 0 <= k < t.len()
    ensures s[i + k] == t[k], 0 <= i, i + t.len() <= s.len()
{ assert(s.subrange(i, i + t.len())[k] == s[i + k]); }

// the characters of t from n on, escaped
pub open spec fn esc_suf(t: Seq<u8>, n: int) -> Seq<u8>
    decreases t.len() - n
{ if n < 0 || n >= t.len() { Seq::empty() } else { esc_char(t[n]) + esc_suf(t, n + 1) } }
pub proof fn esc_split(t: Seq<u8>, n: int)
    requires 0 <= n <= t.len()
    ensures esc_all(t) == esc_pre(t, n) + esc_suf(t, n)
    decreases t.len() - n
{
    if n < t.len() { esc_split(t, n + 1); assert(esc_pre(t, n) + (esc_char(t[n]) + esc_suf(t, n + 1)) =~= esc_pre(t, n) + esc_char(t[n]) + esc_suf(t, n + 1)); }
    else { assert(esc_all(t) + Seq::<u8>::empty() =~= esc_all(t)); }
}
pub proof fn hexd_val(n: int)
    requires 0 <= n < 16
    ensures hexv(hexd(n)) == n
{}
// reading the escaped text gives the text
pub proof fn rt_str(s: Seq<u8>, i: int, t: Seq<u8>, n: int, acc: Seq<u8>)
    requires 0 <= n <= t.len(), at(s, i, esc_suf(t, n) + seq![34u8]), acc == t.subrange(0, n)
    ensures sp_str(s, i, acc, 0) == Some((t, i + esc_suf(t, n).len() + 1))
    decreases t.len() - n
{
    if n == t.len() {
        assert(esc_suf(t, n) + seq![34u8] =~= seq![34u8]);
        at_ix(s, i, esc_suf(t, n) + seq![34u8], 0);
        assert(acc =~= t);
    } else {
        let c = t[n]; let e = esc_char(c);
        assert(esc_suf(t, n) + seq![34u8] =~= e + (esc_suf(t, n + 1) + seq![34u8]));
        at_split(s, i, e, esc_suf(t, n + 1) + seq![34u8]);
        at_ix(s, i, e, 0);
        if e.len() > 1 { at_ix(s, i, e, 1); }
        if e.len() == 6 { at_ix(s, i, e, 2); at_ix(s, i, e, 3); at_ix(s, i, e, 4); at_ix(s, i, e, 5);
            hexd_val(c as int / 16); hexd_val(c as int % 16);
            assert(hexv(48u8) == 0);
            assert(hex4(s, i + 2) == Some(c as int));
            assert(utf8(c as int) =~= seq![c]);
            assert(acc + seq![c] =~= acc.push(c));
        }
        assert(acc.push(c) =~= t.subrange(0, n + 1));
        rt_str(s, i + e.len(), t, n + 1, acc.push(c));
    }
}
pub proof fn rt_quoted(s: Seq<u8>, i: int, t: Seq<u8>)
    requires at(s, i, quoted(t))
    ensures sp_string(s, i) == Some((t, i + quoted(t).len()))
{
    esc_split(t, 0);
    assert(esc_pre(t, 0) + esc_suf(t, 0) =~= esc_suf(t, 0));
    let r = esc_suf(t, 0) + seq![34u8];
    assert(quoted(t) =~= seq![34u8] + r);
    at_split(s, i, seq![34u8], r);
    at_ix(s, i, seq![34u8], 0);
    assert(Seq::<u8>::empty() =~= t.subrange(0, 0));
    rt_str(s, i + 1, t, 0, Seq::empty());
}
// THEOREM (C07): an escaped string between quotes is one string literal that decodes to the string
pub proof fn thm_escape_decodes(t: Seq<u8>)
    ensures sp_string(quoted(t), 0) == Some((t, quoted(t).len() as int))
{ assert(quoted(t).subrange(0, quoted(t).len() as int) =~= quoted(t)); rt_quoted(quoted(t), 0, t); }
// THEOREM (C07): escaping leaves no character that may not stand in a literal, and is injective
pub proof fn thm_escape_legal(t: Seq<u8>, n: int, k: int)
    requires 0 <= n <= t.len(), 0 <= k < esc_pre(t, n).len()
    ensures esc_pre(t, n)[k] >= 32
    decreases n
{ if n > 0 && k < esc_pre(t, n - 1).len() { thm_escape_legal(t, n - 1, k); } }
pub proof fn thm_escape_injective(a: Seq<u8>, b: Seq<u8>)
    requires esc_all(a) == esc_all(b)
    ensures a == b
{ thm_escape_decodes(a); thm_escape_decodes(b); }

// ---- documents; p: indented (json::format) or compact (json::to_string)
// size_t arithmetic of the indentation
pub open spec fn inc(p: bool, t: int) -> int { if p { wrapu(t + 1, 0x1_0000_0000_0000_0000) } else { t } }
pub open spec fn width(ind: int, t: int) -> int { wrapu(ind * t, 0x1_0000_0000_0000_0000) }
pub open spec fn nl(p: bool, n: int) -> Seq<u8> { if p { seq![10u8] + rep(n, 32) } else { Seq::empty() } }
pub open spec fn colon(p: bool) -> Seq<u8> { if p { seq![58u8, 32u8] } else { seq![58u8] } }
pub open spec fn comma(more: bool) -> Seq<u8> { if more { seq![44u8] } else { Seq::empty() } }
pub open spec fn lay(v: Value, p: bool, ind: int, t: int) -> Seq<u8>
    decreases v, 0int
{
    if v.ty == 1 { seq![110u8, 117u8, 108u8, 108u8] }
    else if v.ty == 5 && v.raw is A && v.raw->A_0 is Some { lay_arr(v.raw->A_0->Some_0, p, ind, t) }
    else if v.ty == 6 && v.raw is O && v.raw->O_0 is Some { lay_obj(v.raw->O_0->Some_0, p, ind, t) }
    else if v.raw is S { if v.ty == 3 { quoted(v.raw->S_0) } else { v.raw->S_0 } }
    else { Seq::empty() }
}
pub open spec fn lay_arr(a: Arr, p: bool, ind: int, t: int) -> Seq<u8>
    decreases a, 0int
{ seq![91u8] + lay_elems(a.d, a.d.len() as int, p, ind, t) + nl(p, width(ind, t)) + seq![93u8] }
// the first n elements, each on its line, with the commas between them
pub open spec fn lay_elems(d: Seq<Value>, n: int, p: bool, ind: int, t: int) -> Seq<u8>
    decreases d, n
{ if n <= 0 || n > d.len() { Seq::empty() } else { lay_elems(d, n - 1, p, ind, t) + nl(p, width(ind, inc(p, t))) + lay(d[n - 1], p, ind, inc(p, t)) + comma(n < d.len()) } }
pub open spec fn lay_obj(o: Obj, p: bool, ind: int, t: int) -> Seq<u8>
    decreases o, 0int
{ seq![123u8] + lay_membs(o.d, ks(o.d).len() as int, p, ind, t) + nl(p, width(ind, t)) + seq![125u8] }
pub open spec fn lay_membs(m: Map<Seq<u8>, Value>, n: int, p: bool, ind: int, t: int) -> Seq<u8>
    decreases m, n
{
    if n <= 0 || n > ks(m).len() || !m.dom().contains(ks(m)[n - 1]) { Seq::empty() }
    else { lay_membs(m, n - 1, p, ind, t) + nl(p, width(ind, inc(p, t))) + quoted(ks(m)[n - 1]) + colon(p) + lay(m[ks(m)[n - 1]], p, ind, inc(p, t)) + comma(n < ks(m).len()) }
}

// ---- what can be serialised: well-formed and no invalid value inside
pub open spec fn wf(v: Value) -> bool
    decreases v
{
    wf_tag(v) && (v.ty == 5 ==> (forall|k: int| 0 <= k < v.raw->A_0->Some_0.d.len() ==> wf(#[trigger] v.raw->A_0->Some_0.d[k])))
        && (v.ty == 6 ==> (forall|k: Seq<u8>| v.raw->O_0->Some_0.d.dom().contains(k) ==> wf(#[trigger] v.raw->O_0->Some_0.d[k])))
}
pub open spec fn wf_seq(d: Seq<Value>) -> bool { forall|k: int| 0 <= k < d.len() ==> wf(#[trigger] d[k]) }
pub open spec fn wf_map(m: Map<Seq<u8>, Value>) -> bool { forall|k: Seq<u8>| m.dom().contains(k) ==> wf(#[trigger] m[k]) }
// no value of invalid type anywhere in v
pub open spec fn dumpable(v: Value) -> bool
    decreases v
{
    v.ty != 0 && (v.ty == 5 && v.raw is A && v.raw->A_0 is Some ==> (forall|k: int| 0 <= k < v.raw->A_0->Some_0.d.len() ==> dumpable(#[trigger] v.raw->A_0->Some_0.d[k])))
        && (v.ty == 6 && v.raw is O && v.raw->O_0 is Some ==> (forall|k: Seq<u8>| v.raw->O_0->Some_0.d.dom().contains(k) ==> dumpable(#[trigger] v.raw->O_0->Some_0.d[k])))
}
pub open spec fn dumpable_pre(d: Seq<Value>, n: int) -> bool { forall|k: int| 0 <= k < n ==> dumpable(#[trigger] d[k]) }
pub open spec fn dumpable_mpre(m: Map<Seq<u8>, Value>, n: int) -> bool { forall|k: int| 0 <= k < n ==> dumpable(m[#[trigger] ks(m)[k]]) }
pub open spec fn dumpable_map(m: Map<Seq<u8>, Value>) -> bool { forall|k: Seq<u8>| m.dom().contains(k) ==> dumpable(#[trigger] m[k]) }
pub broadcast proof fn dumpable_mall(m: Map<Seq<u8>, Value>)
    ensures #[trigger] dumpable_map(m) == dumpable_mpre(m, ks(m).len() as int)
{
    if dumpable_map(m) { assert forall|k: int| 0 <= k < ks(m).len() implies dumpable(m[#[trigger] ks(m)[k]]) by { ks_in(m, k); } }
    if dumpable_mpre(m, ks(m).len() as int) {
        assert forall|k: Seq<u8>| m.dom().contains(k) implies dumpable(#[trigger] m[k]) by { ks_all(m, k); let j = choose|j: int| 0 <= j < ks(m).len() && ks(m)[j] == k; assert(dumpable(m[ks(m)[j]])); }
    }
}
// nesting height, the measure of every recursion over a value
pub open spec fn height(v: Value) -> int
    decreases v, 0int
{ if v.ty == 5 && v.raw is A && v.raw->A_0 is Some { 1 + height_arr(v.raw->A_0->Some_0) } else if v.ty == 6 && v.raw is O && v.raw->O_0 is Some { 1 + height_obj(v.raw->O_0->Some_0) } else { 1 } }
pub open spec fn height_arr(a: Arr) -> int
    decreases a, 0int
{ 1 + hmax(a.d, a.d.len() as int) }
pub open spec fn height_obj(o: Obj) -> int
    decreases o, 0int
{ 1 + hmaxm(o.d, ks(o.d).len() as int) }
pub open spec fn hmax(d: Seq<Value>, n: int) -> int
    decreases d, n
{ if n <= 0 || n > d.len() { 0 } else { let a = hmax(d, n - 1); let b = height(d[n - 1]); if a < b { b } else { a } } }
pub open spec fn hmaxm(m: Map<Seq<u8>, Value>, n: int) -> int
    decreases m, n
{ if n <= 0 || n > ks(m).len() || !m.dom().contains(ks(m)[n - 1]) { 0 } else { let a = hmaxm(m, n - 1); let b = height(m[ks(m)[n - 1]]); if a < b { b } else { a } } }
pub proof fn height_pos(v: Value)
    ensures height(v) >= 1
    decreases v
{
    if v.ty == 5 && v.raw is A && v.raw->A_0 is Some { hmax_pos(v.raw->A_0->Some_0.d, v.raw->A_0->Some_0.d.len() as int); }
    if v.ty == 6 && v.raw is O && v.raw->O_0 is Some { hmaxm_pos(v.raw->O_0->Some_0.d, ks(v.raw->O_0->Some_0.d).len() as int); }
}
pub proof fn hmax_pos(d: Seq<Value>, n: int)
    ensures hmax(d, n) >= 0
    decreases n
{ if 0 < n <= d.len() { hmax_pos(d, n - 1); } }
pub proof fn hmaxm_pos(m: Map<Seq<u8>, Value>, n: int)
    ensures hmaxm(m, n) >= 0
    decreases n
{ if 0 < n <= ks(m).len() { hmaxm_pos(m, n - 1); } }
pub proof fn hmax_up(d: Seq<Value>, k: int, n: int)
    requires 0 <= k < n <= d.len()
    ensures height(d[k]) <= hmax(d, n)
    decreases n
{ if k < n - 1 { hmax_up(d, k, n - 1); } }
pub proof fn hmaxm_up(m: Map<Seq<u8>, Value>, k: int, n: int)
    requires 0 <= k < n <= ks(m).len()
    ensures height(m[ks(m)[k]]) <= hmaxm(m, n)
    decreases n
{ ks_in(m, n - 1); ks_in(m, k); if k < n - 1 { hmaxm_up(m, k, n - 1); } }
pub broadcast proof fn height_elem(d: Seq<Value>, k: int)
    requires 0 <= k < d.len()
    ensures 1 <= #[trigger] height(d[k]) < height_arr(Arr { d })
{ height_pos(d[k]); hmax_up(d, k, d.len() as int); }
pub broadcast proof fn height_memb(m: Map<Seq<u8>, Value>, k: Seq<u8>)
    requires m.dom().contains(k)
    ensures 1 <= #[trigger] height(m[k]) < height_obj(Obj { d: m })
{ height_pos(m[k]); ks_all(m, k); let j = choose|j: int| 0 <= j < ks(m).len() && ks(m)[j] == k; hmaxm_up(m, j, ks(m).len() as int); }
pub broadcast proof fn height_ge(v: Value)
    ensures #[trigger] height(v) >= 1
{ height_pos(v); }
pub broadcast proof fn height_arr_ge(a: Arr)
    ensures #[trigger] height_arr(a) >= 1
{ hmax_pos(a.d, a.d.len() as int); }
pub broadcast proof fn height_obj_ge(a: Obj)
    ensures #[trigger] height_obj(a) >= 1
{ hmaxm_pos(a.d, ks(a.d).len() as int); }
pub broadcast group serial_lemmas { height_arr_ge, height_obj_ge, esc_pre_plain, dumpable_mall, height_elem, height_memb, height_ge }
