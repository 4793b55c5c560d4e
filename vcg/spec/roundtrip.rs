// THEOREMS: reading a serialised value gives the value back (any layout, both modes).
pub open spec fn stops(s: Seq<u8>, i: int) -> bool { i >= s.len() || (0 <= i && !is_dig(s[i]) && s[i] != 46 && s[i] != 101 && s[i] != 69) }
// a complete number literal
pub open spec fn num_lit(t: Seq<u8>) -> bool { sp_num(t, 0) == Some(t.len() as int) }
// a value whose serialisation is JSON: every kind carries what that kind carries, numbers carry a JSON number literal
pub open spec fn printable(v: Value) -> bool
    decreases v
{
    1 <= v.ty <= 6 && (v.ty == 1 ==> v.raw == Var::S(Seq::empty()))
    && (v.ty == 2 ==> v == v_bool(true) || v == v_bool(false))
    && (v.ty == 3 ==> v.raw is S)
    && (v.ty == 4 ==> v.raw is S && num_lit(v.raw->S_0))
    && (v.ty == 5 ==> v.raw is A && v.raw->A_0 is Some && (forall|k: int| 0 <= k < v.raw->A_0->Some_0.d.len() ==> printable(#[trigger] v.raw->A_0->Some_0.d[k])))
    && (v.ty == 6 ==> v.raw is O && v.raw->O_0 is Some && (forall|k: Seq<u8>| v.raw->O_0->Some_0.d.dom().contains(k) ==> printable(#[trigger] v.raw->O_0->Some_0.d[k])))
}
pub proof fn digits_shift(s: Seq<u8>, i: int, t: Seq<u8>, a: int)
    requires at(s, i, t), 0 <= a <= t.len(), stops(s, i + t.len())
    ensures sp_digits(s, i + a) == i + sp_digits(t, a), a <= sp_digits(t, a) <= t.len()
    decreases t.len() - a
{ if a < t.len() { at_ix(s, i, t, a); if is_dig(t[a]) { digits_shift(s, i, t, a + 1); } } }
pub proof fn num_shift(s: Seq<u8>, i: int, t: Seq<u8>)
    requires at(s, i, t), num_lit(t), stops(s, i + t.len())
    ensures sp_num(s, i) == Some(i + t.len())
{
    assert forall|k: int| 0 <= k < t.len() implies s[i + k] == #[trigger] t[k] by { at_ix(s, i, t, k); }
    let a0 = if ch_at(t, 0, 45) { 1int } else { 0 };
    assert(ch_at(t, 0, 45) == ch_at(s, i, 45));
    digits_shift(s, i, t, a0);
    assert(dig_at(t, a0) == dig_at(s, i + a0));
    if a0 + 1 < t.len() { assert(s[i + (a0 + 1)] == t[a0 + 1]); }
    assert(sp_int(s, i) == Some(i + sp_int(t, 0)->Some_0));
    let a = sp_int(t, 0)->Some_0;
    assert(ch_at(t, a, 46) == ch_at(s, i + a, 46));
    if ch_at(t, a, 46) { if a + 1 < t.len() { assert(s[i + (a + 1)] == t[a + 1]); } digits_shift(s, i, t, a + 1); }
    assert(sp_frac(s, i + a) == Some(i + sp_frac(t, a)->Some_0));
    let b = sp_frac(t, a)->Some_0;
    if b < t.len() {
        assert(s[i + b] == t[b]);
        if b + 1 < t.len() { assert(s[i + (b + 1)] == t[b + 1]); digits_shift(s, i, t, b + 1); }
        if b + 2 < t.len() { assert(s[i + (b + 2)] == t[b + 2]); digits_shift(s, i, t, b + 2); }
    }
}
pub proof fn ws_here(s: Seq<u8>, i: int, jc: bool)
    requires 0 <= i < s.len(), !is_ws(s[i]), s[i] != 47
    ensures sp_ws(s, i, jc) == i
{}
pub proof fn ws_spaces(s: Seq<u8>, i: int, n: int, jc: bool)
    requires n >= 0, at(s, i, rep(n, 32)), i + n < s.len(), !is_ws(s[i + n]), s[i + n] != 47
    ensures sp_ws(s, i, jc) == i + n
    decreases n
{
    if n == 0 { ws_here(s, i, jc); }
    else {
        assert(rep(n, 32) =~= seq![32u8] + rep(n - 1, 32));
        at_split(s, i, seq![32u8], rep(n - 1, 32)); at_ix(s, i, seq![32u8], 0);
        ws_spaces(s, i + 1, n - 1, jc);
    }
}
pub proof fn ws_nl(s: Seq<u8>, i: int, p: bool, n: int, jc: bool)
    requires at(s, i, nl(p, n)), i + nl(p, n).len() < s.len(), ({ let c = s[i + nl(p, n).len()]; !is_ws(c) && c != 47 })
    ensures sp_ws(s, i, jc) == i + nl(p, n).len()
{
    if p {
        at_split(s, i, seq![10u8], rep(n, 32)); at_ix(s, i, seq![10u8], 0);
        let m = if n < 0 { 0 } else { n };
        assert(rep(n, 32) =~= rep(m, 32));
        ws_spaces(s, i + 1, m, jc);
    } else { ws_here(s, i, jc); }
}
// what a serialised value starts with
pub open spec fn starts(c: u8) -> bool { c == 110 || c == 116 || c == 102 || c == 45 || is_dig(c) || c == 34 || c == 91 || c == 123 }
pub proof fn lay_first(v: Value, p: bool, ind: int, t: int)
    requires printable(v)
    ensures lay(v, p, ind, t).len() > 0, starts(lay(v, p, ind, t)[0])
{
    if v.ty == 5 { assert(lay(v, p, ind, t)[0] == 91); }
    else if v.ty == 6 { assert(lay(v, p, ind, t)[0] == 123); }
    else if v.ty == 3 { assert(lay(v, p, ind, t)[0] == 34); }
}
pub proof fn elems_at(s: Seq<u8>, i: int, d: Seq<Value>, n: int, m: int, p: bool, ind: int, t: int)
    requires 0 <= n <= m <= d.len(), at(s, i, lay_elems(d, m, p, ind, t))
    ensures at(s, i, lay_elems(d, n, p, ind, t))
    decreases m - n
{
    if n < m {
        let b = lay_elems(d, m - 1, p, ind, t); let w = nl(p, width(ind, inc(p, t))); let e = lay(d[m - 1], p, ind, inc(p, t)); let c = comma(m < d.len());
        at_split(s, i, b + w + e, c); at_split(s, i, b + w, e); at_split(s, i, b, w);
        elems_at(s, i, d, n, m - 1, p, ind, t);
    }
}
pub proof fn membs_at(s: Seq<u8>, i: int, m: Map<Seq<u8>, Value>, n: int, k: int, p: bool, ind: int, t: int)
    requires 0 <= n <= k <= ks(m).len(), at(s, i, lay_membs(m, k, p, ind, t))
    ensures at(s, i, lay_membs(m, n, p, ind, t))
    decreases k - n
{
    if n < k {
        ks_in(m, k - 1);
        let b = lay_membs(m, k - 1, p, ind, t); let w = nl(p, width(ind, inc(p, t))); let q = quoted(ks(m)[k - 1]); let e = lay(m[ks(m)[k - 1]], p, ind, inc(p, t)); let c = comma(k < ks(m).len());
        at_split(s, i, b + w + q + colon(p) + e, c); at_split(s, i, b + w + q + colon(p), e); at_split(s, i, b + w + q, colon(p)); at_split(s, i, b + w, q); at_split(s, i, b, w);
        membs_at(s, i, m, n, k - 1, p, ind, t);
    }
}
pub proof fn mpre_step<V>(m: Map<Seq<u8>, V>, n: int)
    requires 0 <= n
    ensures mpre(m, n + 1) == mpre(m, n).insert(ks(m)[n], m[ks(m)[n]])
{}
pub proof fn lay_elems_step(d: Seq<Value>, n: int, p: bool, ind: int, t: int)
    requires 0 <= n < d.len()
    ensures lay_elems(d, n + 1, p, ind, t) == lay_elems(d, n, p, ind, t) + nl(p, width(ind, inc(p, t))) + lay(d[n], p, ind, inc(p, t)) + comma(n + 1 < d.len()),
        lay_elems(d, 0, p, ind, t) == Seq::<u8>::empty()
{}
pub proof fn lay_membs_step(m: Map<Seq<u8>, Value>, n: int, p: bool, ind: int, t: int)
    requires 0 <= n < ks(m).len()
    ensures lay_membs(m, n + 1, p, ind, t) == lay_membs(m, n, p, ind, t) + nl(p, width(ind, inc(p, t))) + quoted(ks(m)[n]) + colon(p) + lay(m[ks(m)[n]], p, ind, inc(p, t)) + comma(n + 1 < ks(m).len()),
        lay_membs(m, 0, p, ind, t) == Seq::<u8>::empty(), m.dom().contains(ks(m)[n])
{ ks_in(m, n); }
// one step of the reader
pub proof fn sp_elems_step(s: Seq<u8>, i: int, acc: Seq<Value>, jc: bool, k: int, v: Value, r: int, m: int)
    requires 0 <= i <= k, k == sp_ws(s, i, jc), sig(s, k), s[k] != 93, sp_value(s, k, jc) == Some((v, r)), k < r <= m, m == sp_ws(s, r, jc), sig(s, m)
    ensures s[m] == 44 ==> sp_elems(s, i, acc, jc) == sp_elems(s, m + 1, acc.push(v), jc),
        s[m] == 93 ==> sp_elems(s, i, acc, jc) == Some((v_arr(acc.push(v)), m + 1))
{ hide(sp_ws); assert(sp_elems(s, i, acc, jc) == sp_elem(s, k, acc, jc)); }
pub proof fn sp_members_step(s: Seq<u8>, i: int, acc: Map<Seq<u8>, Value>, jc: bool, k: int, key: Seq<u8>, g: int, c: int, h: int, v: Value, r: int, m: int)
    requires 0 <= i <= k, k == sp_ws(s, i, jc), sig(s, k), s[k] != 125, sp_string(s, k) == Some((key, g)), k < g <= c, c == sp_ws(s, g, jc), sig(s, c), s[c] == 58,
        c + 1 <= h, h == sp_ws(s, c + 1, jc), sig(s, h), sp_value(s, h, jc) == Some((v, r)), h < r <= m, m == sp_ws(s, r, jc), sig(s, m), !acc.dom().contains(key)
    ensures s[m] == 44 ==> sp_members(s, i, acc, jc) == sp_members(s, m + 1, acc.insert(key, v), jc),
        s[m] == 125 ==> sp_members(s, i, acc, jc) == Some((v_obj(acc.insert(key, v)), m + 1))
{ hide(sp_ws); hide(sp_string); }
pub proof fn sp_array_step(s: Seq<u8>, i: int, jc: bool, k: int)
    requires 0 <= i < s.len(), s[i] == 91, k == sp_ws(s, i + 1, jc), sig(s, k)
    ensures s[k] == 93 ==> sp_array(s, i, jc) == Some((v_arr(Seq::empty()), k + 1)), s[k] != 93 ==> sp_array(s, i, jc) == sp_elems(s, i + 1, Seq::empty(), jc)
{ hide(sp_ws); }
pub proof fn sp_object_step(s: Seq<u8>, i: int, jc: bool, k: int)
    requires 0 <= i < s.len(), s[i] == 123, k == sp_ws(s, i + 1, jc), sig(s, k)
    ensures s[k] == 125 ==> sp_object(s, i, jc) == Some((v_obj(Map::empty()), k + 1)), s[k] != 125 ==> sp_object(s, i, jc) == sp_members(s, i + 1, Map::empty(), jc)
{ hide(sp_ws); }
pub proof fn ws_sp1(s: Seq<u8>, i: int, jc: bool)
    requires 0 <= i, i + 1 < s.len(), s[i] == 32, !is_ws(s[i + 1]), s[i + 1] != 47
    ensures sp_ws(s, i, jc) == i + 1
{ ws_here(s, i + 1, jc); }
pub proof fn lay_step(v: Value, p: bool, ind: int, t: int)
    requires printable(v)
    ensures v.ty == 5 ==> lay(v, p, ind, t) == lay_arr(v.raw->A_0->Some_0, p, ind, t), v.ty == 6 ==> lay(v, p, ind, t) == lay_obj(v.raw->O_0->Some_0, p, ind, t)
{}
pub proof fn printable_step(v: Value)
    requires printable(v)
    ensures 1 <= v.ty <= 6,
        v.ty == 5 ==> v.raw is A && v.raw->A_0 is Some && (forall|k: int| 0 <= k < v.raw->A_0->Some_0.d.len() ==> printable(#[trigger] v.raw->A_0->Some_0.d[k])),
        v.ty == 6 ==> v.raw is O && v.raw->O_0 is Some && (forall|k: Seq<u8>| v.raw->O_0->Some_0.d.dom().contains(k) ==> printable(#[trigger] v.raw->O_0->Some_0.d[k]))
{}
pub proof fn sp_value_cont(s: Seq<u8>, i: int, jc: bool)
    ensures 0 <= i < s.len() && s[i] == 91 ==> sp_value(s, i, jc) == sp_array(s, i, jc), 0 <= i < s.len() && s[i] == 123 ==> sp_value(s, i, jc) == sp_object(s, i, jc)
{}
pub proof fn rt_scalar(s: Seq<u8>, i: int, v: Value, p: bool, ind: int, t: int, jc: bool)
    requires printable(v), v.ty < 5, at(s, i, lay(v, p, ind, t)), v.ty == 4 ==> stops(s, i + lay(v, p, ind, t).len())
    ensures sp_value(s, i, jc) == Some((v, i + lay(v, p, ind, t).len()))
{
    hide(sp_ws); hide(sp_elems); hide(sp_members); hide(sp_elem); hide(sp_array); hide(sp_object); hide(lay_arr); hide(lay_obj);
    let x = lay(v, p, ind, t);
    lay_first(v, p, ind, t); at_ix(s, i, x, 0);
    if v.ty == 1 || v.ty == 2 {
        assert forall|k: int| 0 <= k < x.len() implies s[i + k] == x[k] by { at_ix(s, i, x, k); }
    } else if v.ty == 3 {
        rt_quoted(s, i, v.raw->S_0);
    } else {
        num_shift(s, i, x);
        assert(s.subrange(i, i + x.len()) =~= x);
    }
}
pub proof fn rt_value(s: Seq<u8>, i: int, v: Value, p: bool, ind: int, t: int, jc: bool)
    requires printable(v), at(s, i, lay(v, p, ind, t)), v.ty == 4 ==> stops(s, i + lay(v, p, ind, t).len())
    ensures sp_value(s, i, jc) == Some((v, i + lay(v, p, ind, t).len()))
    decreases v, 1int, 0int
{
    hide(lay); hide(sp_ws); hide(lay_membs); hide(lay_elems); hide(printable); hide(sp_elems); hide(sp_members); hide(sp_elem); hide(at); hide(sp_value); hide(sp_array); hide(sp_object);
    let x = lay(v, p, ind, t);
    lay_first(v, p, ind, t); at_ix(s, i, x, 0);
    lay_step(v, p, ind, t); printable_step(v);
    if v.ty == 5 { rt_arr(s, i, v.raw->A_0->Some_0, p, ind, t, jc); sp_value_cont(s, i, jc); assert(v_arr(v.raw->A_0->Some_0.d) == v); }
    else if v.ty == 6 { rt_obj(s, i, v.raw->O_0->Some_0, p, ind, t, jc); sp_value_cont(s, i, jc); assert(v_obj(v.raw->O_0->Some_0.d) == v); }
    else { rt_scalar(s, i, v, p, ind, t, jc); }
}
pub proof fn rt_arr(s: Seq<u8>, i: int, a: Arr, p: bool, ind: int, t: int, jc: bool)
    requires forall|k: int| 0 <= k < a.d.len() ==> printable(#[trigger] a.d[k]), at(s, i, lay_arr(a, p, ind, t))
    ensures sp_array(s, i, jc) == Some((v_arr(a.d), i + lay_arr(a, p, ind, t).len()))
    decreases a, 0int, 0int
{
    hide(at); hide(printable); hide(lay); hide(sp_value); hide(quoted); hide(sp_string); hide(esc_all); hide(sp_ws); hide(sp_members); hide(sp_elems); hide(sp_elem); hide(sp_object); hide(lay_membs);
        let d = a.d; let n = d.len() as int; let x = lay_arr(a, p, ind, t);
        let es = lay_elems(d, n, p, ind, t); let w = nl(p, width(ind, t));
        let tl = es + w + seq![93u8];
        assert(x =~= seq![91u8] + tl);
        at_split(s, i, seq![91u8], tl); at_split(s, i + 1, es + w, seq![93u8]); at_split(s, i + 1, es, w);
        at_ix(s, i, seq![91u8], 0);
        assert((es + w).len() == es.len() + w.len()); assert(x.len() == 2 + es.len() + w.len());
        at_ix(s, i + 1 + es.len() + w.len(), seq![93u8], 0);
        if n == 0 { ws_nl(s, i + 1, p, width(ind, t), jc); sp_array_step(s, i, jc, i + 1 + w.len()); assert(es =~= Seq::empty()); assert(d =~= Seq::empty()); }
        else {
            elems_at(s, i + 1, d, 1, n, p, ind, t);
            let w1 = nl(p, width(ind, inc(p, t))); let e = lay(d[0], p, ind, inc(p, t)); let c = comma(1 < n);
            lay_elems_step(d, 0, p, ind, t);
            assert(lay_elems(d, 1, p, ind, t) =~= w1 + e + c);
            at_split(s, i + 1, w1 + e, c); at_split(s, i + 1, w1, e);
            lay_first(d[0], p, ind, inc(p, t)); at_ix(s, i + 1 + w1.len(), e, 0);
            ws_nl(s, i + 1, p, width(ind, inc(p, t)), jc);
            assert(d.subrange(0, 0) =~= Seq::empty());
            sp_array_step(s, i, jc, i + 1 + w1.len());
            rt_elems(s, i + 1, d, 0, p, ind, t, jc, i + x.len());
        }
}
pub proof fn rt_obj(s: Seq<u8>, i: int, o: Obj, p: bool, ind: int, t: int, jc: bool)
    requires forall|k: Seq<u8>| o.d.dom().contains(k) ==> printable(#[trigger] o.d[k]), at(s, i, lay_obj(o, p, ind, t))
    ensures sp_object(s, i, jc) == Some((v_obj(o.d), i + lay_obj(o, p, ind, t).len()))
    decreases o, 0int, 0int
{
    hide(at); hide(printable); hide(lay); hide(sp_value); hide(quoted); hide(sp_string); hide(esc_all); hide(sp_ws); hide(sp_members); hide(sp_elems); hide(sp_elem); hide(sp_array); hide(lay_elems); hide(mpre);
        let m = o.d; let n = ks(m).len() as int; let x = lay_obj(o, p, ind, t);
        let es = lay_membs(m, n, p, ind, t); let w = nl(p, width(ind, t));
        let tl = es + w + seq![125u8];
        assert(x =~= seq![123u8] + tl);
        at_split(s, i, seq![123u8], tl); at_split(s, i + 1, es + w, seq![125u8]); at_split(s, i + 1, es, w);
        at_ix(s, i, seq![123u8], 0);
        assert((es + w).len() == es.len() + w.len()); assert(x.len() == 2 + es.len() + w.len());
        at_ix(s, i + 1 + es.len() + w.len(), seq![125u8], 0);
        if n == 0 { ws_nl(s, i + 1, p, width(ind, t), jc); sp_object_step(s, i, jc, i + 1 + w.len()); assert(es =~= Seq::empty()); mpre_all(m, 0); assert(mpre(m, 0) =~= Map::empty()) by { reveal(mpre); } }
        else {
            membs_at(s, i + 1, m, 1, n, p, ind, t);
            let w1 = nl(p, width(ind, inc(p, t))); let q = quoted(ks(m)[0]); let e = lay(m[ks(m)[0]], p, ind, inc(p, t)); let c = comma(1 < n);
            ks_in(m, 0);
            lay_membs_step(m, 0, p, ind, t);
            assert(lay_membs(m, 1, p, ind, t) =~= w1 + q + colon(p) + e + c);
            at_split(s, i + 1, w1 + q + colon(p) + e, c); at_split(s, i + 1, w1 + q + colon(p), e); at_split(s, i + 1, w1 + q, colon(p)); at_split(s, i + 1, w1, q);
            assert(q.len() > 0 && q[0] == 34) by { reveal(quoted); }
            at_ix(s, i + 1 + w1.len(), q, 0);
            ws_nl(s, i + 1, p, width(ind, inc(p, t)), jc);
            assert(mpre(m, 0) =~= Map::empty()) by { reveal(mpre); }
            sp_object_step(s, i, jc, i + 1 + w1.len());
            rt_membs(s, i + 1, m, 0, p, ind, t, jc, i + x.len());
        }
}
// behind the '[' at b-1, with n elements read
pub proof fn rt_elems(s: Seq<u8>, b: int, d: Seq<Value>, n: int, p: bool, ind: int, t: int, jc: bool, end: int)
    requires 0 <= n < d.len(), forall|k: int| 0 <= k < d.len() ==> printable(#[trigger] d[k]), b >= 1,
        at(s, b, lay_elems(d, d.len() as int, p, ind, t) + nl(p, width(ind, t)) + seq![93u8]),
        end == b + lay_elems(d, d.len() as int, p, ind, t).len() + nl(p, width(ind, t)).len() + 1
    ensures sp_elems(s, b + lay_elems(d, n, p, ind, t).len(), d.subrange(0, n), jc) == Some((v_arr(d), end))
    decreases d, 0int, d.len() - n
{
    hide(at); hide(printable); hide(lay); hide(sp_value); hide(quoted); hide(sp_string); hide(esc_all); hide(sp_ws); hide(sp_members); hide(sp_array); hide(sp_object); hide(lay_membs);
    let len = d.len() as int;
    let all = lay_elems(d, len, p, ind, t); let w = nl(p, width(ind, t));
    at_split(s, b, all + w, seq![93u8]); at_split(s, b, all, w);
    at_ix(s, b + all.len() + w.len(), seq![93u8], 0);
    assert((all + w).len() == all.len() + w.len());
    elems_at(s, b, d, n + 1, len, p, ind, t);
    let pre = lay_elems(d, n, p, ind, t); let w1 = nl(p, width(ind, inc(p, t))); let e = lay(d[n], p, ind, inc(p, t)); let c = comma(n + 1 < len);
    let nxt = lay_elems(d, n + 1, p, ind, t);
    lay_elems_step(d, n, p, ind, t);
    assert(nxt == pre + w1 + e + c);
    at_split(s, b, pre + w1 + e, c); at_split(s, b, pre + w1, e); at_split(s, b, pre, w1);
    assert((pre + w1 + e).len() == pre.len() + w1.len() + e.len());
    assert((pre + w1).len() == pre.len() + w1.len());
    let q = b + pre.len(); let k = q + w1.len(); let r = k + e.len();
    lay_first(d[n], p, ind, inc(p, t)); at_ix(s, k, e, 0);
    ws_nl(s, q, p, width(ind, inc(p, t)), jc);
    assert(sig(s, k) && s[k] != 93);
    assert(d.subrange(0, n).push(d[n]) =~= d.subrange(0, n + 1));
    if n + 1 < len {
        at_ix(s, r, c, 0);
        rt_value(s, k, d[n], p, ind, inc(p, t), jc);
        ws_here(s, r, jc);
        sp_elems_step(s, q, d.subrange(0, n), jc, k, d[n], r, r);
        rt_elems(s, b, d, n + 1, p, ind, t, jc, end);
        assert(b + nxt.len() == r + 1);
    } else {
        assert(b + all.len() == r);
        ws_nl(s, r, p, width(ind, t), jc);
        if p { at_split(s, r, seq![10u8], rep(width(ind, t), 32)); at_ix(s, r, seq![10u8], 0); }
        rt_value(s, k, d[n], p, ind, inc(p, t), jc);
        assert(d.subrange(0, n + 1) =~= d);
        sp_elems_step(s, q, d.subrange(0, n), jc, k, d[n], r, r + w.len());
    }
}
pub proof fn rt_membs(s: Seq<u8>, b: int, m: Map<Seq<u8>, Value>, n: int, p: bool, ind: int, t: int, jc: bool, end: int)
    requires 0 <= n < ks(m).len(), forall|k: Seq<u8>| m.dom().contains(k) ==> printable(#[trigger] m[k]), b >= 1,
        at(s, b, lay_membs(m, ks(m).len() as int, p, ind, t) + nl(p, width(ind, t)) + seq![125u8]),
        end == b + lay_membs(m, ks(m).len() as int, p, ind, t).len() + nl(p, width(ind, t)).len() + 1
    ensures sp_members(s, b + lay_membs(m, n, p, ind, t).len(), mpre(m, n), jc) == Some((v_obj(m), end))
    decreases m, 0int, ks(m).len() - n
{
    hide(at); hide(printable); hide(lay); hide(sp_value); hide(quoted); hide(sp_string); hide(esc_all); hide(sp_ws); hide(sp_elems); hide(sp_elem); hide(sp_array); hide(sp_object); hide(lay_elems); hide(mpre);
    let len = ks(m).len() as int;
    let all = lay_membs(m, len, p, ind, t); let w = nl(p, width(ind, t));
    at_split(s, b, all + w, seq![125u8]); at_split(s, b, all, w);
    at_ix(s, b + all.len() + w.len(), seq![125u8], 0);
    assert((all + w).len() == all.len() + w.len());
    membs_at(s, b, m, n + 1, len, p, ind, t);
    let key = ks(m)[n]; let v = m[key];
    ks_in(m, n);
    let pre = lay_membs(m, n, p, ind, t); let w1 = nl(p, width(ind, inc(p, t))); let qt = quoted(key); let co = colon(p); let e = lay(v, p, ind, inc(p, t)); let c = comma(n + 1 < len);
    let nxt = lay_membs(m, n + 1, p, ind, t);
    lay_membs_step(m, n, p, ind, t);
    assert(nxt == pre + w1 + qt + co + e + c);
    at_split(s, b, pre + w1 + qt + co + e, c); at_split(s, b, pre + w1 + qt + co, e); at_split(s, b, pre + w1 + qt, co); at_split(s, b, pre + w1, qt); at_split(s, b, pre, w1);
    let q = b + pre.len(); let k = q + w1.len(); let g = k + qt.len(); let h = g + co.len(); let r = h + e.len();
    assert((pre + w1 + qt + co + e).len() == r - b && (pre + w1 + qt + co).len() == h - b && (pre + w1 + qt).len() == g - b && (pre + w1).len() == k - b);
    assert(qt.len() > 0 && qt[0] == 34) by { reveal(quoted); }
    at_ix(s, k, qt, 0);
    ws_nl(s, q, p, width(ind, inc(p, t)), jc);
    rt_quoted(s, k, key);
    at_ix(s, g, co, 0);
    ws_here(s, g, jc);
    lay_first(v, p, ind, inc(p, t)); at_ix(s, h, e, 0);
    if p { at_ix(s, g, co, 1); ws_sp1(s, g + 1, jc); } else { ws_here(s, h, jc); }
    assert(sp_ws(s, g + 1, jc) == h);
    mpre_new(m, n);
    mpre_step(m, n);
    if n + 1 < len {
        at_ix(s, r, c, 0);
        rt_value(s, h, v, p, ind, inc(p, t), jc);
        ws_here(s, r, jc);
        sp_members_step(s, q, mpre(m, n), jc, k, key, g, g, h, v, r, r);
        rt_membs(s, b, m, n + 1, p, ind, t, jc, end);
        assert(b + nxt.len() == r + 1);
    } else {
        assert(b + all.len() == r);
        ws_nl(s, r, p, width(ind, t), jc);
        if p { at_split(s, r, seq![10u8], rep(width(ind, t), 32)); at_ix(s, r, seq![10u8], 0); }
        rt_value(s, h, v, p, ind, inc(p, t), jc);
        sp_members_step(s, q, mpre(m, n), jc, k, key, g, g, h, v, r, r + w.len());
        mpre_all(m, n + 1); assert(mpre(m, n + 1) == m);
    }
}
// ---- what the reader returns can be written
pub proof fn digits_back(s: Seq<u8>, i: int, j: int, a: int)
    requires 0 <= i, 0 <= a, i + a <= sp_digits(s, i + a) <= j <= s.len()
    ensures sp_digits(s.subrange(i, j), a) == sp_digits(s, i + a) - i
    decreases j - (i + a)
{
    let t = s.subrange(i, j);
    if i + a < j {
        assert(t[a] == s[i + a]);
        if is_dig(s[i + a]) { digits_mono(s, i + a + 1); digits_back(s, i, j, a + 1); }
    }
}
pub proof fn digits_mono(s: Seq<u8>, i: int)
    ensures i <= sp_digits(s, i), 0 <= i <= s.len() ==> sp_digits(s, i) <= s.len()
    decreases s.len() - i
{ if 0 <= i < s.len() && is_dig(s[i]) { digits_mono(s, i + 1); } }
pub proof fn num_back(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), sp_num(s, i) is Some
    ensures num_lit(s.subrange(i, sp_num(s, i)->Some_0)), i < sp_num(s, i)->Some_0 <= s.len()
{
    let j = sp_num(s, i)->Some_0;
    let a = sp_int(s, i)->Some_0; let b = sp_frac(s, a)->Some_0;
    let a0 = if ch_at(s, i, 45) { i + 1 } else { i };
    digits_mono(s, a0); digits_mono(s, a + 1); digits_mono(s, b + 1); digits_mono(s, b + 2);
    assert(i < a <= b <= j <= s.len());
    let t = s.subrange(i, j);
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == s[i + k] by {}
    digits_back(s, i, j, a0 - i);
    assert(sp_int(t, 0) == Some(a - i));
    if ch_at(s, a, 46) { digits_back(s, i, j, a + 1 - i); }
    assert(sp_frac(t, a - i) == Some(b - i));
    if b < s.len() && (s[b] == 101 || s[b] == 69) {
        let d = if ch_at(s, b + 1, 43) || ch_at(s, b + 1, 45) { b + 2 } else { b + 1 };
        assert(ch_at(s, b, 101) || ch_at(s, b, 69));
        assert(dig_at(s, d) && j == sp_digits(s, d));
        digits_mono(s, d); digits_mono(s, d + 1); assert(d < j);
        digits_back(s, i, j, d - i);
        assert(t[b - i] == s[b] && t[b + 1 - i] == s[b + 1] && t[d - i] == s[d]);
        assert(sp_num(t, 0) == Some(sp_digits(t, d - i)));
    } else { assert(j == b); assert(sp_num(t, 0) == Some(b - i)); }
}
// THEOREM (C08): every value the reader returns can be serialised (and so reads back)
pub open spec fn pr_seq(d: Seq<Value>) -> bool { forall|k: int| 0 <= k < d.len() ==> printable(#[trigger] d[k]) }
pub open spec fn pr_map(m: Map<Seq<u8>, Value>) -> bool { forall|k: Seq<u8>| m.dom().contains(k) ==> printable(#[trigger] m[k]) }
pub proof fn pr_value(s: Seq<u8>, i: int, jc: bool)
    ensures sp_value(s, i, jc) is Some ==> printable(sp_value(s, i, jc)->Some_0.0)
    decreases s.len() - i, 3int
{
    if 0 <= i < s.len() && sp_value(s, i, jc) is Some {
        if s[i] == 45 || is_dig(s[i]) { num_back(s, i); }
        if s[i] == 91 { pr_array(s, i, jc); }
        if s[i] == 123 { pr_object(s, i, jc); }
    }
}
pub proof fn pr_array(s: Seq<u8>, i: int, jc: bool)
    ensures sp_array(s, i, jc) is Some ==> printable(sp_array(s, i, jc)->Some_0.0)
    decreases s.len() - i, 2int
{ if !(i < 0 || i >= s.len() || s[i] != 91) { ws_bound(s, i + 1, jc); pr_elems(s, i + 1, Seq::empty(), jc); } }
pub proof fn pr_elems(s: Seq<u8>, i: int, acc: Seq<Value>, jc: bool)
    requires pr_seq(acc)
    ensures sp_elems(s, i, acc, jc) is Some ==> printable(sp_elems(s, i, acc, jc)->Some_0.0)
    decreases s.len() - i, 5int
{
    let k = sp_ws(s, i, jc);
    if !(0 <= i <= k) || !sig(s, k) {} else if jc && s[k] == 93 {} else { pr_elem(s, k, acc, jc); }
}
pub proof fn pr_elem(s: Seq<u8>, k: int, acc: Seq<Value>, jc: bool)
    requires pr_seq(acc)
    ensures sp_elem(s, k, acc, jc) is Some ==> printable(sp_elem(s, k, acc, jc)->Some_0.0)
    decreases s.len() - k, 4int
{
    if 0 <= k < s.len() {
        pr_value(s, k, jc);
        match sp_value(s, k, jc) { None => {}, Some(p) => {
            let m = sp_ws(s, p.1, jc);
            if !(k < p.1 <= m) || !sig(s, m) {} else if s[m] == 44 { pr_elems(s, m + 1, acc.push(p.0), jc); }
        } }
    }
}
pub proof fn pr_object(s: Seq<u8>, i: int, jc: bool)
    ensures sp_object(s, i, jc) is Some ==> printable(sp_object(s, i, jc)->Some_0.0)
    decreases s.len() - i, 2int
{ if !(i < 0 || i >= s.len() || s[i] != 123) { ws_bound(s, i + 1, jc); pr_members(s, i + 1, Map::empty(), jc); } }
pub proof fn pr_members(s: Seq<u8>, i: int, acc: Map<Seq<u8>, Value>, jc: bool)
    requires pr_map(acc)
    ensures sp_members(s, i, acc, jc) is Some ==> printable(sp_members(s, i, acc, jc)->Some_0.0)
    decreases s.len() - i, 1int
{
    let k = sp_ws(s, i, jc);
    if !(0 <= i <= k) || !sig(s, k) {} else if jc && s[k] == 125 {}
    else { match sp_string(s, k) { None => {}, Some(key) => {
        let c = sp_ws(s, key.1, jc);
        if !(k < key.1 <= c) || !sig(s, c) || s[c] != 58 {}
        else {
            let b = sp_ws(s, c + 1, jc);
            if !(c + 1 <= b) || !sig(s, b) {}
            else { pr_value(s, b, jc); match sp_value(s, b, jc) { None => {}, Some(p) => {
                let m = sp_ws(s, p.1, jc);
                if !(b < p.1 <= m) || !sig(s, m) {} else if acc.dom().contains(key.0) {}
                else if s[m] == 44 { pr_members(s, m + 1, acc.insert(key.0, p.0), jc); }
            } } }
        }
    } } }
}
pub proof fn thm_parsed_printable(s: Seq<u8>, jc: bool)
    ensures sp_doc(s, jc) is Some ==> printable(sp_doc(s, jc)->Some_0)
{ pr_value(s, sp_ws(s, 0, jc), jc); }
// THEOREM (C08): what can be written is well-formed and contains no invalid value, so that serialisation does not throw
pub proof fn thm_printable_dumpable(v: Value)
    requires printable(v)
    ensures wf(v), dumpable(v)
    decreases v
{
    if v.ty == 5 { let d = v.raw->A_0->Some_0.d;
        assert forall|k: int| 0 <= k < d.len() implies wf(#[trigger] d[k]) && dumpable(d[k]) by { thm_printable_dumpable(d[k]); } }
    if v.ty == 6 { let d = v.raw->O_0->Some_0.d;
        assert forall|k: Seq<u8>| d.dom().contains(k) implies wf(#[trigger] d[k]) && dumpable(d[k]) by { thm_printable_dumpable(d[k]); } }
}
// THEOREM (C08, C09): a serialised array or object reads back as the same value, compact or indented, strict or JSONC
pub proof fn thm_roundtrip(v: Value, p: bool, ind: int, jc: bool)
    requires printable(v), v.ty == 5 || v.ty == 6
    ensures sp_doc(lay(v, p, ind, 0), jc) == Some(v)
{
    let x = lay(v, p, ind, 0);
    lay_first(v, p, ind, 0);
    assert(x.subrange(0, x.len() as int) =~= x);
    assert(v.ty == 5 ==> x[0] == 91); assert(v.ty == 6 ==> x[0] == 123);
    ws_here(x, 0, jc);
    rt_value(x, 0, v, p, ind, 0, jc);
}
// THEOREM (C08): values that serialise to the same text are the same value
pub proof fn thm_dump_injective(a: Value, b: Value, p: bool, ind: int)
    requires printable(a), printable(b), a.ty == 5 || a.ty == 6, b.ty == 5 || b.ty == 6, lay(a, p, ind, 0) == lay(b, p, ind, 0)
    ensures a == b
{ thm_roundtrip(a, p, ind, false); thm_roundtrip(b, p, ind, false); }
// THEOREM (C09): the indented and the compact text of a value read as the same value
pub proof fn thm_format_same(v: Value, ind: int)
    requires printable(v), v.ty == 5 || v.ty == 6
    ensures sp_doc(lay(v, true, ind, 0), false) == sp_doc(lay(v, false, 0, 0), false)
{ thm_roundtrip(v, true, ind, false); thm_roundtrip(v, false, 0, false); }
