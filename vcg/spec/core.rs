// Values as users see them: kinds, lookup, mutation, comparison, integers.
pub open spec fn mk_null() -> Value { Value { ty: 1, raw: Var::S(Seq::empty()) } }
pub open spec fn mk_bool(b: bool) -> Value { Value { ty: 2, raw: Var::S(if b { true_txt() } else { false_txt() }) } }
pub open spec fn mk_str(s: Seq<u8>) -> Value { Value { ty: 3, raw: Var::S(s) } }
pub open spec fn mk_num(s: Seq<u8>) -> Value { Value { ty: 4, raw: Var::S(s) } }
pub open spec fn mk_arr(d: Seq<Value>) -> Value { Value { ty: 5, raw: Var::A(Some(Arr { d })) } }
pub open spec fn mk_obj(m: Map<Seq<u8>, Value>) -> Value { Value { ty: 6, raw: Var::O(Some(Obj { d: m })) } }
pub open spec fn true_txt() -> Seq<u8> { seq![116u8, 114u8, 117u8, 101u8] }
pub open spec fn false_txt() -> Seq<u8> { seq![102u8, 97u8, 108u8, 115u8, 101u8] }
pub open spec fn txt(v: Value) -> Seq<u8> { v.raw->S_0 }
pub open spec fn arr_of(v: Value) -> Seq<Value> { v.raw->A_0->Some_0.d }
pub open spec fn obj_of(v: Value) -> Map<Seq<u8>, Value> { v.raw->O_0->Some_0.d }

// null, "", [] and {}: what a mutating access may turn into a container
pub open spec fn is_empty(v: Value) -> bool {
    v.ty == 1 || (v.ty == 3 && txt(v).len() == 0) || (v.ty == 5 && arr_of(v).len() == 0) || (v.ty == 6 && obj_of(v).dom().len() == 0)
}
pub open spec fn arr_mut(v: Value) -> Option<Seq<Value>> { if v.ty == 5 { Some(arr_of(v)) } else if is_empty(v) { Some(Seq::empty()) } else { None } }
pub open spec fn obj_mut(v: Value) -> Option<Map<Seq<u8>, Value>> { if v.ty == 6 { Some(obj_of(v)) } else if is_empty(v) { Some(Map::empty()) } else { None } }
pub open spec fn with_key(m: Map<Seq<u8>, Value>, k: Seq<u8>) -> Map<Seq<u8>, Value> { if m.dom().contains(k) { m } else { m.insert(k, mk_null()) } }

// ---- lookup
pub open spec fn at_pos(v: Value, i: int) -> Option<Value> { if v.ty == 5 && 0 <= i < arr_of(v).len() { Some(arr_of(v)[i]) } else { None } }
pub open spec fn at_key(v: Value, k: Seq<u8>) -> Option<Value> { if v.ty == 6 && obj_of(v).dom().contains(k) { Some(obj_of(v)[k]) } else { None } }
pub open spec fn seq_at(d: Seq<Value>, i: int) -> Option<Value> { if 0 <= i < d.len() { Some(d[i]) } else { None } }
pub open spec fn map_at(m: Map<Seq<u8>, Value>, k: Seq<u8>) -> Option<Value> { if m.dom().contains(k) { Some(m[k]) } else { None } }
pub enum Step { I(int), K(Seq<u8>) }
pub open spec fn at_step(v: Value, s: Step) -> Option<Value> { match s { Step::I(i) => at_pos(v, i), Step::K(k) => at_key(v, k) } }
pub open spec fn at_step2(v: Option<Value>, s: Step) -> Option<Value> { match v { None => None, Some(x) => at_step(x, s) } }

// ---- union (the right operand wins)
pub open spec fn merged(a: Map<Seq<u8>, Value>, b: Map<Seq<u8>, Value>) -> Map<Seq<u8>, Value> { a.union_prefer_right(b) }

// ---- comparison as the code performs it; None: an exception (an invalid value was compared)
pub open spec fn veq(a: Value, b: Value) -> Option<bool>
    decreases a, 1int
{
    if a.ty != b.ty { Some(false) }
    else if a.ty == 1 { Some(true) }
    else if 2 <= a.ty <= 4 { Some(a.raw == b.raw) }
    else if a.ty == 5 && a.raw is A && a.raw->A_0 is Some { seq_veq(a.raw->A_0->Some_0.d, arr_of(b)) }
    else if a.ty == 6 && a.raw is O && a.raw->O_0 is Some { map_veq(a.raw->O_0->Some_0.d, obj_of(b)) }
    else { None }
}
pub open spec fn seq_veq(x: Seq<Value>, y: Seq<Value>) -> Option<bool>
    decreases x, x.len() + 1
{ if x.len() != y.len() { Some(false) } else { seq_veq_from(x, y, 0) } }
pub open spec fn seq_veq_from(x: Seq<Value>, y: Seq<Value>, i: int) -> Option<bool>
    decreases x, x.len() - i
{
    if i < 0 || i >= x.len() { Some(true) }
    else { match veq(x[i], y[i]) { None => None, Some(false) => Some(false), Some(true) => seq_veq_from(x, y, i + 1) } }
}
pub open spec fn map_veq(x: Map<Seq<u8>, Value>, y: Map<Seq<u8>, Value>) -> Option<bool>
    decreases x, ks(x).len() + 1
{ if ks(x).len() != ks(y).len() { Some(false) } else { map_veq_from(x, y, 0) } }
pub open spec fn map_veq_from(x: Map<Seq<u8>, Value>, y: Map<Seq<u8>, Value>, i: int) -> Option<bool>
    decreases x, ks(x).len() - i
{
    if i < 0 || i >= ks(x).len() || !x.dom().contains(ks(x)[i]) { Some(true) }
    else if ks(x)[i] != ks(y)[i] { Some(false) }
    else { match veq(x[ks(x)[i]], y[ks(y)[i]]) { None => None, Some(false) => Some(false), Some(true) => map_veq_from(x, y, i + 1) } }
}
// ---- equality as users mean it: same kind and same content, recursively; member order plays no part
pub open spec fn same(a: Value, b: Value) -> bool
    decreases a
{
    a.ty == b.ty && (2 <= a.ty <= 4 ==> a.raw == b.raw)
        && (a.ty == 5 && a.raw is A && a.raw->A_0 is Some ==> a.raw->A_0->Some_0.d.len() == arr_of(b).len()
            && (forall|k: int| 0 <= k < a.raw->A_0->Some_0.d.len() ==> same(#[trigger] a.raw->A_0->Some_0.d[k], arr_of(b)[k])))
        && (a.ty == 6 && a.raw is O && a.raw->O_0 is Some ==> a.raw->O_0->Some_0.d.dom() == obj_of(b).dom()
            && (forall|k: Seq<u8>| a.raw->O_0->Some_0.d.dom().contains(k) ==> same(#[trigger] a.raw->O_0->Some_0.d[k], obj_of(b)[k])))
}
pub open spec fn same_seq(x: Seq<Value>, y: Seq<Value>) -> bool { x.len() == y.len() && forall|k: int| 0 <= k < x.len() ==> same(#[trigger] x[k], y[k]) }
pub open spec fn same_map(x: Map<Seq<u8>, Value>, y: Map<Seq<u8>, Value>) -> bool { x.dom() == y.dom() && forall|k: Seq<u8>| x.dom().contains(k) ==> same(#[trigger] x[k], y[k]) }
// [map.overview]: the order of the keys is a function of the set of keys
pub broadcast axiom fn ks_dom(a: Map<Seq<u8>, Value>, b: Map<Seq<u8>, Value>)
    requires a.dom() == b.dom()
    ensures #[trigger] ks(a) == #[trigger] ks(b);

// THEOREM (C14): operator== decides `same`, and never throws, on values without invalid parts
pub proof fn thm_veq(a: Value, b: Value)
    requires wf(a), wf(b), dumpable(a)
    ensures veq(a, b) == Some(same(a, b))
    decreases a, 1int
{
    if a.ty == b.ty {
        if a.ty == 5 { thm_seq_veq(a.raw->A_0->Some_0.d, arr_of(b)); }
        if a.ty == 6 { thm_map_veq(a.raw->O_0->Some_0.d, obj_of(b)); }
    }
}
pub proof fn thm_seq_veq(x: Seq<Value>, y: Seq<Value>)
    requires wf_seq(x), wf_seq(y), dumpable_pre(x, x.len() as int)
    ensures seq_veq(x, y) == Some(same_seq(x, y))
    decreases x, x.len() + 1
{ if x.len() == y.len() { veq_from(x, y, 0); } }
pub proof fn veq_from(x: Seq<Value>, y: Seq<Value>, i: int)
    requires wf_seq(x), wf_seq(y), dumpable_pre(x, x.len() as int), x.len() == y.len(), 0 <= i <= x.len()
    ensures seq_veq_from(x, y, i) == Some(forall|k: int| i <= k < x.len() ==> same(#[trigger] x[k], y[k]))
    decreases x, x.len() - i
{
    if i < x.len() {
        thm_veq(x[i], y[i]); veq_from(x, y, i + 1);
        if same(x[i], y[i]) && (forall|k: int| i + 1 <= k < x.len() ==> same(#[trigger] x[k], y[k])) {
            assert forall|k: int| i <= k < x.len() implies same(#[trigger] x[k], y[k]) by { if k == i { } }
        }
    }
}
pub proof fn thm_map_veq(x: Map<Seq<u8>, Value>, y: Map<Seq<u8>, Value>)
    requires wf_map(x), wf_map(y), dumpable_map(x)
    ensures map_veq(x, y) == Some(same_map(x, y))
    decreases x, ks(x).len() + 1
{
    if ks(x).len() == ks(y).len() {
        mveq_from(x, y, 0);
        if same_map(x, y) {
            ks_dom(x, y);
            assert forall|k: int| 0 <= k < ks(x).len() implies ks(x)[k] == ks(y)[k] && same(x[#[trigger] ks(x)[k]], y[ks(x)[k]]) by { ks_in(x, k); }
        }
        if forall|k: int| 0 <= k < ks(x).len() ==> ks(x)[k] == ks(y)[k] && same(x[#[trigger] ks(x)[k]], y[ks(x)[k]]) {
            assert(x.dom() =~= y.dom()) by {
                assert forall|k: Seq<u8>| x.dom().contains(k) implies y.dom().contains(k) by { ks_all(x, k); let j = choose|j: int| 0 <= j < ks(x).len() && ks(x)[j] == k; ks_in(y, j); assert(ks(x)[j] == ks(y)[j]); }
                assert forall|k: Seq<u8>| y.dom().contains(k) implies x.dom().contains(k) by { ks_all(y, k); let j = choose|j: int| 0 <= j < ks(y).len() && ks(y)[j] == k; ks_in(x, j); assert(ks(x)[j] == ks(y)[j]); }
            }
            assert forall|k: Seq<u8>| x.dom().contains(k) implies same(#[trigger] x[k], y[k]) by { ks_all(x, k); let j = choose|j: int| 0 <= j < ks(x).len() && ks(x)[j] == k; assert(same(x[ks(x)[j]], y[ks(x)[j]])); }
        }
    } else if same_map(x, y) { ks_dom(x, y); }
}
pub proof fn mveq_from(x: Map<Seq<u8>, Value>, y: Map<Seq<u8>, Value>, i: int)
    requires wf_map(x), wf_map(y), dumpable_map(x), ks(x).len() == ks(y).len(), 0 <= i <= ks(x).len()
    ensures map_veq_from(x, y, i) == Some(forall|k: int| i <= k < ks(x).len() ==> ks(x)[k] == ks(y)[k] && same(x[#[trigger] ks(x)[k]], y[ks(x)[k]]))
    decreases x, ks(x).len() - i
{
    if i < ks(x).len() {
        ks_in(x, i); ks_in(y, i);
        assert(ks(x)[i] == ks(x)[i]);
        if ks(x)[i] == ks(y)[i] {
            assert(wf(x[ks(x)[i]]) && wf(y[ks(y)[i]]) && dumpable(x[ks(x)[i]]));
            thm_veq(x[ks(x)[i]], y[ks(y)[i]]); mveq_from(x, y, i + 1);
            if same(x[ks(x)[i]], y[ks(x)[i]]) && (forall|k: int| i + 1 <= k < ks(x).len() ==> ks(x)[k] == ks(y)[k] && same(x[#[trigger] ks(x)[k]], y[ks(x)[k]])) {
                assert forall|k: int| i <= k < ks(x).len() implies ks(x)[k] == ks(y)[k] && same(x[#[trigger] ks(x)[k]], y[ks(x)[k]]) by { if k == i { } }
            }
        }
    }
}
// THEOREM (C14): equality is an equivalence
pub proof fn thm_same_refl(a: Value)
    ensures same(a, a)
    decreases a
{
    if a.ty == 5 && a.raw is A && a.raw->A_0 is Some { assert forall|k: int| 0 <= k < arr_of(a).len() implies same(#[trigger] arr_of(a)[k], arr_of(a)[k]) by { thm_same_refl(a.raw->A_0->Some_0.d[k]); } }
    if a.ty == 6 && a.raw is O && a.raw->O_0 is Some { assert forall|k: Seq<u8>| obj_of(a).dom().contains(k) implies same(#[trigger] obj_of(a)[k], obj_of(a)[k]) by { thm_same_refl(a.raw->O_0->Some_0.d[k]); } }
}
pub proof fn thm_same_sym(a: Value, b: Value)
    requires wf(a), wf(b), same(a, b)
    ensures same(b, a)
    decreases a
{
    if a.ty == 5 { assert forall|k: int| 0 <= k < arr_of(b).len() implies same(#[trigger] arr_of(b)[k], arr_of(a)[k]) by { assert(same(a.raw->A_0->Some_0.d[k], arr_of(b)[k])); thm_same_sym(a.raw->A_0->Some_0.d[k], arr_of(b)[k]); } }
    if a.ty == 6 { assert forall|k: Seq<u8>| obj_of(b).dom().contains(k) implies same(#[trigger] obj_of(b)[k], obj_of(a)[k]) by { assert(same(a.raw->O_0->Some_0.d[k], obj_of(b)[k])); thm_same_sym(a.raw->O_0->Some_0.d[k], obj_of(b)[k]); } }
}
pub proof fn thm_same_trans(a: Value, b: Value, c: Value)
    requires wf(a), wf(b), wf(c), same(a, b), same(b, c)
    ensures same(a, c)
    decreases a
{
    if a.ty == 5 {
        let x = a.raw->A_0->Some_0.d; let y = b.raw->A_0->Some_0.d; let z = c.raw->A_0->Some_0.d;
        assert forall|k: int| 0 <= k < x.len() implies same(#[trigger] x[k], z[k]) by { assert(same(x[k], y[k])); assert(same(y[k], z[k])); thm_same_trans(x[k], y[k], z[k]); }
    }
    if a.ty == 6 {
        let x = a.raw->O_0->Some_0.d; let y = b.raw->O_0->Some_0.d; let z = c.raw->O_0->Some_0.d;
        assert(x.dom() == y.dom() && y.dom() == z.dom());
        assert forall|k: Seq<u8>| x.dom().contains(k) implies same(#[trigger] x[k], z[k]) by { assert(same(x[k], y[k])); assert(same(y[k], z[k])); thm_same_trans(x[k], y[k], z[k]); }
    }
}

// ---- decimal integers
pub open spec fn digits(n: int) -> Seq<u8>
    decreases n
{ if n < 10 { seq![(48 + n) as u8] } else { digits(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn dec(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + digits(-n) } else { digits(n) } }
pub open spec fn isd(s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && 48 <= s[i] <= 57 }
// end of the run of digits that starts at i, and its value
pub open spec fn drun(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{ if isd(s, i) { drun(s, i + 1) } else { i } }
pub open spec fn dval(s: Seq<u8>, i: int, j: int) -> int
    decreases j - i
{ if i >= j { 0 } else { dval(s, i, j - 1) * 10 + (s[j - 1] - 48) } }
pub open spec fn sgn(s: Seq<u8>, sg: bool) -> int { if sg && s.len() > 0 && s[0] == 45 { 1 } else { 0 } }
// [charconv.from.chars]: number of characters matched, and their value
pub open spec fn fc_len(s: Seq<u8>, sg: bool) -> int { if drun(s, sgn(s, sg)) == sgn(s, sg) { 0 } else { drun(s, sgn(s, sg)) } }
pub open spec fn fc_val(s: Seq<u8>, sg: bool) -> int { if sgn(s, sg) == 1 { -dval(s, 1, drun(s, 1)) } else { dval(s, 0, drun(s, 0)) } }
// the integer a text denotes exactly, when the type can hold it
pub open spec fn exact(s: Seq<u8>, sg: bool, lo: int, hi: int) -> Option<int> {
    if s.len() > 0 && fc_len(s, sg) == s.len() && lo <= fc_val(s, sg) <= hi { Some(fc_val(s, sg)) } else { None }
}
// is<T>() of an integer type
pub open spec fn is_num(v: Value, sg: bool, lo: int, hi: int) -> bool { v.ty == 4 && exact(txt(v), sg, lo, hi) is Some }
/// every element / every member holds a number of that integer type
pub open spec fn num_seq(d: Seq<Value>, n: int, sg: bool, lo: int, hi: int) -> bool { forall|q: int| 0 <= q < n ==> is_num(#[trigger] d[q], sg, lo, hi) }
pub open spec fn num_map(m: Map<Seq<u8>, Value>, sg: bool, lo: int, hi: int) -> bool { forall|q: Seq<u8>| m.dom().contains(q) ==> is_num(#[trigger] m[q], sg, lo, hi) }

// comparison is symmetric
pub broadcast proof fn veq_sym(a: Value, b: Value)
    requires wf(a), wf(b)
    ensures #[trigger] veq(a, b) == veq(b, a)
    decreases a, 2int
{ if a.ty == b.ty { if a.ty == 5 { seq_veq_sym(a.raw->A_0->Some_0.d, arr_of(b)); } if a.ty == 6 { map_veq_sym(a.raw->O_0->Some_0.d, obj_of(b)); } } }
pub broadcast proof fn seq_veq_sym(x: Seq<Value>, y: Seq<Value>)
    requires wf_seq(x), wf_seq(y)
    ensures #[trigger] seq_veq(x, y) == seq_veq(y, x)
    decreases x, x.len() + 2
{ if x.len() == y.len() { veq_from_sym(x, y, 0); } }
pub proof fn veq_from_sym(x: Seq<Value>, y: Seq<Value>, i: int)
    requires wf_seq(x), wf_seq(y), x.len() == y.len(), 0 <= i <= x.len()
    ensures seq_veq_from(x, y, i) == seq_veq_from(y, x, i)
    decreases x, x.len() - i
{ if i < x.len() { veq_sym(x[i], y[i]); veq_from_sym(x, y, i + 1); } }
pub broadcast proof fn map_veq_sym(x: Map<Seq<u8>, Value>, y: Map<Seq<u8>, Value>)
    requires wf_map(x), wf_map(y)
    ensures #[trigger] map_veq(x, y) == map_veq(y, x)
    decreases x, ks(x).len() + 2
{ if ks(x).len() == ks(y).len() { mveq_from_sym(x, y, 0); } }
pub proof fn mveq_from_sym(x: Map<Seq<u8>, Value>, y: Map<Seq<u8>, Value>, i: int)
    requires wf_map(x), wf_map(y), ks(x).len() == ks(y).len(), 0 <= i <= ks(x).len()
    ensures map_veq_from(x, y, i) == map_veq_from(y, x, i)
    decreases x, ks(x).len() - i
{ if i < ks(x).len() { ks_in(x, i); ks_in(y, i); if ks(x)[i] == ks(y)[i] { veq_sym(x[ks(x)[i]], y[ks(y)[i]]); mveq_from_sym(x, y, i + 1); } } }
pub broadcast proof fn drun_range(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] drun(s, i) <= s.len()
    decreases s.len() - i
{ if isd(s, i) { drun_range(s, i + 1); } }
pub proof fn digits_are(n: int)
    requires 0 <= n
    ensures digits(n).len() > 0, forall|i: int| 0 <= i < digits(n).len() ==> 48 <= #[trigger] digits(n)[i] <= 57, dval(digits(n), 0, digits(n).len() as int) == n
    decreases n
{
    if n < 10 { assert(dval(digits(n), 0, 0) == 0); assert(dval(digits(n), 0, 1) == n); }
    else {
        digits_are(n / 10);
        let d = digits(n / 10); let e = digits(n);
        dval_pre(d, e, 0, d.len() as int, 0);
        assert(dval(e, 0, e.len() as int) == dval(e, 0, e.len() - 1) * 10 + (e[e.len() - 1] - 48));
    }
}
// the value depends on the characters only
pub proof fn dval_pre(a: Seq<u8>, b: Seq<u8>, i: int, j: int, o: int)
    requires 0 <= i, j <= a.len(), 0 <= o, j + o <= b.len(), forall|k: int| i <= k < j ==> a[k] == b[k + o]
    ensures dval(a, i, j) == dval(b, i + o, j + o)
    decreases j - i
{ if i < j { dval_pre(a, b, i, j - 1, o); assert(a[j - 1] == b[j - 1 + o]); } }
pub proof fn drun_all(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> 48 <= #[trigger] s[k] <= 57
    ensures drun(s, i) == s.len()
    decreases s.len() - i
{ if i < s.len() { drun_all(s, i + 1); } }
// THEOREM (C10): what the constructors write, the conversions of every type that can hold the number read back
pub broadcast proof fn thm_int_roundtrip(n: int, sg: bool, lo: int, hi: int)
    requires lo <= n <= hi, n < 0 ==> sg
    ensures #[trigger] exact(dec(n), sg, lo, hi) == Some(n)
{
    if n < 0 {
        digits_are(-n); let s = dec(n); let d = digits(-n);
        assert forall|k: int| 1 <= k < s.len() implies 48 <= #[trigger] s[k] <= 57 by { assert(s[k] == d[k - 1]); }
        drun_all(s, 1); dval_pre(d, s, 0, d.len() as int, 1);
    } else {
        digits_are(n); let s = dec(n);
        assert(s[0] != 45) by { assert(48 <= digits(n)[0] <= 57); }
        drun_all(s, 0);
    }
}
// THEOREM (C10): and a type that cannot hold it refuses
pub proof fn thm_int_refused(n: int, sg: bool, lo: int, hi: int)
    requires n < lo || hi < n, lo <= 0 <= hi, sg || lo == 0
    ensures exact(dec(n), sg, lo, hi) is None
{
    if n >= 0 || sg { thm_int_roundtrip(n, sg, if n < 0 { n } else { 0 }, if n < 0 { 0 } else { n }); }
    else {
        digits_are(-n); let s = dec(n);
        assert(s[0] == 45); assert(drun(s, 0) == 0);
    }
}
pub broadcast group core_lemmas { drun_range, veq_sym, seq_veq_sym, map_veq_sym, ks_dom, merge_full, desc_upd_value, desc_upd_arr, desc_upd_obj }
pub open spec fn var_ok(r: Var) -> bool { match r { Var::S(s) => true, Var::A(a) => a is Some && wf_seq(a->Some_0.d), Var::O(o) => o is Some && wf_map(o->Some_0.d) } }
pub open spec fn var_height(r: Var) -> int { match r { Var::S(s) => 1, Var::A(a) => 1 + height_arr(a->Some_0), Var::O(o) => 1 + height_obj(o->Some_0) } }
// ---- some part, at any depth, of an object (aliased operands): the only fact used is that a part reads back what was written to it
pub uninterp spec fn desc_value<T>(x: T, n: int) -> Value;
pub uninterp spec fn desc_arr<T>(x: T, n: int) -> Arr;
pub uninterp spec fn desc_obj<T>(x: T, n: int) -> Obj;
pub uninterp spec fn upd_desc_value<T>(x: T, n: int, v: Value) -> T;
pub uninterp spec fn upd_desc_arr<T>(x: T, n: int, v: Arr) -> T;
pub uninterp spec fn upd_desc_obj<T>(x: T, n: int, v: Obj) -> T;
pub broadcast axiom fn desc_upd_value<T>(x: T, n: int, v: Value) ensures #[trigger] desc_value(upd_desc_value(x, n, v), n) == v;
pub broadcast axiom fn desc_upd_arr<T>(x: T, n: int, v: Arr) ensures #[trigger] desc_arr(upd_desc_arr(x, n, v), n) == v;
pub broadcast axiom fn desc_upd_obj<T>(x: T, n: int, v: Obj) ensures #[trigger] desc_obj(upd_desc_obj(x, n, v), n) == v;
// operator== of the payload variants; comparing owners compares addresses, which nothing here relies on
pub uninterp spec fn var_addr_eq(a: Var, b: Var) -> bool;
pub open spec fn var_veq(a: Var, b: Var) -> bool { if a is S || b is S { a == b } else { var_addr_eq(a, b) } }
// ---- merging one member after the other
pub open spec fn merge_upto(a: Map<Seq<u8>, Value>, b: Map<Seq<u8>, Value>, i: int) -> Map<Seq<u8>, Value>
    decreases i
{ if i <= 0 { a } else { merge_upto(a, b, i - 1).insert(ks(b)[i - 1], b[ks(b)[i - 1]]) } }
pub proof fn merge_pre(a: Map<Seq<u8>, Value>, b: Map<Seq<u8>, Value>, i: int)
    requires 0 <= i <= ks(b).len()
    ensures merge_upto(a, b, i) =~= merged(a, mpre(b, i))
    decreases i
{
    if i > 0 {
        merge_pre(a, b, i - 1);
        assert(merged(a, mpre(b, i - 1)).insert(ks(b)[i - 1], b[ks(b)[i - 1]]) =~= merged(a, mpre(b, i)));
    } else { assert(merged(a, mpre(b, i)) =~= a); }
}
pub broadcast proof fn merge_full(a: Map<Seq<u8>, Value>, b: Map<Seq<u8>, Value>, i: int)
    requires i == ks(b).len()
    ensures #[trigger] merge_upto(a, b, i) == merged(a, b)
{ merge_pre(a, b, i); mpre_all(b, i); }

pub open spec fn wf_list(s: Seq<(Seq<u8>, Value)>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i].1) }
