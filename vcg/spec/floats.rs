// C22: floating point numbers and their decimal texts. What the C and C++ library does is assumed here (k: 1 float, 2 double, 3 long double; "C" locale):
pub struct Fl { pub id: int }
// fl_fmt(k, p, x): what an ostream with precision p writes; fl_fixed: std::to_string; st_val/st_len/st_range: the number strtof/strtod/strtold
// recognise in a text, how many characters they use, and whether they report a range error.
pub uninterp spec fn fl_fmt(k: int, p: int, x: Fl) -> Seq<u8>;
pub uninterp spec fn fl_fixed(k: int, x: Fl) -> Seq<u8>;
pub uninterp spec fn st_val(k: int, s: Seq<u8>) -> Fl;
pub uninterp spec fn st_len(k: int, s: Seq<u8>) -> int;
pub uninterp spec fn st_range(k: int, s: Seq<u8>) -> bool;
pub uninterp spec fn fl_int(k: int, n: int) -> Fl;
pub uninterp spec fn fl_lit(k: int, n: int, d: int) -> Fl;
pub uninterp spec fn fl_cast(from: int, to: int, x: Fl) -> Fl;
pub uninterp spec fn fl_finite(k: int, x: Fl) -> bool;
pub uninterp spec fn fl_zero(k: int, x: Fl) -> bool;
pub uninterp spec fn fl_inf(k: int, x: Fl) -> bool;
pub uninterp spec fn fl_nan(k: int, x: Fl) -> bool;
pub uninterp spec fn fl_eq(x: Fl, y: Fl) -> bool;
pub uninterp spec fn fl_lt(x: Fl, y: Fl) -> bool;
pub uninterp spec fn fl_le(x: Fl, y: Fl) -> bool;
// std::numeric_limits<T>::max_digits10
pub open spec fn maxd(k: int) -> int { if k == 1 { 9 } else if k == 2 { 17 } else { 21 } }
pub broadcast axiom fn st_len_ax(k: int, s: Seq<u8>)
    ensures 0 <= #[trigger] st_len(k, s) <= s.len();
pub broadcast axiom fn fl_kinds(k: int, x: Fl)
    ensures #![trigger fl_finite(k, x)] fl_finite(k, x) == (!fl_inf(k, x) && !fl_nan(k, x)), fl_zero(k, x) ==> fl_finite(k, x);
// a JSON number is a decimal floating constant: it is used up completely
pub broadcast axiom fn st_num(k: int, s: Seq<u8>)
    requires num_lit(s)
    ensures #[trigger] st_len(k, s) == s.len();
// IEEE 754-2019 5.12.2: max_digits10 significant digits identify the number, and reading rounds correctly; the only range error is that of a subnormal number
pub broadcast axiom fn fmt_reads(k: int, p: int, x: Fl)
    requires fl_finite(k, x), p >= maxd(k), 1 <= k <= 3
    ensures st_val(k, #[trigger] fl_fmt(k, p, x)) == x, st_range(k, fl_fmt(k, p, x)) ==> !fl_zero(k, x);
pub broadcast axiom fn fmt_shape(k: int, p: int, x: Fl)
    requires fl_finite(k, x), p >= 0
    ensures num_lit(#[trigger] fl_fmt(k, p, x));
pub broadcast axiom fn fixed_shape(k: int, x: Fl)
    requires fl_finite(k, x)
    ensures num_lit(#[trigger] fl_fixed(k, x)), !st_range(k, fl_fixed(k, x)), fl_finite(k, st_val(k, fl_fixed(k, x)));
// a text read as a number of kind k: all of it is one number, and its magnitude neither overflows nor vanishes
pub open spec fn fl_over(k: int, s: Seq<u8>) -> bool { st_range(k, s) && (fl_zero(k, st_val(k, s)) || fl_inf(k, st_val(k, s))) }
pub open spec fn fl_can(k: int, s: Seq<u8>) -> bool { s.len() > 0 && st_len(k, s) == s.len() && !fl_over(k, s) }
pub open spec fn is_fl(k: int, v: Value) -> bool { v.ty == 4 && fl_can(k, txt(v)) }
pub open spec fn fl_seq(k: int, d: Seq<Value>, n: int) -> bool { forall|q: int| 0 <= q < n ==> is_fl(k, #[trigger] d[q]) }
pub open spec fn fl_map(k: int, m: Map<Seq<u8>, Value>) -> bool { forall|q: Seq<u8>| m.dom().contains(q) ==> is_fl(k, #[trigger] m[q]) }
// the value that stands for x keeps it: exactly, or (without MEOJSON_KEEP_FLOATING_PRECISION) to the digits std::to_string writes
pub open spec fn keeps(k: int, v: Value, x: Fl) -> bool { is_fl(k, v) && num_lit(txt(v)) && st_val(k, txt(v)) == x }
pub open spec fn stands(exact: bool, k: int, v: Value, x: Fl) -> bool { fl_finite(k, x) ==> keeps(k, v, x) || (!exact && v == mk_num(fl_fixed(k, x))) }
pub proof fn lit_nonempty(s: Seq<u8>) requires num_lit(s) ensures s.len() > 0 { if s.len() == 0 { } }
// THEOREM (C22): a finite number stored in a value is read back, directly and through text
pub proof fn thm_float(exact: bool, k: int, v: Value, x: Fl)
    requires stands(exact, k, v, x), fl_finite(k, x), 1 <= k <= 3, v == mk_num(txt(v))
    ensures is_fl(k, v), st_val(k, txt(v)) == x || (!exact && st_val(k, txt(v)) == st_val(k, fl_fixed(k, x))), wf(v), printable(v)
{ if !keeps(k, v, x) { fixed_shape(k, x); lit_nonempty(txt(v)); st_num(k, txt(v)); } }
pub proof fn thm_float_text(exact: bool, k: int, v: Value, x: Fl, p: bool, ind: int, jc: bool)
    requires stands(exact, k, v, x), fl_finite(k, x), 1 <= k <= 3, v == mk_num(txt(v))
    ensures sp_doc(lay(mk_arr(seq![v]), p, ind, 0), jc) == Some(mk_arr(seq![v]))
{
    thm_float(exact, k, v, x);
    let a = mk_arr(seq![v]);
    assert(wf(a) && printable(a)) by { assert forall|q: int| 0 <= q < 1 implies wf(#[trigger] seq![v][q]) && printable(seq![v][q]) by { assert(seq![v][q] == v); } }
    thm_roundtrip(a, p, ind, jc);
}
pub broadcast group float_lemmas { st_len_ax, fl_kinds, st_num, fmt_reads, fmt_shape, fixed_shape }
