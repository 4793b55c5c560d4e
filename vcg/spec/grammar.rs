// The JSON grammar (RFC 8259) as an executable-looking specification over the whole text, independent of the parser's code.
// jc = comments and trailing commas allowed (JSONC).
pub open spec fn is_ws(b: u8) -> bool { b == 32 || b == 9 || b == 13 || b == 10 }
pub open spec fn is_dig(b: u8) -> bool { 48 <= b <= 57 }

// after "//": position behind the newline, or the end
pub open spec fn sp_line(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { s.len() as int } else if s[i] == 10 { i + 1 } else { sp_line(s, i + 1) } }
// after "/*": position behind the first "*/"
pub open spec fn sp_block(s: Seq<u8>, i: int) -> Option<int>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { None }
    else if s[i] == 42 && i + 1 < s.len() && s[i + 1] == 47 { Some(i + 2) }
    else { sp_block(s, i + 1) }
}
pub open spec fn sp_comment(s: Seq<u8>, i: int) -> Option<int> {
    if 0 <= i && i + 1 < s.len() && s[i] == 47 {
        if s[i + 1] == 47 { Some(sp_line(s, i + 2)) } else if s[i + 1] == 42 { sp_block(s, i + 2) } else { None }
    } else { None }
}
// first position at or after i that is neither whitespace nor (JSONC) part of a comment; stops at a malformed comment
pub open spec fn sp_ws(s: Seq<u8>, i: int, jc: bool) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { i }
    else if is_ws(s[i]) { sp_ws(s, i + 1, jc) }
    else if jc && s[i] == 47 {
        match sp_comment(s, i) { Some(j) => if i < j <= s.len() { sp_ws(s, j, jc) } else { i }, None => i }
    } else { i }
}
// a significant character is at k
pub open spec fn sig(s: Seq<u8>, k: int) -> bool { 0 <= k < s.len() && s[k] != 0 && s[k] != 47 }

pub open spec fn sp_digits(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && is_dig(s[i]) { sp_digits(s, i + 1) } else { i } }
pub open spec fn dig_at(s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && is_dig(s[i]) }
pub open spec fn ch_at(s: Seq<u8>, i: int, b: u8) -> bool { 0 <= i < s.len() && s[i] == b }

// end of the number literal starting at i
pub open spec fn sp_int(s: Seq<u8>, i: int) -> Option<int> {
    let a = if ch_at(s, i, 45) { i + 1 } else { i };
    if !dig_at(s, a) { None }
    else if s[a] == 48 && dig_at(s, a + 1) { None }
    else { Some(sp_digits(s, a)) }
}
pub open spec fn sp_frac(s: Seq<u8>, i: int) -> Option<int> {
    if ch_at(s, i, 46) { if dig_at(s, i + 1) { Some(sp_digits(s, i + 1)) } else { None } } else { Some(i) }
}
pub open spec fn sp_exp(s: Seq<u8>, i: int) -> Option<int> {
    if ch_at(s, i, 101) || ch_at(s, i, 69) {
        let a = if ch_at(s, i + 1, 43) || ch_at(s, i + 1, 45) { i + 2 } else { i + 1 };
        if dig_at(s, a) { Some(sp_digits(s, a)) } else { None }
    } else { Some(i) }
}
pub open spec fn sp_num(s: Seq<u8>, i: int) -> Option<int> {
    match sp_int(s, i) {
        None => None,
        Some(a) => match sp_frac(s, a) { None => None, Some(b) => sp_exp(s, b) },
    }
}

pub open spec fn hexv(b: u8) -> int {
    if 48 <= b <= 57 { b as int - 48 } else if 97 <= b <= 102 { b as int - 87 } else if 65 <= b <= 70 { b as int - 55 } else { -1 }
}
pub open spec fn is_hex(s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && hexv(s[i]) >= 0 }
pub open spec fn hex4(s: Seq<u8>, i: int) -> Option<int> {
    if is_hex(s, i) && is_hex(s, i + 1) && is_hex(s, i + 2) && is_hex(s, i + 3) {
        Some(hexv(s[i]) * 4096 + hexv(s[i + 1]) * 256 + hexv(s[i + 2]) * 16 + hexv(s[i + 3]))
    } else { None }
}
// value of the n hex digits at i
pub open spec fn hexn(s: Seq<u8>, i: int, n: int) -> Option<int>
    decreases n
{ if n <= 0 { Some(0) } else { match hexn(s, i, n - 1) { None => None, Some(c) => if is_hex(s, i + n - 1) { Some(c * 16 + hexv(s[i + n - 1])) } else { None } } } }
pub broadcast proof fn hexn_range(s: Seq<u8>, i: int, n: int)
    ensures (#[trigger] hexn(s, i, n)) is Some ==> 0 <= hexn(s, i, n)->Some_0 && (n <= 3 ==> hexn(s, i, n)->Some_0 < 4096) && (n <= 4 ==> hexn(s, i, n)->Some_0 < 65536)
{ reveal_with_fuel(hexn, 5); if n > 4 { hexn_nn(s, i, n); } }
pub proof fn hexn_nn(s: Seq<u8>, i: int, n: int)
    ensures hexn(s, i, n) is Some ==> 0 <= hexn(s, i, n)->Some_0
    decreases n
{ if n > 0 { hexn_nn(s, i, n - 1); } }
pub broadcast proof fn hexn_4(s: Seq<u8>, i: int, n: int)
    requires 0 <= n <= 4
    ensures (#[trigger] hexn(s, i, n)) is None ==> hex4(s, i) is None, n == 4 ==> hexn(s, i, n) == hex4(s, i)
{ reveal_with_fuel(hexn, 5); }
pub broadcast proof fn hexn_none(s: Seq<u8>, i: int, n: int)
    requires 0 <= n < 4, !is_hex(s, i + n)
    ensures #![trigger hexn(s, i, n)] hex4(s, i) is None
{ reveal_with_fuel(hexn, 5); assert(n == 0 || n == 1 || n == 2 || n == 3); }
// UTF-8 (RFC 3629)
pub open spec fn utf8(c: int) -> Seq<u8> {
    if c <= 0x7F { seq![c as u8] }
    else if c <= 0x7FF { seq![(0xC0 + c / 64) as u8, (0x80 + c % 64) as u8] }
    else if c <= 0xFFFF { seq![(0xE0 + c / 4096) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] }
    else { seq![(0xF0 + c / 262144) as u8, (0x80 + c / 4096 % 64) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] }
}
pub open spec fn esc(b: u8) -> Option<u8> {
    if b == 34 { Some(34u8) } else if b == 92 { Some(92u8) } else if b == 47 { Some(47u8) } else if b == 98 { Some(8u8) }
    else if b == 102 { Some(12u8) } else if b == 110 { Some(10u8) } else if b == 114 { Some(13u8) } else if b == 116 { Some(9u8) } else { None }
}
pub open spec fn hi_sur(c: int) -> bool { 0xD800 <= c <= 0xDBFF }
pub open spec fn lo_sur(c: int) -> bool { 0xDC00 <= c <= 0xDFFF }
// inside a string literal at i, acc decoded so far, hi = pending high surrogate (0: none); -> (decoded text, position behind the quote)
pub open spec fn sp_str(s: Seq<u8>, i: int, acc: Seq<u8>, hi: int) -> Option<(Seq<u8>, int)>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { None }
    else if hi != 0 && s[i] != 92 { None }
    else if s[i] == 34 { Some((acc, i + 1)) }
    else if s[i] < 32 { None }
    else if s[i] != 92 { sp_str(s, i + 1, acc.push(s[i]), 0) }
    else if i + 1 >= s.len() { None }
    else if s[i + 1] == 117 {
        match hex4(s, i + 2) {
            None => None,
            Some(c) => if hi_sur(c) { if hi != 0 { None } else { sp_str(s, i + 6, acc, c) } }
                else if lo_sur(c) { if hi == 0 { None } else { sp_str(s, i + 6, acc + utf8(0x10000 + (hi - 0xD800) * 1024 + (c - 0xDC00)), 0) } }
                else if hi != 0 { None } else { sp_str(s, i + 6, acc + utf8(c), 0) },
        }
    } else if hi != 0 { None }
    else { match esc(s[i + 1]) { None => None, Some(b) => sp_str(s, i + 2, acc.push(b), 0) } }
}
// one \\uXXXX escape (hex digits at i) with a pending high surrogate hi: accepted / new pending surrogate / text it adds
pub open spec fn uesc_ok(s: Seq<u8>, i: int, hi: int) -> bool {
    match hex4(s, i) { None => false, Some(c) => if hi_sur(c) { hi == 0 } else if lo_sur(c) { hi != 0 } else { hi == 0 } }
}
pub open spec fn uesc_hi(s: Seq<u8>, i: int) -> int { match hex4(s, i) { Some(c) => if hi_sur(c) { c } else { 0 }, None => 0 } }
pub open spec fn uesc_out(s: Seq<u8>, i: int, hi: int) -> Seq<u8> {
    match hex4(s, i) { Some(c) => if hi_sur(c) { Seq::empty() } else if lo_sur(c) { utf8(0x10000 + (hi - 0xD800) * 1024 + (c - 0xDC00)) } else { utf8(c) }, None => Seq::empty() }
}
// characters i..j are ordinary inside a string literal
pub open spec fn plain(s: Seq<u8>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> 0 <= k < s.len() && #[trigger] s[k] >= 32 && s[k] != 34 && s[k] != 92 }
// string literal starting (with its quote) at i
pub open spec fn sp_string(s: Seq<u8>, i: int) -> Option<(Seq<u8>, int)> {
    if ch_at(s, i, 34) { sp_str(s, i + 1, Seq::empty(), 0) } else { None }
}

pub open spec fn lit4(s: Seq<u8>, i: int, t: Seq<u8>) -> bool {
    0 <= i && i + t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> s[i + k] == t[k]
}
pub open spec fn v_null() -> Value { Value { ty: 1, raw: Var::S(Seq::empty()) } }
pub open spec fn v_bool(b: bool) -> Value {
    Value { ty: 2, raw: Var::S(if b { seq![116u8, 114u8, 117u8, 101u8] } else { seq![102u8, 97u8, 108u8, 115u8, 101u8] }) }
}
pub open spec fn v_num(t: Seq<u8>) -> Value { Value { ty: 4, raw: Var::S(t) } }
pub open spec fn v_str(t: Seq<u8>) -> Value { Value { ty: 3, raw: Var::S(t) } }
pub open spec fn v_arr(d: Seq<Value>) -> Value { Value { ty: 5, raw: Var::A(Some(Arr { d })) } }
pub open spec fn v_obj(d: Map<Seq<u8>, Value>) -> Value { Value { ty: 6, raw: Var::O(Some(Obj { d })) } }

// the value starting at i and the position behind it
pub open spec fn sp_value(s: Seq<u8>, i: int, jc: bool) -> Option<(Value, int)>
    decreases s.len() - i, 3int
{
    if i < 0 || i >= s.len() { None }
    else if s[i] == 110 { if lit4(s, i, seq![110u8, 117u8, 108u8, 108u8]) { Some((v_null(), i + 4)) } else { None } }
    else if s[i] == 116 { if lit4(s, i, seq![116u8, 114u8, 117u8, 101u8]) { Some((v_bool(true), i + 4)) } else { None } }
    else if s[i] == 102 { if lit4(s, i, seq![102u8, 97u8, 108u8, 115u8, 101u8]) { Some((v_bool(false), i + 5)) } else { None } }
    else if s[i] == 45 || is_dig(s[i]) { match sp_num(s, i) { Some(j) => Some((v_num(s.subrange(i, j)), j)), None => None } }
    else if s[i] == 34 { match sp_string(s, i) { Some(p) => Some((v_str(p.0), p.1)), None => None } }
    else if s[i] == 91 { sp_array(s, i, jc) }
    else if s[i] == 123 { sp_object(s, i, jc) }
    else { None }
}
pub open spec fn sp_array(s: Seq<u8>, i: int, jc: bool) -> Option<(Value, int)>
    decreases s.len() - i, 2int
{
    if i < 0 || i >= s.len() || s[i] != 91 { None }
    else {
        let k = sp_ws(s, i + 1, jc);
        if !sig(s, k) { None }
        else if s[k] == 93 { Some((v_arr(Seq::empty()), k + 1)) }
        else { sp_elems(s, i + 1, Seq::empty(), jc) }
    }
}
// behind '[' or ',' : the rest of an array
pub open spec fn sp_elems(s: Seq<u8>, i: int, acc: Seq<Value>, jc: bool) -> Option<(Value, int)>
    decreases s.len() - i, 5int
{
    let k = sp_ws(s, i, jc);
    if !(0 <= i <= k) || !sig(s, k) { None }
    else if jc && s[k] == 93 { Some((v_arr(acc), k + 1)) }
    else { sp_elem(s, k, acc, jc) }
}
pub open spec fn sp_elem(s: Seq<u8>, k: int, acc: Seq<Value>, jc: bool) -> Option<(Value, int)>
    decreases s.len() - k, 4int
{
    if !(0 <= k < s.len()) { None }
    else { match sp_value(s, k, jc) {
        None => None,
        Some(p) => {
            let m = sp_ws(s, p.1, jc);
            if !(k < p.1 <= m) || !sig(s, m) { None }
            else if s[m] == 44 { sp_elems(s, m + 1, acc.push(p.0), jc) }
            else if s[m] == 93 { Some((v_arr(acc.push(p.0)), m + 1)) }
            else { None }
        },
    } }
}
pub open spec fn sp_object(s: Seq<u8>, i: int, jc: bool) -> Option<(Value, int)>
    decreases s.len() - i, 2int
{
    if i < 0 || i >= s.len() || s[i] != 123 { None }
    else {
        let k = sp_ws(s, i + 1, jc);
        if !sig(s, k) { None }
        else if s[k] == 125 { Some((v_obj(Map::empty()), k + 1)) }
        else { sp_members(s, i + 1, Map::empty(), jc) }
    }
}
pub open spec fn sp_members(s: Seq<u8>, i: int, acc: Map<Seq<u8>, Value>, jc: bool) -> Option<(Value, int)>
    decreases s.len() - i, 1int
{
    let k = sp_ws(s, i, jc);
    if !(0 <= i <= k) || !sig(s, k) { None }
    else if jc && s[k] == 125 { Some((v_obj(acc), k + 1)) }
    else { match sp_string(s, k) {
        None => None,
        Some(key) => {
            let c = sp_ws(s, key.1, jc);
            if !(k < key.1 <= c) || !sig(s, c) || s[c] != 58 { None }
            else {
                let b = sp_ws(s, c + 1, jc);
                if !(c + 1 <= b) || !sig(s, b) { None }
                else { match sp_value(s, b, jc) {
                    None => None,
                    Some(p) => {
                        let m = sp_ws(s, p.1, jc);
                        if !(b < p.1 <= m) || !sig(s, m) { None }
                        else if acc.dom().contains(key.0) { None }
                        else if s[m] == 44 { sp_members(s, m + 1, acc.insert(key.0, p.0), jc) }
                        else if s[m] == 125 { Some((v_obj(acc.insert(key.0, p.0)), m + 1)) }
                        else { None }
                    },
                } }
            }
        },
    } }
}
// a whole document: one array or object, then only whitespace/comments up to the end (a NUL byte counts as the end)
pub open spec fn sp_doc(s: Seq<u8>, jc: bool) -> Option<Value> {
    let k = sp_ws(s, 0, jc);
    if !sig(s, k) || (s[k] != 91 && s[k] != 123) { None }
    else { match sp_value(s, k, jc) {
        None => None,
        Some(p) => { let m = sp_ws(s, p.1, jc); if 0 <= m && (m >= s.len() || s[m] == 0) { Some(p.0) } else { None } },
    } }
}

// ---- lemmas about the grammar
pub broadcast proof fn ws_bound(s: Seq<u8>, i: int, jc: bool)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] sp_ws(s, i, jc) <= s.len()
    decreases s.len() - i
{
    if i < s.len() {
        if is_ws(s[i]) { ws_bound(s, i + 1, jc); }
        else if jc && s[i] == 47 { comment_bound(s, i); match sp_comment(s, i) { Some(j) => { if j > i { ws_bound(s, j, jc); } }, None => {} } }
    }
}
pub broadcast proof fn line_bound(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] sp_line(s, i) <= s.len()
    decreases s.len() - i
{ if i < s.len() && s[i] != 10 { line_bound(s, i + 1); } }
pub broadcast proof fn block_bound(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures (#[trigger] sp_block(s, i)) is Some ==> i + 2 <= sp_block(s, i)->Some_0 <= s.len()
    decreases s.len() - i
{ if i < s.len() && !(s[i] == 42 && i + 1 < s.len() && s[i + 1] == 47) { block_bound(s, i + 1); } }
pub broadcast proof fn comment_bound(s: Seq<u8>, i: int)
    ensures (#[trigger] sp_comment(s, i)) is Some ==> i + 2 <= sp_comment(s, i)->Some_0 <= s.len()
{ if 0 <= i && i + 1 < s.len() { line_bound(s, i + 2); block_bound(s, i + 2); } }
pub broadcast proof fn digits_bound(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] sp_digits(s, i) <= s.len()
    decreases s.len() - i
{ if i < s.len() && is_dig(s[i]) { digits_bound(s, i + 1); } }
// skipping whitespace twice is skipping it once
pub broadcast proof fn ws_idem(s: Seq<u8>, i: int, jc: bool)
    requires 0 <= i <= s.len()
    ensures #[trigger] sp_ws(s, sp_ws(s, i, jc), jc) == sp_ws(s, i, jc)
    decreases s.len() - i
{
    if i < s.len() {
        if is_ws(s[i]) { ws_idem(s, i + 1, jc); }
        else if jc && s[i] == 47 { comment_bound(s, i); match sp_comment(s, i) { Some(j) => { if j > i { ws_idem(s, j, jc); } }, None => {} } }
    }
}
pub broadcast proof fn ws_stop(s: Seq<u8>, i: int, jc: bool)
    requires 0 <= i <= s.len(), ({ let k = sp_ws(s, i, jc); k < s.len() })
    ensures !is_ws(s[#[trigger] sp_ws(s, i, jc)])
    decreases s.len() - i
{
    if i < s.len() {
        if is_ws(s[i]) { ws_stop(s, i + 1, jc); }
        else if jc && s[i] == 47 { comment_bound(s, i); match sp_comment(s, i) { Some(j) => { if j > i { ws_stop(s, j, jc); } }, None => {} } }
    }
}
pub proof fn str_bound(s: Seq<u8>, i: int, acc: Seq<u8>, hi: int)
    requires 0 <= i <= s.len()
    ensures sp_str(s, i, acc, hi) is Some ==> i < sp_str(s, i, acc, hi)->Some_0.1 <= s.len()
    decreases s.len() - i
{
    if i >= s.len() || (hi != 0 && s[i] != 92) || s[i] == 34 || s[i] < 32 {}
    else if s[i] != 92 { str_bound(s, i + 1, acc.push(s[i]), 0); }
    else if i + 1 >= s.len() {}
    else if s[i + 1] == 117 {
        match hex4(s, i + 2) { None => {}, Some(c) => {
            if hi_sur(c) { if hi == 0 { str_bound(s, i + 6, acc, c); } }
            else if lo_sur(c) { if hi != 0 { str_bound(s, i + 6, acc + utf8(0x10000 + (hi - 0xD800) * 1024 + (c - 0xDC00)), 0); } }
            else if hi == 0 { str_bound(s, i + 6, acc + utf8(c), 0); }
        } }
    } else if hi == 0 { match esc(s[i + 1]) { None => {}, Some(b) => { str_bound(s, i + 2, acc.push(b), 0); } } }
}
// skipping over ordinary characters
pub proof fn str_skip(s: Seq<u8>, i: int, j: int, acc: Seq<u8>)
    requires 0 <= i <= j <= s.len(), plain(s, i, j)
    ensures sp_str(s, i, acc, 0) == sp_str(s, j, acc + s.subrange(i, j), 0)
    decreases j - i
{
    if i < j {
        str_skip(s, i + 1, j, acc.push(s[i]));
        assert(acc.push(s[i]) + s.subrange(i + 1, j) =~= acc + s.subrange(i, j));
    } else { assert(acc + s.subrange(i, j) =~= acc); }
}
pub broadcast proof fn str_skip_b(s: Seq<u8>, i: int, j: int, acc: Seq<u8>, hi: int)
    requires 0 <= i <= j <= s.len(), #[trigger] plain(s, i, j), hi == 0 || i == j
    ensures #[trigger] sp_str(s, i, acc, hi) == sp_str(s, j, acc + s.subrange(i, j), hi)
{ if i == j { assert(acc + s.subrange(i, j) =~= acc); } else { str_skip(s, i, j, acc); } }
pub broadcast proof fn string_bound(s: Seq<u8>, i: int)
    ensures (#[trigger] sp_string(s, i)) is Some ==> i + 2 <= sp_string(s, i)->Some_0.1 <= s.len()
{ if ch_at(s, i, 34) { str_bound(s, i + 1, Seq::empty(), 0); } }
pub proof fn num_bound(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures sp_num(s, i) is Some ==> i < sp_num(s, i)->Some_0 <= s.len()
{
    let a = if ch_at(s, i, 45) { i + 1 } else { i };
    if sp_int(s, i) is Some {
        digits_bound(s, a); assert(sp_digits(s, a) == sp_digits(s, a + 1)); digits_bound(s, a + 1);
        let b = sp_int(s, i)->Some_0;
        if ch_at(s, b, 46) && dig_at(s, b + 1) { digits_bound(s, b + 1); }
        if sp_frac(s, b) is Some {
            let c = sp_frac(s, b)->Some_0;
            if ch_at(s, c, 101) || ch_at(s, c, 69) {
                let d = if ch_at(s, c + 1, 43) || ch_at(s, c + 1, 45) { c + 2 } else { c + 1 };
                if dig_at(s, d) { digits_bound(s, d); }
            }
        }
    }
}
pub broadcast proof fn value_bound(s: Seq<u8>, i: int, jc: bool)
    ensures (#[trigger] sp_value(s, i, jc)) is Some ==> i < sp_value(s, i, jc)->Some_0.1 <= s.len() && sp_value(s, i, jc)->Some_0.0.ty != 0 && wf_tag(sp_value(s, i, jc)->Some_0.0)
    decreases s.len() - i, 3int
{
    hide(sp_num); hide(sp_string); hide(sp_ws);
    if i < 0 || i >= s.len() {}
    else if s[i] == 110 || s[i] == 116 || s[i] == 102 {}
    else if s[i] == 45 || is_dig(s[i]) { num_bound(s, i); }
    else if s[i] == 34 { string_bound(s, i); }
    else if s[i] == 91 { assert(sp_value(s, i, jc) == sp_array(s, i, jc)); array_bound(s, i, jc); }
    else if s[i] == 123 { assert(sp_value(s, i, jc) == sp_object(s, i, jc)); object_bound(s, i, jc); }
}
pub broadcast proof fn array_bound(s: Seq<u8>, i: int, jc: bool)
    ensures (#[trigger] sp_array(s, i, jc)) is Some ==> i < sp_array(s, i, jc)->Some_0.1 <= s.len() && sp_array(s, i, jc)->Some_0.0.ty == 5 && wf_tag(sp_array(s, i, jc)->Some_0.0)
    decreases s.len() - i, 2int
{ if !(i < 0 || i >= s.len() || s[i] != 91) { ws_bound(s, i + 1, jc); elems_bound(s, i + 1, Seq::empty(), jc); } }
pub proof fn elems_bound(s: Seq<u8>, i: int, acc: Seq<Value>, jc: bool)
    ensures sp_elems(s, i, acc, jc) is Some ==> i < sp_elems(s, i, acc, jc)->Some_0.1 <= s.len() && sp_elems(s, i, acc, jc)->Some_0.0.ty == 5 && wf_tag(sp_elems(s, i, acc, jc)->Some_0.0)
    decreases s.len() - i, 5int
{
    let k = sp_ws(s, i, jc);
    if !(0 <= i <= k) || !sig(s, k) {} else if jc && s[k] == 93 {} else { elem_bound(s, k, acc, jc); }
}
pub proof fn elem_bound(s: Seq<u8>, k: int, acc: Seq<Value>, jc: bool)
    ensures sp_elem(s, k, acc, jc) is Some ==> k < sp_elem(s, k, acc, jc)->Some_0.1 <= s.len() && sp_elem(s, k, acc, jc)->Some_0.0.ty == 5 && wf_tag(sp_elem(s, k, acc, jc)->Some_0.0)
    decreases s.len() - k, 4int
{
    if 0 <= k < s.len() {
        match sp_value(s, k, jc) { None => {}, Some(p) => {
            let m = sp_ws(s, p.1, jc);
            if !(k < p.1 <= m) || !sig(s, m) {} else if s[m] == 44 { elems_bound(s, m + 1, acc.push(p.0), jc); }
        } }
    }
}
pub broadcast proof fn object_bound(s: Seq<u8>, i: int, jc: bool)
    ensures (#[trigger] sp_object(s, i, jc)) is Some ==> i < sp_object(s, i, jc)->Some_0.1 <= s.len() && sp_object(s, i, jc)->Some_0.0.ty == 6 && wf_tag(sp_object(s, i, jc)->Some_0.0)
    decreases s.len() - i, 2int
{ if !(i < 0 || i >= s.len() || s[i] != 123) { ws_bound(s, i + 1, jc); members_bound(s, i + 1, Map::empty(), jc); } }
pub proof fn members_bound(s: Seq<u8>, i: int, acc: Map<Seq<u8>, Value>, jc: bool)
    ensures sp_members(s, i, acc, jc) is Some ==> i < sp_members(s, i, acc, jc)->Some_0.1 <= s.len() && sp_members(s, i, acc, jc)->Some_0.0.ty == 6 && wf_tag(sp_members(s, i, acc, jc)->Some_0.0)
    decreases s.len() - i, 1int
{
    let k = sp_ws(s, i, jc);
    if !(0 <= i <= k) || !sig(s, k) {} else if jc && s[k] == 125 {}
    else { match sp_string(s, k) { None => {}, Some(key) => {
        let c = sp_ws(s, key.1, jc);
        if !(k < key.1 <= c) || !sig(s, c) || s[c] != 58 {}
        else {
            let b = sp_ws(s, c + 1, jc);
            if !(c + 1 <= b) || !sig(s, b) {}
            else { match sp_value(s, b, jc) { None => {}, Some(p) => {
                let m = sp_ws(s, p.1, jc);
                if !(b < p.1 <= m) || !sig(s, m) {} else if acc.dom().contains(key.0) {}
                else if s[m] == 44 { members_bound(s, m + 1, acc.insert(key.0, p.0), jc); }
            } } }
        }
    } } }
}
pub broadcast group grammar_lemmas { str_skip_b, hexn_range, hexn_4, hexn_none, ws_bound, ws_idem, ws_stop, line_bound, block_bound, comment_bound, digits_bound, string_bound, value_bound, array_bound, object_bound }
