// C20: ways of handing a text over.
// ---- the value of a document is an array or an object
pub proof fn elems_arr(s: Seq<u8>, i: int, acc: Seq<Value>, jc: bool)
    ensures sp_elems(s, i, acc, jc) is Some ==> is_arr(sp_elems(s, i, acc, jc)->Some_0.0)
    decreases s.len() - i, 2int
{
    let k = sp_ws(s, i, jc);
    if 0 <= i <= k && sig(s, k) && !(jc && s[k] == 93) { elem_arr(s, k, acc, jc); }
}
pub proof fn elem_arr(s: Seq<u8>, k: int, acc: Seq<Value>, jc: bool)
    ensures sp_elem(s, k, acc, jc) is Some ==> is_arr(sp_elem(s, k, acc, jc)->Some_0.0)
    decreases s.len() - k, 1int
{
    if 0 <= k < s.len() { match sp_value(s, k, jc) { None => {}, Some(p) => {
        let m = sp_ws(s, p.1, jc);
        if k < p.1 <= m && sig(s, m) && s[m] == 44 { elems_arr(s, m + 1, acc.push(p.0), jc); }
    } } }
}
pub proof fn members_obj(s: Seq<u8>, i: int, acc: Map<Seq<u8>, Value>, jc: bool)
    ensures sp_members(s, i, acc, jc) is Some ==> is_obj(sp_members(s, i, acc, jc)->Some_0.0)
    decreases s.len() - i
{
    let k = sp_ws(s, i, jc);
    if 0 <= i <= k && sig(s, k) && !(jc && s[k] == 125) { match sp_string(s, k) { None => {}, Some(key) => {
        let c = sp_ws(s, key.1, jc);
        if k < key.1 <= c && sig(s, c) && s[c] == 58 {
            let b = sp_ws(s, c + 1, jc);
            if c + 1 <= b && sig(s, b) { match sp_value(s, b, jc) { None => {}, Some(p) => {
                let m = sp_ws(s, p.1, jc);
                if b < p.1 <= m && sig(s, m) && !acc.dom().contains(key.0) && s[m] == 44 { members_obj(s, m + 1, acc.insert(key.0, p.0), jc); }
            } } }
        }
    } } }
}
pub open spec fn is_arr(v: Value) -> bool { v.ty == 5 && v.raw is A && v.raw->A_0 is Some }
pub open spec fn is_obj(v: Value) -> bool { v.ty == 6 && v.raw is O && v.raw->O_0 is Some }
pub broadcast proof fn doc_kind(s: Seq<u8>, jc: bool)
    ensures (#[trigger] sp_doc(s, jc)) is Some ==> is_arr(sp_doc(s, jc)->Some_0) || is_obj(sp_doc(s, jc)->Some_0)
{
    let k = sp_ws(s, 0, jc);
    if sig(s, k) && s[k] == 91 { if sig(s, sp_ws(s, k + 1, jc)) { elems_arr(s, k + 1, Seq::empty(), jc); } }
    if sig(s, k) && s[k] == 123 { if sig(s, sp_ws(s, k + 1, jc)) { members_obj(s, k + 1, Map::empty(), jc); } }
}
// ---- streams and files
pub open spec fn has_bom(s: Seq<u8>) -> bool { s.len() >= 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF }
pub open spec fn skip_bom(s: Seq<u8>, check: bool) -> Seq<u8> { if check && has_bom(s) { s.subrange(3, s.len() as int) } else { s } }
pub open spec fn min_(a: int, b: int) -> int { if a < b { a } else { b } }
// d: the characters the stream delivers from its beginning, n: the size it reports, sk: it can seek, fail: it has failed already
pub open spec fn sp_stream(d: Seq<u8>, n: int, sk: bool, fail: bool, bom: bool, jc: bool) -> Option<Value> {
    if fail || !sk || n < 0 { None } else { sp_doc(skip_bom(d.subrange(0, min_(n, d.len() as int)), bom), jc) }
}
// what the file system holds under a path
pub uninterp spec fn fs_can(p: Seq<u8>) -> bool;
pub uninterp spec fn fs_d(p: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn fs_n(p: Seq<u8>) -> int;
pub uninterp spec fn fs_sk(p: Seq<u8>) -> bool;
pub open spec fn sp_open(p: Seq<u8>, bom: bool, jc: bool) -> Option<Value> {
    if fs_can(p) { sp_stream(fs_d(p), fs_n(p), fs_sk(p), false, bom, jc) } else { None }
}
// ---- literals
pub open spec fn lit_value(s: Seq<u8>) -> Value { match sp_doc(s, false) { Some(v) => v, None => v_null() } }
pub open spec fn lit_array(s: Seq<u8>) -> Seq<Value> { let v = lit_value(s); if v.ty == 5 { v.raw->A_0->Some_0.d } else { Seq::empty() } }
pub open spec fn lit_object(s: Seq<u8>) -> Map<Seq<u8>, Value> { let v = lit_value(s); if v.ty == 6 { v.raw->O_0->Some_0.d } else { Map::empty() } }
pub broadcast group io_lemmas { doc_kind }
