// Mathematical vocabulary of the contracts: JSON values, machine integers, text.
pub struct Value { pub ty: int, pub raw: Var }
pub enum Var { S(Seq<u8>), A(Option<Arr>), O(Option<Obj>) }
pub struct Arr { pub d: Seq<Value> }
pub struct Obj { pub d: Map<Seq<u8>, Value> }

pub open spec fn sc(b: u8) -> int { if b < 128 { b as int } else { b as int - 256 } }
pub open spec fn wrapu(x: int, n: int) -> int { x % n }
pub open spec fn wraps(x: int, n: int) -> int { let m = x % n; if m >= n / 2 { m - n } else { m } }
pub open spec fn cdiv(a: int, b: int) -> int { if (a >= 0) == (b > 0) { abs_(a) / abs_(b) } else { -(abs_(a) / abs_(b)) } }
pub open spec fn cmod(a: int, b: int) -> int { a - cdiv(a, b) * b }
pub open spec fn abs_(a: int) -> int { if a < 0 { -a } else { a } }
pub uninterp spec fn band(a: int, b: int) -> int;
// what is used about the bitwise or: disjoint high and low parts add up
pub open spec fn bor_fact(u: int, w: int, r: int, m: int) -> bool { (u >= 0 && u % m == 0 && 0 <= w < m) ==> r == u + w }
pub open spec fn msr_less(a: (int, int), b: (int, int)) -> bool { 0 <= a.0 && (a.0 < b.0 || (a.0 == b.0 && 0 <= a.1 && a.1 < b.1)) }
pub open spec fn no_nul(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 0 }
pub open spec fn isdigit_(x: int) -> int { if 48 <= x <= 57 { 1 } else { 0 } }
pub open spec fn isxdigit_(x: int) -> int { if (48 <= x <= 57) || (65 <= x <= 70) || (97 <= x <= 102) { 1 } else { 0 } }
pub open spec fn tolower_(x: int) -> int { if 65 <= x <= 90 { x + 32 } else { x } }
pub open spec fn rep(n: int, b: u8) -> Seq<u8> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| b) }
pub open spec fn vrep(n: int, v: Value) -> Seq<Value> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| v) }

// a value the library can produce: tag and payload agree
pub open spec fn wf_tag(v: Value) -> bool {
    0 <= v.ty <= 6 && (v.ty == 5 ==> v.raw is A && v.raw->A_0 is Some) && (v.ty == 6 ==> v.raw is O && v.raw->O_0 is Some)
        && (v.ty != 5 && v.ty != 6 ==> v.raw is S)
}
// a value (whatever is inside it), or what moving out of one leaves
pub open spec fn wf_moved(v: Value) -> bool { wf_tag(v) || (v.ty == 5 && v.raw is A && v.raw->A_0 is None) || (v.ty == 6 && v.raw is O && v.raw->O_0 is None) }

// ---- sequences
pub broadcast proof fn seq_push_sub(s: Seq<u8>, a: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j < s.len()
    ensures #[trigger] (a + s.subrange(i, j)).push(s[j]) == a + s.subrange(i, j + 1)
{ assert((a + s.subrange(i, j)).push(s[j]) =~= a + s.subrange(i, j + 1)); }
pub broadcast proof fn seq_empty_sub(s: Seq<u8>, a: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures #[trigger] (a + s.subrange(i, i)) == a
{ assert((a + s.subrange(i, i)) =~= a); }
pub broadcast proof fn seq_sub_add(s: Seq<u8>, a: Seq<u8>, i: int, j: int, k: int)
    requires 0 <= i <= j <= k <= s.len()
    ensures #[trigger] (a + s.subrange(i, j) + s.subrange(j, k)) == a + s.subrange(i, k)
{ assert((a + s.subrange(i, j) + s.subrange(j, k)) =~= a + s.subrange(i, k)); }
pub broadcast proof fn seq_add_empty(a: Seq<u8>)
    ensures #[trigger] (a + Seq::<u8>::empty()) == a, (Seq::<u8>::empty() + a) == a
{ assert((a + Seq::<u8>::empty()) =~= a); assert((Seq::<u8>::empty() + a) =~= a); }
pub broadcast proof fn seq_full<A>(s: Seq<A>, n: int)
    requires n == s.len()
    ensures #[trigger] s.subrange(0, n) == s
{ assert(s.subrange(0, n) =~= s); }
pub broadcast group seq_lemmas { seq_full, seq_push_sub, seq_empty_sub, seq_sub_add, seq_add_empty }

// ---- iteration order of std::map: every key exactly once, in ascending order (assumed contract of std::map)
pub uninterp spec fn ks<V>(m: Map<Seq<u8>, V>) -> Seq<Seq<u8>>;
pub broadcast axiom fn ks_len<V>(m: Map<Seq<u8>, V>)
    ensures #[trigger] ks(m).len() == m.dom().len();
pub broadcast axiom fn ks_in<V>(m: Map<Seq<u8>, V>, i: int)
    requires 0 <= i < ks(m).len()
    ensures m.dom().contains(#[trigger] ks(m)[i]);
pub broadcast axiom fn ks_all<V>(m: Map<Seq<u8>, V>, k: Seq<u8>)
    requires #[trigger] m.dom().contains(k)
    ensures ks(m).contains(k);
pub broadcast axiom fn ks_inj<V>(m: Map<Seq<u8>, V>, i: int, j: int)
    requires 0 <= i < j < ks(m).len()
    ensures #[trigger] ks(m)[i] != #[trigger] ks(m)[j];
// the first i entries of a map in iteration order
pub open spec fn mpre<V>(m: Map<Seq<u8>, V>, i: int) -> Map<Seq<u8>, V>
    decreases i
{ if i <= 0 { Map::empty() } else { mpre(m, i - 1).insert(ks(m)[i - 1], m[ks(m)[i - 1]]) } }
pub broadcast proof fn mpre_dom<V>(m: Map<Seq<u8>, V>, i: int, k: Seq<u8>)
    requires 0 <= i <= ks(m).len()
    ensures (#[trigger] mpre(m, i).dom().contains(k)) == (exists|j: int| 0 <= j < i && ks(m)[j] == k),
        mpre(m, i).dom().contains(k) ==> m.dom().contains(k) && mpre(m, i)[k] == m[k]
    decreases i
{
    if i > 0 {
        mpre_dom(m, i - 1, k); ks_in(m, i - 1);
        if ks(m)[i - 1] == k { assert(0 <= i - 1 < i && ks(m)[i - 1] == k); }
        else { assert forall|j: int| 0 <= j < i && ks(m)[j] == k implies (exists|j: int| 0 <= j < i - 1 && ks(m)[j] == k) by { assert(0 <= j < i - 1 && ks(m)[j] == k); } }
        if mpre(m, i).dom().contains(k) && ks(m)[i - 1] != k { }
    }
}
pub broadcast proof fn mpre_new<V>(m: Map<Seq<u8>, V>, i: int)
    requires 0 <= i < ks(m).len()
    ensures !(#[trigger] mpre(m, i)).dom().contains(ks(m)[i])
{ mpre_dom(m, i, ks(m)[i]); if mpre(m, i).dom().contains(ks(m)[i]) { let j = choose|j: int| 0 <= j < i && ks(m)[j] == ks(m)[i]; ks_inj(m, j, i); } }
pub broadcast proof fn mpre_all<V>(m: Map<Seq<u8>, V>, i: int)
    requires i == ks(m).len()
    ensures #[trigger] mpre(m, i) == m
{
    assert forall|k: Seq<u8>| mpre(m, i).dom().contains(k) == m.dom().contains(k) by {
        mpre_dom(m, i, k);
        if m.dom().contains(k) { ks_all(m, k); let j = choose|j: int| 0 <= j < ks(m).len() && ks(m)[j] == k; assert(0 <= j < i && ks(m)[j] == k); }
    }
    assert forall|k: Seq<u8>| mpre(m, i).dom().contains(k) implies mpre(m, i)[k] == m[k] by { mpre_dom(m, i, k); }
    assert(mpre(m, i) =~= m);
}
// map[k] = v of a key that is not there first inserts a default element
pub broadcast proof fn insert_insert<K, V>(m: Map<K, V>, k: K, a: V, b: V)
    ensures #[trigger] m.insert(k, a).insert(k, b) == m.insert(k, b)
{ assert(m.insert(k, a).insert(k, b) =~= m.insert(k, b)); }
pub broadcast group map_lemmas { insert_insert, ks_len, ks_in, ks_all, ks_inj, mpre_dom, mpre_new, mpre_all }

// a map made from a list of pairs: the first of equal keys stays
pub open spec fn list_map<K, V>(s: Seq<(K, V)>, n: int) -> Map<K, V>
    decreases n
{
    if n <= 0 { Map::empty() } else { let m = list_map(s, n - 1); if m.dom().contains(s[n - 1].0) { m } else { m.insert(s[n - 1].0, s[n - 1].1) } }
}
pub proof fn list_map_first<K, V>(s: Seq<(K, V)>, n: int, i: int)
    requires 0 <= i < n <= s.len(), forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).0 != s[i].0
    ensures list_map(s, n).dom().contains(s[i].0), list_map(s, n)[s[i].0] == s[i].1
    decreases n
{ if i < n - 1 { list_map_first(s, n - 1, i); } else { list_map_keys(s, i, s[i].0); } }
pub proof fn list_map_keys<K, V>(s: Seq<(K, V)>, n: int, k: K)
    requires 0 <= n <= s.len()
    ensures list_map(s, n).dom().contains(k) <==> exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k
    decreases n
{
    if n > 0 {
        list_map_keys(s, n - 1, k);
        if list_map(s, n).dom().contains(k) && !list_map(s, n - 1).dom().contains(k) { assert(s[n - 1].0 == k); }
        if exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k { let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k; if j < n - 1 { assert(s[j].0 == k); } }
    }
}
