//@include prelude.vrs
global size_of usize == 8;
//@item src/storage/store/account/message.rs::TS_HASH_LENGTH
// std::cmp::Reverse and the order of tuples, arrays and Reverse, by their documented behaviour (trusted)
pub struct Reverse<T>(pub T);
pub type K = ([u8; 24], Reverse<u64>);
pub open spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool { exists|k: int| 0 <= k < 24 && #[trigger] a[k] < b[k] && forall|j: int| 0 <= j < k ==> a[j] == b[j] }
pub open spec fn le(a: K, b: K) -> bool { lex_lt(a.0@, b.0@) || (a.0@ == b.0@ && a.1.0 >= b.1.0) }
pub struct VxIter<T> { pub v: Vec<T> }
impl<T> VxIter<T> {
    // what .map(f) yields, once collected
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|x: T| f.requires((x,))
        ensures r.v@.len() == self.v@.len(), forall|i: int| #![trigger r.v@[i]] #![trigger self.v@[i]] 0 <= i < r.v@.len() ==> f.ensures((self.v@[i],), r.v@[i])
    {
        let mut out: Vec<U> = Vec::new(); let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self.v@.len(), out@.len() == i, forall|x: T| f.requires((x,)), forall|k: int| 0 <= k < i ==> f.ensures((self.v@[k],), #[trigger] out@[k])
            decreases self.v@.len() - i
        { let x = vx_move(&self.v, i); out.push(f(x)); i = i + 1; }
        VxIter { v: out }
    }
}
#[verifier::external_body] pub fn vx_move<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
impl VxIter<K> {
    // Iterator::max: the last of the greatest elements
    #[verifier::external_body] pub fn max(self) -> (r: Option<K>)
        ensures r is None <==> self.v@.len() == 0,
            r is Some ==> exists|i: int| 0 <= i < self.v@.len() && self.v@[i] == r->Some_0, r is Some ==> forall|i: int| 0 <= i < self.v@.len() ==> le(#[trigger] self.v@[i], r->Some_0)
    { unimplemented!() }
}
pub fn vx_iter<T>(v: Vec<T>) -> (r: VxIter<T>) ensures r.v == v { VxIter { v } }
type C = (u64, [u8; 24]);
// c is at least as good as d: later (timestamp, hash), or the same and not a greater fid
pub open spec fn beats(c: C, d: C) -> bool { lex_lt(d.1@, c.1@) || (c.1@ == d.1@ && c.0 <= d.0) }
//@fn src/storage/store/account/verification_store.rs::select_verification_address_winner -> r
    ensures r is None <==> candidates@.len() == 0,
        r is Some ==> exists|w: int| 0 <= w < candidates@.len() && candidates@[w].0 == r->Some_0 && forall|i: int| 0 <= i < candidates@.len() ==> beats(candidates@[w], #[trigger] candidates@[i]),
//@rw `<I>(candidates: I)` => `(candidates: Vec<(u64, [u8; 24])>)`
//@rw `where I: IntoIterator<Item = (u64, [u8; TS_HASH_LENGTH])>,` => ``
//@rw `candidates.into_iter()` => `vx_iter(candidates)`
//@closure 0 |vx_p: (u64, [u8; 24])| -> (o: K)
    ensures o == (vx_p.1, Reverse(vx_p.0))
//@closure 1 |vx_p: K| -> (o: u64)
    ensures o == vx_p.1.0
//@endfn
// the order is total and strict, so the winner does not depend on the order of the candidates
proof fn lemma_lex_total(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 24, b.len() == 24
    ensures lex_lt(a, b) || lex_lt(b, a) || a == b
{
    if a != b {
        let d = choose|k: int| 0 <= k < 24 && a[k] != b[k] && forall|j: int| 0 <= j < k ==> a[j] == b[j];
        lemma_first_diff(a, b, 0);
    }
}
proof fn lemma_first_diff(a: Seq<u8>, b: Seq<u8>, n: int)
    requires a.len() == 24, b.len() == 24, 0 <= n <= 24, forall|j: int| 0 <= j < n ==> a[j] == b[j]
    ensures lex_lt(a, b) || lex_lt(b, a) || a == b
    decreases 24 - n
{
    if n == 24 { assert(a =~= b); } else if a[n] != b[n] { if a[n] < b[n] { assert(lex_lt(a, b)); } else { assert(lex_lt(b, a)); } } else { lemma_first_diff(a, b, n + 1); }
}
proof fn lemma_lex_asym(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 24, b.len() == 24, lex_lt(a, b)
    ensures !lex_lt(b, a), a != b
{
    let k = choose|k: int| 0 <= k < 24 && #[trigger] a[k] < b[k] && forall|j: int| 0 <= j < k ==> a[j] == b[j];
    assert forall|l: int| 0 <= l < 24 && #[trigger] b[l] < a[l] implies !(forall|j: int| 0 <= j < l ==> b[j] == a[j]) by { if l < k { assert(a[l] == b[l]); } else if k < l { assert(a[k] < b[k]); } }
}
proof fn theorem_order_independent(s: Seq<C>, t: Seq<C>, v: int, w: int)
    requires
        0 <= v < s.len(), 0 <= w < t.len(),
        forall|i: int| 0 <= i < s.len() ==> beats(s[v], #[trigger] s[i]), forall|i: int| 0 <= i < t.len() ==> beats(t[w], #[trigger] t[i]),
        forall|c: C| s.contains(c) <==> t.contains(c),
    ensures s[v].0 == t[w].0
{
    assert(s.contains(s[v])); assert(t.contains(t[w]));
    let i = choose|i: int| 0 <= i < s.len() && s[i] == t[w]; let j = choose|j: int| 0 <= j < t.len() && t[j] == s[v];
    assert(beats(s[v], s[i])); assert(beats(t[w], t[j]));
    if lex_lt(s[v].1@, t[w].1@) { lemma_lex_asym(s[v].1@, t[w].1@); }
    if lex_lt(t[w].1@, s[v].1@) { lemma_lex_asym(t[w].1@, s[v].1@); }
}
pub open spec fn cap_of(m: u32) -> u32 { if m == 0 { 0 } else if m > 256 { m } else { 256 } }
//@item src/storage/store/block_engine.rs::VERIFICATION_TOMBSTONE_CAP_FLOOR
//@fn src/storage/store/block_engine.rs::verification_tombstone_cap -> r
    ensures r == cap_of(max_messages),
//@endfn
//@fn src/storage/store/block_engine.rs::verification_row_cap -> r
    ensures r == if max_messages + cap_of(max_messages) > u32::MAX { u32::MAX as int } else { max_messages + cap_of(max_messages) },
//@endfn
} // verus!
fn main() {}
