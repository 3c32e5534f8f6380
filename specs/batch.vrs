//@include maps.vrs
//@item src/storage/db/rocksdb.rs::RocksDbTransactionBatch noclone
pub type B = Map<Seq<u8>, Option<Vec<u8>>>;
pub open spec fn over(a: B, b: B) -> B { a.union_prefer_right(b) }
impl RocksDbTransactionBatch {
//@fn src/storage/db/rocksdb.rs::RocksDbTransactionBatch::new -> r
    ensures r.batch@ == B::empty(),
//@endfn
//@fn src/storage/db/rocksdb.rs::RocksDbTransactionBatch::put
    ensures final(self).batch@ == old(self).batch@.insert(key@, Some(value)),
//@endfn
//@fn src/storage/db/rocksdb.rs::RocksDbTransactionBatch::delete
    ensures final(self).batch@ == old(self).batch@.insert(key@, None),
//@endfn
//@fn src/storage/db/rocksdb.rs::RocksDbTransactionBatch::merge
    ensures final(self).batch@ =~= old(self).batch@.union_prefer_right(other.batch@),
//@start
    let ghost vx_a = self.batch@; let ghost vx_b = other.batch@;
//@rw `for (key, value) in other.batch {` => `let vx_ps = vx_pairs(other.batch); let mut vx_n: usize = 0; while vx_n < vx_ps.len() invariant merged(vx_a, vx_b, self.batch@, vx_ps@, vx_n as int), pairs_of(vx_ps@, vx_b) decreases vx_ps.len() - vx_n { let (key, value) = vx_take(&vx_ps, vx_n); vx_n = vx_n + 1;`
//@endfn
//@fn src/storage/db/rocksdb.rs::RocksDbTransactionBatch::len -> r
    ensures r == self.batch@.dom().len(),
//@endfn
}
pub open spec fn pairs_of(p: Seq<(Vec<u8>, Option<Vec<u8>>)>, b: B) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> b.contains_key((#[trigger] p[i]).0@) && b[p[i].0@] == p[i].1
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).0@ != (#[trigger] p[j]).0@
    &&& forall|x: Seq<u8>| #[trigger] b.contains_key(x) ==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0@ == x
}
pub open spec fn merged(a: B, b: B, now: B, p: Seq<(Vec<u8>, Option<Vec<u8>>)>, n: int) -> bool {
    &&& 0 <= n <= p.len()
    &&& forall|i: int| 0 <= i < n ==> now.contains_key((#[trigger] p[i]).0@) && now[p[i].0@] == p[i].1
    &&& forall|x: Seq<u8>| #[trigger] now.contains_key(x) ==> (a.contains_key(x) && a[x] == now[x] && !(exists|i: int| 0 <= i < n && (#[trigger] p[i]).0@ == x)) || exists|i: int| 0 <= i < n && (#[trigger] p[i]).0@ == x
    &&& forall|x: Seq<u8>| #[trigger] a.contains_key(x) ==> now.contains_key(x)
}
