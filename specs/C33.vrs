//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@include maps.vrs
//@include status.vrs
//@proto Message MessageType OnChainEvent OnChainEventType !OnChainEvent
use std::sync::Arc;
//@item src/network/replication/replicator.rs::MessageHashCacheKey noclone
// derive(Clone) copies every field
impl Clone for MessageHashCacheKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxKey for MessageHashCacheKey { type S = MessageHashCacheKey; open spec fn k(self) -> MessageHashCacheKey { self } }
// the cached payloads are opaque; statsd only reports
#[verifier::external_body] pub struct CacheMessageEntry { x: u8 }
#[verifier::external_body] pub struct StatsdClientWrapper { x: u8 }
impl StatsdClientWrapper {
    #[verifier::external_body] pub fn incr(&self, k: &str) { unimplemented!() }
    #[verifier::external_body] pub fn gauge(&self, k: &str, v: u64, t: Vec<u8>) { unimplemented!() }
}
// the clock (trusted to be a total order of instants)
#[derive(Clone, Copy)] #[verifier::external_body] pub struct SystemTime { x: u8 }
impl SystemTime { pub uninterp spec fn at(self) -> int; /* read from the clock during this call */ pub uninterp spec fn is_now(self) -> bool; #[verifier::external_body] pub fn now() -> (r: SystemTime) ensures r.is_now() { unimplemented!() } }
pub type Entries = Arc<HashMap<Vec<u8>, CacheMessageEntry>>;
pub type Cached = Map<MessageHashCacheKey, Entries>;
//@item src/network/replication/replicator.rs::MessageHashCache
pub open spec fn size(e: Entries) -> int { e@.dom().len() as int }
// a map holds no more than isize::MAX entries (each takes a byte or more)
#[verifier::external_body] pub proof fn ax_size(e: Entries) ensures 0 <= size(e) <= isize::MAX {}
// the sum of the sizes of everything held
pub open spec fn total(m: Cached) -> int decreases m.dom().len() {
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); size(m[k]) + total(m.remove(k)) }
}
proof fn lemma_nonempty(m: Cached, k: MessageHashCacheKey) requires m.contains_key(k) ensures m.dom().len() > 0 { if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); assert(m.dom().contains(k)); } }
proof fn lemma_total_remove(m: Cached, k: MessageHashCacheKey)
    requires m.contains_key(k)
    ensures total(m) == size(m[k]) + total(m.remove(k)), total(m.remove(k)) >= 0
    decreases m.dom().len()
{
    lemma_nonempty(m, k);
    let c = m.dom().choose();
    assert(m.dom().contains(c));
    if c != k {
        lemma_total_remove(m.remove(c), k); lemma_total_remove(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
    lemma_total_pos(m.remove(k));
}
proof fn lemma_total_insert(m: Cached, k: MessageHashCacheKey, e: Entries) requires !m.contains_key(k) ensures total(m.insert(k, e)) == total(m) + size(e) {
    lemma_total_remove(m.insert(k, e), k); assert(m.insert(k, e).remove(k) =~= m);
}
proof fn lemma_total_pos(m: Cached) ensures total(m) >= 0 decreases m.dom().len() {
    if m.dom().len() > 0 { let k = m.dom().choose(); ax_size(m[k]); lemma_total_pos(m.remove(k)); }
}
// Option::map/unwrap_or on the removed entry, slice::sort_by_key: a stable sort by key (trusted)
pub open spec fn by_age(v: Seq<(MessageHashCacheKey, SystemTime)>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).1.at() <= (#[trigger] v[j]).1.at() }
// every key of the map once, with its time
pub open spec fn lists(v: Seq<(MessageHashCacheKey, SystemTime)>, m: Map<MessageHashCacheKey, SystemTime>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0) && m[v[i].0] == v[i].1
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0
    &&& forall|x: MessageHashCacheKey| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x
}
#[verifier::external_body] pub fn vx_clone_pairs(m: &HashMap<MessageHashCacheKey, SystemTime>) -> (r: Vec<(MessageHashCacheKey, SystemTime)>) ensures lists(r@, m@) { unimplemented!() }
#[verifier::external_body] pub fn vx_sort_by_age<F: Fn(&(MessageHashCacheKey, SystemTime)) -> SystemTime>(v: &mut Vec<(MessageHashCacheKey, SystemTime)>, f: F)
    requires forall|x: &(MessageHashCacheKey, SystemTime)| f.requires((x,)), forall|x: &(MessageHashCacheKey, SystemTime), o: SystemTime| f.ensures((x,), o) ==> o == x.1,
    ensures by_age(final(v)@), forall|m: Map<MessageHashCacheKey, SystemTime>| lists(old(v)@, m) ==> lists(final(v)@, m)
{ unimplemented!() }
// what is left after the first n of the listed keys were dropped
pub open spec fn part(c: MessageHashCache, m: Cached, age: Map<MessageHashCacheKey, SystemTime>, l: Seq<(MessageHashCacheKey, SystemTime)>, n: int) -> bool {
    &&& forall|x: MessageHashCacheKey| #[trigger] c.cache@.contains_key(x) <==> m.contains_key(x) && forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).0 != x
    &&& forall|x: MessageHashCacheKey| #[trigger] c.cache@.contains_key(x) ==> c.cache@[x] == m[x]
    &&& c.cache@.dom() == c.cache_lru@.dom()
    &&& forall|x: MessageHashCacheKey| #[trigger] c.cache_lru@.contains_key(x) ==> c.cache_lru@[x] == age[x]
}
pub open spec fn LIMIT() -> int { 100_000 }
impl MessageHashCache {
//@item src/network/replication/replicator.rs::MessageHashCache::MAX_MESSAGE_HASH_CACHE_ENTRIES
//@item src/network/replication/replicator.rs::MessageHashCache::MESSAGE_HASH_CACHE_HIT
//@item src/network/replication/replicator.rs::MessageHashCache::MESSAGE_HASH_CACHE_MISS
//@item src/network/replication/replicator.rs::MessageHashCache::MESSAGE_HASH_CACHE_SIZE
    // the size is the sum of the sizes held, every entry has an age, and the limit holds unless one entry alone is above it
    pub open spec fn wf(&self) -> bool {
        &&& self.cache_size == total(self.cache@)
        &&& self.cache@.dom() == self.cache_lru@.dom()
        &&& self.cache_size <= LIMIT() || self.cache@.dom().len() == 1
    }
    // what an insertion of key may leave of m: the youngest entries, all of them if they fit
    pub open spec fn evicted(m: Cached, age: Map<MessageHashCacheKey, SystemTime>, room: int, left: Cached) -> bool {
        &&& forall|x: MessageHashCacheKey| #[trigger] left.contains_key(x) ==> m.contains_key(x) && left[x] == m[x]
        &&& forall|x: MessageHashCacheKey, y: MessageHashCacheKey| #[trigger] m.contains_key(x) && !left.contains_key(x) && #[trigger] left.contains_key(y) ==> age[x].at() <= age[y].at()
        &&& total(left) <= room || left == Map::<MessageHashCacheKey, Entries>::empty()
        &&& left != m ==> exists|x: MessageHashCacheKey| m.contains_key(x) && !left.contains_key(x) && total(left) + size(#[trigger] m[x]) > room
    }
}
proof fn lemma_bound(c: MessageHashCache) requires c.wf() ensures c.cache_size <= isize::MAX {
    if c.cache@.dom().len() == 1 { let k = c.cache@.dom().choose(); lemma_total_remove(c.cache@, k); ax_size(c.cache@[k]); assert(c.cache@.remove(k).dom().len() == 0); }
}
proof fn lemma_evicted(c: MessageHashCache, m: Cached, age: Map<MessageHashCacheKey, SystemTime>, l: Seq<(MessageHashCacheKey, SystemTime)>, n: int, room: int)
    requires m.dom() == age.dom(), part(c, m, age, l, n), 0 <= n <= l.len(), n == 0 || lists(l, age) && by_age(l) && total(c.cache@) + size(m[l[n - 1].0]) > room,
        total(c.cache@) <= room || n == l.len() && lists(l, age),
    ensures MessageHashCache::evicted(m, age, room, c.cache@)
{
    let left = c.cache@;
    if !(total(left) <= room) { assert forall|x: MessageHashCacheKey| !#[trigger] left.contains_key(x) by { if m.contains_key(x) { assert(age.dom().contains(x)); } } assert(left =~= Map::<MessageHashCacheKey, Entries>::empty()); }
    assert forall|x: MessageHashCacheKey, y: MessageHashCacheKey| #[trigger] m.contains_key(x) && !left.contains_key(x) && #[trigger] left.contains_key(y) implies age[x].at() <= age[y].at() by {
        let i = choose|i: int| 0 <= i < n && (#[trigger] l[i]).0 == x;
        assert(age.dom().contains(y)); assert(age.contains_key(y)); let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).0 == y;
        assert(j >= n); assert(l[i].1.at() <= l[j].1.at());
    }
    if n == 0 { assert(left =~= m); } else { let x = l[n - 1].0; assert(age.contains_key(x)); assert(m.dom().contains(x)); assert(m.contains_key(x) && !left.contains_key(x) && total(left) + size(m[x]) > room); }
}
proof fn lemma_left(m: Cached, left: Cached, now: Cached, key: MessageHashCacheKey)
    requires !left.contains_key(key), now.remove(key) == left, now.contains_key(key)
    ensures left == Map::<MessageHashCacheKey, Entries>::empty() ==> now.dom().len() == 1
{ if left == Map::<MessageHashCacheKey, Entries>::empty() { assert(now.dom() =~= set![key]); } }
impl MessageHashCache {
//@fn src/network/replication/replicator.rs::MessageHashCache::new -> r
    ensures r.wf(), r.cache@ == Map::<MessageHashCacheKey, Entries>::empty(),
//@start
    proof { assert(Map::<MessageHashCacheKey, Entries>::empty().dom() =~= Map::<MessageHashCacheKey, SystemTime>::empty().dom()); }
//@endfn
//@fn src/network/replication/replicator.rs::MessageHashCache::get -> r
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cache@ == old(self).cache@, final(self).cache_size == old(self).cache_size,
        r is Some <==> old(self).cache@.contains_key(*key), r is Some ==> r->Some_0 == old(self).cache@[*key],
        // a read counts as a use
        r is Some ==> final(self).cache_lru@[*key].is_now(),
        forall|x: MessageHashCacheKey| x != *key && old(self).cache@.contains_key(x) ==> final(self).cache_lru@[x] == old(self).cache_lru@[x],
//@after `self.cache_lru.insert(key.clone(), SystemTime::now());`
                proof { assert(self.cache_lru@.dom() =~= old(self).cache_lru@.dom()); }
//@endfn
//@fn src/network/replication/replicator.rs::MessageHashCache::insert
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cache@.contains_key(key), final(self).cache@[key] == value, final(self).cache_lru@[key].is_now(),
        Self::evicted(old(self).cache@.remove(key), old(self).cache_lru@, LIMIT() - size(value), final(self).cache@.remove(key)),
        forall|x: MessageHashCacheKey| x != key && final(self).cache@.contains_key(x) ==> final(self).cache_lru@[x] == old(self).cache_lru@[x],
//@rw `self.cache_lru.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()` => `vx_clone_pairs(&self.cache_lru)`
//@rw `lru_keys.sort_by_key(` => `vx_sort_by_age(&mut lru_keys, `
//@rw `for (lru_key, _ts) in lru_keys {` => `let mut vx_i: usize = 0; proof { vx_l = lru_keys@; } while vx_i < lru_keys.len() invariant_except_break vx_i == vx_n, lists(lru_keys@, vx_age), by_age(lru_keys@), old(self).cache_size == total(vx_m) + replaced, vx_m.dom() == vx_age.dom(), vx_l == lru_keys@, 0 <= vx_n <= vx_l.len(), part(*self, vx_m, vx_age, vx_l, vx_n), new_cache_size == total(self.cache@) + size(value), total(self.cache@) >= 0, vx_n > 0 ==> new_cache_size + size(vx_m[vx_l[vx_n - 1].0]) > LIMIT() ensures lists(lru_keys@, vx_age), by_age(lru_keys@), old(self).cache_size == total(vx_m) + replaced, vx_m.dom() == vx_age.dom(), vx_l == lru_keys@, 0 <= vx_n <= vx_l.len(), part(*self, vx_m, vx_age, vx_l, vx_n), new_cache_size == total(self.cache@) + size(value), total(self.cache@) >= 0, vx_n > 0 ==> new_cache_size + size(vx_m[vx_l[vx_n - 1].0]) > LIMIT(), new_cache_size <= LIMIT() || vx_n == vx_l.len() decreases lru_keys@.len() - vx_i { let (lru_key, _ts) = vx_take(&lru_keys, vx_i); vx_i = vx_i + 1; let ghost vx_c = self.cache@;`
//@after `removed.map(|v| v.len()).unwrap_or(0);`
                proof {
                    let k = lru_keys@[vx_n].0; assert(k == lru_key);
                    assert(vx_age.contains_key(k)); assert(vx_m.dom().contains(k)); assert(vx_m.contains_key(k)); assert(vx_c.contains_key(k));
                    assert(self.cache@ == vx_c.remove(k));
                    vx_n = vx_n + 1;
                }
//@before `self.cache_lru.insert(key.clone(), SystemTime::now());`
        proof { lemma_evicted(*self, vx_m, vx_age, vx_l, vx_n, LIMIT() - size(value)); }
        let ghost vx_left = self.cache@;
//@after `self.cache_size = new_cache_size;`
        proof {
            assert(self.cache@ =~= vx_left.insert(key, value));
            lemma_total_insert(vx_left, key, value);
            assert(self.cache@.remove(key) =~= vx_left);
            assert(self.cache@.dom() =~= self.cache_lru@.dom());
            lemma_left(vx_m, vx_left, self.cache@, key);
        }
//@before `let removed = `
                proof { let k = lru_keys@[vx_n].0; assert(vx_age.contains_key(k)); assert(vx_m.dom().contains(k)); lemma_total_remove(self.cache@, k); }
//@start
    let ghost mut vx_l: Seq<(MessageHashCacheKey, SystemTime)> = Seq::empty(); let ghost mut vx_n: int = 0;
    proof { ax_size(value); lemma_total_pos(self.cache@); if self.cache@.contains_key(key) { lemma_total_remove(self.cache@, key); ax_size(self.cache@[key]); } else { assert(self.cache@.remove(key) =~= self.cache@); assert(self.cache_lru@.remove(key) =~= self.cache_lru@); } lemma_total_pos(self.cache@.remove(key)); lemma_bound(*self); }
    let ghost vx_m = self.cache@.remove(key); let ghost vx_age = self.cache_lru@.remove(key);
    proof { assert(vx_m.dom() =~= vx_age.dom()); }
//@closure 0 |v: Entries| -> (n: usize)
    ensures n == size(v)
//@closure 2 |vx_p: &(MessageHashCacheKey, SystemTime)| -> (o: SystemTime)
    ensures o == vx_p.1
//@closure 3 |v: Entries| -> (n: usize)
    ensures n == size(v)
//@endfn
}
// the documented status of each error: only what waiting cannot repair is the caller's fault
//@item src/network/replication/error.rs::ReplicationError
impl ReplicationError {
    pub open spec fn code(self) -> Code { match self {
        ReplicationError::InvalidMessage(_) => Code::InvalidArgument,
        ReplicationError::TimestampTooOld(..) | ReplicationError::ChannelMessagesInactive(..) => Code::FailedPrecondition,
        _ => Code::Internal,
    } }
}
//@fn src/network/replication/error.rs::<From<ReplicationError> for Status>::from as status_of -> r
    ensures r.code == err.code(),
//@rw `Self` => `Status`
//@rw `tonic::Status` => `Status`
//@endfn
pub struct TrieError { x: u8 }
//@fn src/network/replication/error.rs::<From<TrieError> for ReplicationError>::from as from_trie -> r
    ensures r is InternalError,
//@rw `Self` => `ReplicationError`
//@endfn
//@fn src/network/replication/error.rs::<From<HubError> for ReplicationError>::from as from_hub -> r
    ensures r is InternalError,
//@rw `Self` => `ReplicationError`
//@endfn
} // verus!
fn main() {}
