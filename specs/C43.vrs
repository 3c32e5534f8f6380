// What a node takes into the queue of messages waiting for a block: never twice, within each user's own allowance, whatever is sent.
//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@include time.vrs
//@include lex.vrs
//@include seqs.vrs
//@include version.vrs
//@proto Message MessageType ValidatorMessage UserDataType CastId OnChainEvent FnameTransfer BlockEvent FarcasterNetwork StorageLimitsResponse Transaction Height
//@include keys.vrs
//@include sets.vrs
use proto::{Message, MessageData, UserDataType, FarcasterNetwork, block_event_data, StorageLimitsResponse, Transaction, Height, OnChainEventType};
//@include pool.vrs
//@include route.vrs
//@include poolroute.vrs
//@include maps.vrs
impl VxKey for (u32, u64) { type S = (u32, u64); open spec fn k(self) -> (u32, u64) { self } }
pub type Place = (MempoolMessageKind, u64, Seq<char>);
impl VxKey for MempoolKey { type S = Place; open spec fn k(self) -> Place { (self.message_kind, self.timestamp, self.identity@) } }
pub type BTreeMap<K, V> = HashMap<K, V>;
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key((*k).k()) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures (r is Some) == old(self)@.contains_key((*k).k()), r is None ==> *final(self) == *old(self),
            r is Some ==> *r->Some_0 == old(self)@[(*k).k()] && final(self)@ == old(self)@.insert((*k).k(), *final(r->Some_0)) { unimplemented!() }
}
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body] pub fn pop_first(&mut self) -> (r: Option<(K, V)>)
        ensures (r is None) == (old(self)@ == Map::<K::S, V>::empty()), r is None ==> *final(self) == *old(self),
            r is Some ==> old(self)@.contains_key(r->Some_0.0.k()) && old(self)@[r->Some_0.0.k()] == r->Some_0.1 && final(self)@ == old(self)@.remove(r->Some_0.0.k()) { unimplemented!() }
}
// the asking side of a request for messages: what was answered
pub mod oneshot { pub struct Sender<T> { pub v: Vec<T> } }
pub uninterp spec fn answered<T>(tx: oneshot::Sender<T>, v: T) -> bool;
impl<T> oneshot::Sender<T> { #[verifier::external_body] pub fn send(self, v: T) -> (r: Result<(), T>) ensures answered(self, v) { unimplemented!() } }
#[verifier::external_body] pub fn vx_copied<T>(o: Option<&T>) -> (r: Option<T>) ensures (r is Some) == (o is Some), r is Some ==> r->Some_0 == *o->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_look(m: &HashMap<u32, BTreeMap<MempoolKey, MempoolMessage>>, s: &u32, k: &MempoolKey) -> (r: Option<MempoolMessage>)
    ensures r == (if m@.contains_key(*s) && m@[*s]@.contains_key((*k).k()) { Some(m@[*s]@[(*k).k()]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_key(o: Option<&MempoolKey>, k: &MempoolKey) -> (r: bool) ensures r == (o is Some && (*o->Some_0).k() == (*k).k()) { unimplemented!() }
#[verifier::external_body] pub struct StatsdClientWrapper { x: u8 }
impl StatsdClientWrapper {
    #[verifier::external_body] pub fn count(&self, k: &str, n: u64, t: Vec<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] pub fn gauge(&self, k: &str, n: u64, t: Vec<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] pub fn gauge_with_shard(&self, s: u32, k: &str, n: u64) { unimplemented!() }
    #[verifier::external_body] pub fn count_with_shard(&self, s: u32, k: &str, n: u64, t: Vec<(&str, &str)>) { unimplemented!() }
}
// ---- governor and moka by their documented behaviour (trusted): a bucket lets through its quota in every span of its length;
//      a cache gives a key a value made for that key, and keeps what was asked for within its idle time
pub struct NonZeroU32 { pub v: u32 }
impl NonZeroU32 { #[verifier::external_body] pub fn new(n: u32) -> (r: Option<NonZeroU32>) ensures (r is Some) == (n > 0), r is Some ==> r->Some_0.v == n { unimplemented!() } }
pub struct Quota { pub most: u32, pub seconds: u64 }
impl Quota {
    #[verifier::external_body] pub fn per_minute(n: NonZeroU32) -> (r: Quota) ensures r.most == n.v, r.seconds == 60 { unimplemented!() }
    #[verifier::external_body] pub fn per_hour(n: NonZeroU32) -> (r: Quota) ensures r.most == n.v, r.seconds == 3600 { unimplemented!() }
}
pub struct Passed {} pub struct NotUntil {}
pub struct DirectRateLimiter { pub quota: Quota }
pub uninterp spec fn asked(l: DirectRateLimiter, passed: bool) -> bool;
impl DirectRateLimiter { #[verifier::external_body] pub fn check(&self) -> (r: Result<Passed, NotUntil>) ensures asked(*self, r is Ok) { unimplemented!() } }
pub struct RateLimiter {}
impl RateLimiter { #[verifier::external_body] pub fn direct(q: Quota) -> (r: DirectRateLimiter) ensures r.quota == q { unimplemented!() } }
pub struct Duration { pub s: u64 }
impl Duration { #[verifier::external_body] pub fn from_secs(s: u64) -> (r: Duration) ensures r.s == s { unimplemented!() } }
pub struct EvictionPolicy {}
impl EvictionPolicy { #[verifier::external_body] pub fn lru() -> (r: EvictionPolicy) { unimplemented!() } }
pub struct CacheBuilder { pub idle: Option<u64>, pub most: u64 }
impl CacheBuilder {
    #[verifier::external_body] pub fn new(n: u64) -> (r: CacheBuilder) ensures r.idle is None, r.most == n { unimplemented!() }
    #[verifier::external_body] pub fn time_to_idle(self, d: Duration) -> (r: CacheBuilder) ensures r.idle == Some(d.s), r.most == self.most { unimplemented!() }
    #[verifier::external_body] pub fn eviction_policy(self, p: EvictionPolicy) -> (r: CacheBuilder) ensures r == self { unimplemented!() }
    // the values of a new cache may be promised to satisfy anything
    #[verifier::external_body] pub fn vx_build(self, good: Ghost<spec_fn(u64, DirectRateLimiter) -> bool>) -> (r: Cache) ensures r.idle@ == self.idle, r.most@ == self.most, r.good == good { unimplemented!() }
}
pub struct Cache { pub idle: Ghost<Option<u64>>, pub most: Ghost<u64>, pub good: Ghost<spec_fn(u64, DirectRateLimiter) -> bool> }
impl Cache {
    pub uninterp spec fn holds(&self, k: u64, l: DirectRateLimiter) -> bool;
    #[verifier::external_body] pub fn get_with<F: FnOnce() -> DirectRateLimiter>(&self, k: u64, f: F) -> (r: DirectRateLimiter)
        requires f.requires(()), forall|l: DirectRateLimiter| f.ensures((), l) ==> (self.good@)(k, l)
        ensures self.holds(k, r), (self.good@)(k, r) { unimplemented!() }
    #[verifier::external_body] pub fn optionally_get_with<F: FnOnce() -> Option<DirectRateLimiter>>(&self, k: u64, f: F) -> (r: Option<DirectRateLimiter>)
        requires f.requires(()), forall|l: DirectRateLimiter| f.ensures((), Some(l)) ==> (self.good@)(k, l)
        ensures r is Some ==> self.holds(k, r->Some_0) && (self.good@)(k, r->Some_0), r is None ==> f.ensures((), None) { unimplemented!() }
    #[verifier::external_body] pub fn invalidate(&self, k: &u64) { unimplemented!() }
    #[verifier::external_body] pub fn entry_count(&self) -> (r: u64) { unimplemented!() }
}
// ---- the stores of a shard (C19: what a user's storage allows)
pub struct StoresError { pub k: u8 }
#[verifier::external] impl std::fmt::Debug for StoresError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
#[verifier::external] impl std::fmt::Debug for HubError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub struct RocksDB { pub k: u8 }
pub struct BlockEventStore { pub k: u8 }
impl BlockEventStore {
    pub uninterp spec fn last(&self) -> Option<u64>;
    #[verifier::external_body] pub fn max_seqnum(&self) -> (r: Result<u64, StoresError>) ensures (r is Ok) == (self.last() is Some), r is Ok ==> r->Ok_0 == self.last()->Some_0 { unimplemented!() }
}
pub struct Stores { pub shard: Ghost<u32>, pub db: RocksDB, pub block_event_store: BlockEventStore }
// an answer the stores of this shard give about this user's storage
pub uninterp spec fn told(shard: u32, fid: u64, s: StorageLimitsResponse) -> bool;
// the sum over the kinds of messages is assumed to fit 32 bits (some 400 000 units of storage)
pub open spec fn total(v: Seq<proto::StorageLimit>) -> int decreases v.len() { if v.len() == 0 { 0 } else { total(v.drop_last()) + v.last().limit as u32 } }
#[verifier::external_body] pub fn vx_total(v: &Vec<proto::StorageLimit>) -> (r: u32) ensures r == total(v@) { unimplemented!() }
impl Stores {
    // the answer is assumed to come (the callers unwrap it)
    #[verifier::external_body] pub fn get_storage_limits(&self, fid: u64) -> (r: Result<StorageLimitsResponse, StoresError>) ensures r is Ok, told(self.shard@, fid, r->Ok_0) { unimplemented!() }
}
pub open spec fn every_shard(m: Map<u32, Stores>, n: u32) -> bool { n > 0 && forall|s: u32| 1 <= s <= n ==> #[trigger] m.contains_key(s) && m[s].shard@ == s }
// ---- the three allowances
pub open spec fn one_a_minute(l: DirectRateLimiter) -> bool { l.quota.most == 1 && l.quota.seconds == 60 }
pub open spec fn heartbeat(n: u32, fid: u64, l: DirectRateLimiter) -> bool {
    exists|s: StorageLimitsResponse| #[trigger] told(home_shard(fid, n), fid, s) && s.units > 0 && l.quota.seconds == 3600 && l.quota.most == (if s.units * 5000 > u32::MAX { u32::MAX as int } else { s.units * 5000 })
}
pub open spec fn a_tenth(n: u32, fid: u64, l: DirectRateLimiter) -> bool {
    exists|s: StorageLimitsResponse| #[trigger] told(home_shard(fid, n), fid, s) && total(s.limits@) > 0 && l.quota.seconds == 3600 && l.quota.most == (if total(s.limits@) / 10 > 100 { total(s.limits@) / 10 } else { 100 })
}
// nobody has a bucket refilled by keeping still for less than the time it would take to refill
pub open spec fn lasting(c: Cache, seconds: u64) -> bool { c.idle@ is None || c.idle@->Some_0 >= seconds }
pub struct KeyAddRateLimits { pub rate_limits_by_fid: Cache, pub statsd_client: StatsdClientWrapper }
impl KeyAddRateLimits {
    pub open spec fn wf(&self) -> bool { lasting(self.rate_limits_by_fid, 60) && self.rate_limits_by_fid.good@ == (|fid: u64, l: DirectRateLimiter| one_a_minute(l)) }
    pub open spec fn took(&self, fid: u64, passed: bool) -> bool { exists|l: DirectRateLimiter| #[trigger] asked(l, passed) && self.rate_limits_by_fid.holds(fid, l) && one_a_minute(l) }
//@fn src/mempool/mempool.rs::KeyAddRateLimits::new -> r
    ensures r.wf(), r.rate_limits_by_fid.most@ >= 100_000,
//@rw `.build()` => `.vx_build(Ghost(|fid: u64, l: DirectRateLimiter| one_a_minute(l)))`
//@endfn
//@fn src/mempool/mempool.rs::KeyAddRateLimits::consume_for_fid -> r
    requires self.wf(),
    ensures self.took(fid, r),
//@closure 0 || -> (l: DirectRateLimiter) ensures one_a_minute(l)
//@rw `Arc::new(` => `(`
//@endfn
}
pub struct LiveAtRateLimits { pub shard_stores: HashMap<u32, Stores>, pub rate_limits_by_fid: Cache, pub statsd_client: StatsdClientWrapper, pub message_router: Box<ShardRouter>, pub num_shards: u32 }
impl LiveAtRateLimits {
    pub const RATE_LIMIT_PER_STORAGE_UNIT: u32 = 5000;
    pub open spec fn wf(&self) -> bool { lasting(self.rate_limits_by_fid, 3600) && every_shard(self.shard_stores@, self.num_shards) && self.rate_limits_by_fid.good@ == (|fid: u64, l: DirectRateLimiter| heartbeat(self.num_shards, fid, l)) }
    pub open spec fn took(&self, fid: u64, passed: bool) -> bool {
        (exists|l: DirectRateLimiter| #[trigger] asked(l, passed) && self.rate_limits_by_fid.holds(fid, l) && heartbeat(self.num_shards, fid, l))
        || !passed && exists|s: StorageLimitsResponse| #[trigger] told(home_shard(fid, self.num_shards), fid, s) && s.units == 0
    }
//@fn src/mempool/mempool.rs::LiveAtRateLimits::new -> r
    requires every_shard(shard_stores@, num_shards),
    ensures r.wf(), r.num_shards == num_shards, r.rate_limits_by_fid.most@ >= 100_000,
//@rw `.build()` => `.vx_build(Ghost(|fid: u64, l: DirectRateLimiter| heartbeat(num_shards, fid, l)))`
//@endfn
//@fn src/mempool/mempool.rs::LiveAtRateLimits::consume_for_fid -> r
    requires self.wf(),
    ensures self.took(fid, r),
//@rw `Arc::new(` => `(`
//@closure 0 || -> (o: Option<DirectRateLimiter>) ensures o is Some ==> heartbeat(self.num_shards, fid, o->Some_0), o is None ==> exists|s: StorageLimitsResponse| #[trigger] told(home_shard(fid, self.num_shards), fid, s) && s.units == 0
//@start
    proof { theorem_home(fid, self.num_shards); }
//@endfn
//@fn src/mempool/mempool.rs::LiveAtRateLimits::invalidate_rate_limiter_for_fid
//@endfn
}
proof fn theorem_home(fid: u64, n: u32) requires n > 0 ensures 1 <= home_shard(fid, n) <= n {
    let h = unbe32(sha256(be32(fid as u32)).subrange(0, 4));
    assert(h % n < n);
}
//@item src/mempool/mempool.rs::RateLimitsConfig
impl RateLimitsConfig {
//@fn src/mempool/mempool.rs::<Default for RateLimitsConfig>::default -> r
    ensures r.time_to_idle.s >= 3600, r.max_capacity >= 100_000,
//@endfn
}
pub struct RateLimits { pub shard_stores: HashMap<u32, Stores>, pub rate_limits_by_fid: Cache, pub statsd_client: StatsdClientWrapper, pub message_router: Box<ShardRouter>, pub num_shards: u32 }
impl RateLimits {
    pub open spec fn wf(&self) -> bool { lasting(self.rate_limits_by_fid, 3600) && every_shard(self.shard_stores@, self.num_shards) && self.rate_limits_by_fid.good@ == (|fid: u64, l: DirectRateLimiter| a_tenth(self.num_shards, fid, l)) }
    pub open spec fn took(&self, fid: u64, passed: bool) -> bool {
        (exists|l: DirectRateLimiter| #[trigger] asked(l, passed) && self.rate_limits_by_fid.holds(fid, l) && a_tenth(self.num_shards, fid, l))
        || !passed && exists|s: StorageLimitsResponse| #[trigger] told(home_shard(fid, self.num_shards), fid, s) && total(s.limits@) == 0
    }
//@fn src/mempool/mempool.rs::RateLimits::new -> r
    requires every_shard(shard_stores@, num_shards), config.time_to_idle.s >= 3600,
    ensures r.wf(), r.num_shards == num_shards, r.rate_limits_by_fid.most@ == config.max_capacity,
//@rw `.build()` => `.vx_build(Ghost(|fid: u64, l: DirectRateLimiter| a_tenth(num_shards, fid, l)))`
//@endfn
//@fn src/mempool/mempool.rs::RateLimits::invalidate_rate_limiter_for_fid
    ensures *final(self) == *old(self),
//@endfn
//@fn src/mempool/mempool.rs::RateLimits::get_rate_limiter_for_fid -> r
    requires old(self).wf(),
    ensures *final(self) == *old(self),
        r is Some ==> old(self).rate_limits_by_fid.holds(fid, r->Some_0) && a_tenth(old(self).num_shards, fid, r->Some_0),
        r is None ==> exists|s: StorageLimitsResponse| #[trigger] told(home_shard(fid, old(self).num_shards), fid, s) && total(s.limits@) == 0,
//@rw `Option<Arc<DirectRateLimiter>>` => `Option<DirectRateLimiter>`
//@rw `Arc::new(` => `(`
//@rw `storage_limits.limits.iter().map(|limits| limits.limit as u32).sum()` => `vx_total(&storage_limits.limits)`
//@rw `self.rate_limits_by_fid` => `vx_me.rate_limits_by_fid`
//@rw `self.message_router` => `vx_me.message_router`
//@rw `self.num_shards` => `vx_me.num_shards`
//@rw `self.shard_stores` => `vx_me.shard_stores`
//@closure 0 || -> (o: Option<DirectRateLimiter>) ensures o is Some ==> a_tenth(vx_me.num_shards, fid, o->Some_0), o is None ==> exists|s: StorageLimitsResponse| #[trigger] told(home_shard(fid, vx_me.num_shards), fid, s) && total(s.limits@) == 0
//@start
    let vx_me: &RateLimits = &*self;
    proof { theorem_home(fid, self.num_shards); }
//@endfn
//@fn src/mempool/mempool.rs::RateLimits::consume_for_fid -> r
    requires old(self).wf(),
    ensures *final(self) == *old(self), old(self).took(fid, r),
//@endfn
}
// ---- taking a message in
//@item src/mempool/mempool.rs::MempoolSource noclone
pub struct BlockStores { pub db: RocksDB }
pub struct ReadNodeMempool { pub shard_stores: HashMap<u32, Stores>, pub block_stores: BlockStores, pub message_router: Box<ShardRouter>, pub num_shards: u32, pub network: FarcasterNetwork, pub mempool_rx: mpsc::Receiver<u8>, pub gossip_tx: mpsc::Sender<u8>, pub statsd_client: StatsdClientWrapper }
pub mod mpsc { pub struct Receiver<T> { pub v: Vec<T> } pub struct Sender<T> { pub v: Vec<T> } }
//@item src/mempool/mempool.rs::Config noclone
pub struct Txn { pub k: u8 }
pub struct RocksDbTransactionBatch {}
impl RocksDbTransactionBatch { #[verifier::external_body] pub fn new() -> (r: Txn) { unimplemented!() } }
// the message stored under a key, when it can be read (C22)
pub uninterp spec fn stored(db: RocksDB, k: Seq<u8>) -> Option<Message>;
#[verifier::external_body] pub fn get_message_by_key(db: &RocksDB, txn: &mut Txn, k: &Vec<u8>) -> (r: Result<Option<Message>, HubError>)
    ensures stored(*db, k@) is Some ==> r is Ok && r->Ok_0 == stored(*db, k@), r is Ok ==> r->Ok_0 == stored(*db, k@) { unimplemented!() }
pub open spec fn db_of(me: ReadNodeMempool, shard: u32) -> Option<RocksDB> { if shard == 0 { Some(me.block_stores.db) } else if me.shard_stores@.contains_key(shard) { Some(me.shard_stores@[shard].db) } else { None } }
pub open spec fn kind_of(m: Message) -> MessageType { MessageType::spec_or_default(m.data->Some_0.r#type) }
// already in the set of its shard
pub open spec fn merged(me: ReadNodeMempool, shard: u32, m: MempoolMessage) -> bool {
    m is UserMessage && db_of(me, shard) is Some && ({ let u = m->UserMessage_0;
        set_of(kind_of(u)) is Some && stored(db_of(me, shard)->Some_0, primary_key(u.data->Some_0.fid, set_of(kind_of(u))->Some_0, ts_hash(u.data->Some_0.timestamp, u.hash@))) is Some })
}
// what can be looked up at all: no message of a user lacks its data or has a hash of another length
pub open spec fn whole(m: MempoolMessage) -> bool { m is UserMessage ==> m->UserMessage_0.data is Some && m->UserMessage_0.hash@.len() == 20 }
// what the submitting side of a validator message guarantees
pub open spec fn sound(me: ReadNodeMempool, m: MempoolMessage) -> bool {
    complete(m) && (!(m is UserMessage) ==> keyed(as_validator(m)))
    && match m { MempoolMessage::BlockEvent { for_shard, message } => for_shard == 0 || me.shard_stores@.contains_key(for_shard), _ => true }
}
pub mod routing { pub use super::route_message; }
impl ReadNodeMempool {
//@fn src/mempool/mempool.rs::ReadNodeMempool::new -> r
    ensures r.shard_stores == shard_stores, r.block_stores == block_stores, r.num_shards == num_shards, r.network == network,
//@rw `mpsc::Receiver<MempoolRequest>` => `mpsc::Receiver<u8>`
//@rw `mpsc::Sender<GossipEvent<SnapchainValidatorContext>>` => `mpsc::Sender<u8>`
//@endfn
//@fn src/mempool/mempool.rs::ReadNodeMempool::message_already_exists -> r
    requires whole(*message), complete(*message),
    ensures r == merged(*self, shard, *message),
//@rw `.map(|stores| &stores.db)` => `.map(|stores: &Stores| -> (o: &RocksDB) ensures *o == stores.db { &stores.db })`
//@endfn
//@fn src/mempool/mempool.rs::ReadNodeMempool::route_mempool_message -> r
    requires complete(*message), 0 < self.num_shards < u32::MAX,
    ensures exists|t: int| r@ =~= held_on(*message, self.num_shards, #[trigger] EngineVersion::at(self.network, t))
//@rw `(1..self.num_shards + 1).collect()` => `vx_range(1, self.num_shards + 1)`
//@endfn
//@fn src/mempool/mempool.rs::ReadNodeMempool::gossip_message external
//@endfn
}
//@fn src/mempool/mempool.rs::is_key_remove -> r
    ensures r <==> removes_key(*message),
//@endfn
pub open spec fn body_of(m: Message) -> Option<proto::message_data::Body> { match m.data { Some(d) => d.body, None => None } }
pub open spec fn adds_key(m: Message) -> bool { body_of(m) is Some && body_of(m)->Some_0 is KeyAddBody }
pub open spec fn removes_key(m: Message) -> bool { body_of(m) is Some && body_of(m)->Some_0 is KeyRemoveBody }
pub open spec fn live(m: Message) -> bool { body_of(m) is Some && body_of(m)->Some_0 is UserDataBody && body_of(m)->Some_0->UserDataBody_0.r#type == UserDataType::LiveAt as i32 }
pub open spec fn live_msg(m: MempoolMessage) -> bool { m is UserMessage && live(m->UserMessage_0) }
pub open spec fn place_of(m: MempoolMessage) -> Place {
    match m {
        MempoolMessage::UserMessage(u) => (MempoolMessageKind::UserMessage, (u.data->Some_0.timestamp + 1609459200) as u64, hex(u.hash@)),
        _ => (MempoolMessageKind::ValidatorMessage, place(as_validator(m)).0 as u64, place(as_validator(m)).1),
    }
}
pub struct Mempool {
    pub messages: HashMap<u32, BTreeMap<MempoolKey, MempoolMessage>>, pub statsd_client: StatsdClientWrapper, pub read_node_mempool: ReadNodeMempool, pub rate_limits: Option<RateLimits>,
    pub key_add_rate_limits: KeyAddRateLimits, pub live_at_rate_limits: LiveAtRateLimits, pub live_at_messages_by_fid: HashMap<(u32, u64), MempoolKey>,
    pub config: Config, pub messages_request_rx: mpsc::Receiver<u8>, pub shard_decision_rx: mpsc::Receiver<u8>, pub block_decision_rx: mpsc::Receiver<u8>,
}
pub open spec fn waiting(me: Mempool, s: u32) -> Map<Place, MempoolMessage> { if me.messages@.contains_key(s) { me.messages@[s]@ } else { Map::empty() } }
// everything waits under its own key; of a user's heartbeats at most one waits on a shard, and the index names it
pub open spec fn inv(me: Mempool) -> bool {
    &&& me.key_add_rate_limits.wf() && me.live_at_rate_limits.wf() && (me.rate_limits is Some ==> me.rate_limits->Some_0.wf())
    &&& forall|s: u32, k: Place| #[trigger] waiting(me, s).contains_key(k) ==> whole(waiting(me, s)[k]) && sound(me.read_node_mempool, waiting(me, s)[k]) && place_of(waiting(me, s)[k]) == k
    &&& forall|s: u32, k: Place| #[trigger] waiting(me, s).contains_key(k) && live_msg(waiting(me, s)[k]) ==> indexed(me, s, owner(waiting(me, s)[k]->UserMessage_0)) == Some(k)
    &&& forall|s: u32, f: u64| (#[trigger] indexed(me, s, f)) is Some ==> waiting(me, s).contains_key(indexed(me, s, f)->Some_0) && live_msg(waiting(me, s)[indexed(me, s, f)->Some_0]) && owner(waiting(me, s)[indexed(me, s, f)->Some_0]->UserMessage_0) == f
}
pub open spec fn indexed(me: Mempool, s: u32, f: u64) -> Option<Place> { if me.live_at_messages_by_fid@.contains_key((s, f)) { Some(me.live_at_messages_by_fid@[(s, f)].k()) } else { None } }
pub open spec fn others_same(a: Mempool, b: Mempool) -> bool { a.read_node_mempool == b.read_node_mempool && a.rate_limits == b.rate_limits && a.key_add_rate_limits == b.key_add_rate_limits && a.live_at_rate_limits == b.live_at_rate_limits }
// what a user's allowances say of a message of his: keys one a minute, heartbeats their own bucket, revocations never refused, the rest the storage allowance where limits are on
pub open spec fn allowance(me: Mempool, m: MempoolMessage, over: bool) -> bool {
    match m {
        MempoolMessage::UserMessage(u) =>
            if adds_key(u) { if over { me.key_add_rate_limits.took(owner(u), false) || me.key_add_rate_limits.took(owner(u), true) && me.rate_limits is Some && me.rate_limits->Some_0.took(owner(u), false) } else { me.key_add_rate_limits.took(owner(u), true) && (me.rate_limits is Some ==> me.rate_limits->Some_0.took(owner(u), true)) } }
            else if removes_key(u) { !over }
            else if live(u) { me.live_at_rate_limits.took(owner(u), !over) }
            else if me.rate_limits is Some { me.rate_limits->Some_0.took(owner(u), !over) } else { !over },
        _ => !over,
    }
}
pub open spec fn channel_kind(t: MessageType) -> bool { t == MessageType::ChannelUpdate || t == MessageType::ChannelMember || t == MessageType::ChannelPin || t == MessageType::ChannelModerate }
pub open spec fn key_kind(t: MessageType) -> bool { t == MessageType::KeyAdd || t == MessageType::KeyRemove }
pub open spec fn active(m: MempoolMessage, v: EngineVersion) -> bool {
    m is UserMessage ==> (channel_kind(kind(m->UserMessage_0)) ==> enabled(v, ProtocolFeature::ChannelMessages)) && (key_kind(kind(m->UserMessage_0)) ==> enabled(v, ProtocolFeature::GaslessSigners))
}
// a block event for a shard of users that is later than the last one merged there
pub open spec fn due(me: ReadNodeMempool, m: MempoolMessage) -> bool {
    match m { MempoolMessage::BlockEvent { for_shard, message } => for_shard != 0 && ({ let l = me.shard_stores@[for_shard].block_event_store.last(); l is Some ==> message.data->Some_0.seqnum > l->Some_0 }), _ => true }
}
pub open spec fn fit(me: Mempool, s: u32, m: MempoolMessage, charged: bool, ok: bool) -> bool {
    exists|t: int| #![trigger EngineVersion::at(me.read_node_mempool.network, t)]
        if !(active(m, EngineVersion::at(me.read_node_mempool.network, t)) && due(me.read_node_mempool, m) && !merged(me.read_node_mempool, s, m)) { !ok } else if charged { allowance(me, m, !ok) } else { ok }
}
pub open spec fn same_queue(a: Mempool, b: Mempool) -> bool { others_same(a, b) && a.messages@ =~= b.messages@ }
// entries of the index that name nothing that waits may go
proof fn lemma_keep(a: Mempool, b: Mempool)
    requires inv(a), same_queue(a, b),
        forall|s: u32, f: u64| #[trigger] indexed(b, s, f) == indexed(a, s, f) || indexed(b, s, f) is None && !(indexed(a, s, f) is Some && waiting(a, s).contains_key(indexed(a, s, f)->Some_0)),
    ensures inv(b), forall|s: u32| #[trigger] waiting(b, s) == waiting(a, s)
{
    assert forall|s: u32| #[trigger] waiting(b, s) == waiting(a, s) by {}
    assert forall|s: u32, k: Place| #[trigger] waiting(b, s).contains_key(k) implies whole(waiting(b, s)[k]) && sound(b.read_node_mempool, waiting(b, s)[k]) && place_of(waiting(b, s)[k]) == k && (live_msg(waiting(b, s)[k]) ==> indexed(b, s, owner(waiting(b, s)[k]->UserMessage_0)) == Some(k)) by {
        assert(waiting(a, s).contains_key(k));
        if live_msg(waiting(a, s)[k]) { assert(indexed(a, s, owner(waiting(a, s)[k]->UserMessage_0)) == Some(k)); }
    }
    assert forall|s: u32, f: u64| (#[trigger] indexed(b, s, f)) is Some && waiting(b, s).contains_key(indexed(b, s, f)->Some_0) implies live_msg(waiting(b, s)[indexed(b, s, f)->Some_0]) && owner(waiting(b, s)[indexed(b, s, f)->Some_0]->UserMessage_0) == f by { assert(indexed(a, s, f) == indexed(b, s, f)); }
}
pub open spec fn swapped(q: Map<Place, MempoolMessage>, gone: Option<Place>, m: MempoolMessage) -> Map<Place, MempoolMessage> { (match gone { Some(g) => q.remove(g), None => q }).insert(place_of(m), m) }
proof fn lemma_take(a: Mempool, b: Mempool, shard: u32, m: MempoolMessage, gone: Option<Place>)
    requires inv(a), whole(m), sound(a.read_node_mempool, m), others_same(a, b), !waiting(a, shard).contains_key(place_of(m)),
        !live_msg(m) ==> gone is None,
        gone is Some ==> live_msg(m) && waiting(a, shard).contains_key(gone->Some_0) && live_msg(waiting(a, shard)[gone->Some_0]) && owner(waiting(a, shard)[gone->Some_0]->UserMessage_0) == owner(m->UserMessage_0),
        (gone is None && live_msg(m)) ==> forall|k: Place| #[trigger] waiting(a, shard).contains_key(k) ==> !(live_msg(waiting(a, shard)[k]) && owner(waiting(a, shard)[k]->UserMessage_0) == owner(m->UserMessage_0)),
        forall|s: u32| #[trigger] waiting(b, s) == (if s == shard { swapped(waiting(a, s), gone, m) } else { waiting(a, s) }),
        forall|s: u32, f: u64| #[trigger] indexed(b, s, f) == (if live_msg(m) && s == shard && f == owner(m->UserMessage_0) { Some(place_of(m)) } else { indexed(a, s, f) }),
    ensures inv(b)
{
    assert forall|s: u32, k: Place| #[trigger] waiting(b, s).contains_key(k) implies whole(waiting(b, s)[k]) && sound(b.read_node_mempool, waiting(b, s)[k]) && place_of(waiting(b, s)[k]) == k && (live_msg(waiting(b, s)[k]) ==> indexed(b, s, owner(waiting(b, s)[k]->UserMessage_0)) == Some(k)) by {
        if !(s == shard && k == place_of(m)) {
            assert(waiting(a, s).contains_key(k));
            if live_msg(waiting(a, s)[k]) {
                let f = owner(waiting(a, s)[k]->UserMessage_0);
                assert(indexed(a, s, f) == Some(k));
                if live_msg(m) && s == shard && f == owner(m->UserMessage_0) { assert(gone is Some); assert(indexed(a, s, f) == Some(gone->Some_0)); assert(false); }
            }
        }
    }
    assert forall|s: u32, f: u64| (#[trigger] indexed(b, s, f)) is Some && waiting(b, s).contains_key(indexed(b, s, f)->Some_0) implies live_msg(waiting(b, s)[indexed(b, s, f)->Some_0]) && owner(waiting(b, s)[indexed(b, s, f)->Some_0]->UserMessage_0) == f by {
        let k = indexed(b, s, f)->Some_0;
        if !(live_msg(m) && s == shard && f == owner(m->UserMessage_0)) {
            assert(indexed(a, s, f) == Some(k));
            assert(waiting(a, s).contains_key(k));
        }
    }
}
pub open spec fn grew(a: Mempool, b: Mempool, m: MempoolMessage) -> bool {
    &&& forall|s: u32, k: Place| #[trigger] waiting(b, s).contains_key(k) ==> (waiting(a, s).contains_key(k) && waiting(b, s)[k] == waiting(a, s)[k]) || (k == place_of(m) && waiting(b, s)[k] == m && !waiting(a, s).contains_key(k))
    &&& forall|s: u32, k: Place| #[trigger] waiting(a, s).contains_key(k) && !waiting(b, s).contains_key(k) ==> k != place_of(m) && live_msg(m) && live_msg(waiting(a, s)[k]) && owner(waiting(a, s)[k]->UserMessage_0) == owner(m->UserMessage_0) && newer(waiting(a, s)[k]->UserMessage_0, m->UserMessage_0) <= 0
}
pub open spec fn waits_on(me: Mempool, shards: Seq<u32>, m: MempoolMessage) -> bool { forall|j: int| 0 <= j < shards.len() ==> waiting(me, #[trigger] shards[j]).contains_key(place_of(m)) && waiting(me, shards[j])[place_of(m)] == m }
// what is taken out takes its entry in the index with it
proof fn lemma_out(a: Mempool, b: Mempool, shard: u32, k0: Place)
    requires inv(a), others_same(a, b), waiting(a, shard).contains_key(k0),
        forall|s: u32| #[trigger] waiting(b, s) == (if s == shard { waiting(a, s).remove(k0) } else { waiting(a, s) }),
        forall|s: u32, f: u64| #[trigger] indexed(b, s, f) == (if s == shard && live_msg(waiting(a, s)[k0]) && f == owner(waiting(a, s)[k0]->UserMessage_0) && indexed(a, s, f) == Some(k0) { None } else { indexed(a, s, f) }),
    ensures inv(b)
{
    assert forall|s: u32, k: Place| #[trigger] waiting(b, s).contains_key(k) implies whole(waiting(b, s)[k]) && sound(b.read_node_mempool, waiting(b, s)[k]) && place_of(waiting(b, s)[k]) == k && (live_msg(waiting(b, s)[k]) ==> indexed(b, s, owner(waiting(b, s)[k]->UserMessage_0)) == Some(k)) by {
        assert(waiting(a, s).contains_key(k));
        if live_msg(waiting(a, s)[k]) { assert(indexed(a, s, owner(waiting(a, s)[k]->UserMessage_0)) == Some(k)); }
    }
    assert forall|s: u32, f: u64| (#[trigger] indexed(b, s, f)) is Some implies waiting(b, s).contains_key(indexed(b, s, f)->Some_0) && live_msg(waiting(b, s)[indexed(b, s, f)->Some_0]) && owner(waiting(b, s)[indexed(b, s, f)->Some_0]->UserMessage_0) == f by {
        assert(indexed(a, s, f) == indexed(b, s, f));
        let k = indexed(a, s, f)->Some_0;
        assert(waiting(a, s).contains_key(k));
    }
}
// what a proposer is given: each of what waits once, all of it fit, no more than asked for; what was left out was not fit
pub open spec fn given(a: Mempool, b: Mempool, shard: u32, most: u32, v: Seq<MempoolMessage>) -> bool {
    &&& v.len() <= most
    &&& forall|i: int| 0 <= i < v.len() ==> waiting(a, shard).contains_key(place_of(#[trigger] v[i])) && waiting(a, shard)[place_of(v[i])] == v[i] && fit(a, shard, v[i], false, true) && !waiting(b, shard).contains_key(place_of(v[i]))
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> place_of(#[trigger] v[i]) != place_of(#[trigger] v[j])
    &&& forall|s: u32, k: Place| #[trigger] waiting(b, s).contains_key(k) ==> waiting(a, s).contains_key(k) && waiting(b, s)[k] == waiting(a, s)[k]
    &&& forall|s: u32, k: Place| #[trigger] waiting(a, s).contains_key(k) && !waiting(b, s).contains_key(k) ==> s == shard && (fit(a, s, waiting(a, s)[k], false, false) || exists|i: int| 0 <= i < v.len() && place_of(#[trigger] v[i]) == k)
}
proof fn lemma_given(a: Mempool, b: Mempool, c: Mempool, shard: u32, out: Option<Place>, most: u32, v: Seq<MempoolMessage>)
    requires inv(a), inv(b), given(a, b, shard, most, v), out is Some ==> waiting(b, shard).contains_key(out->Some_0) && v.len() < most,
        forall|s: u32| #[trigger] waiting(c, s) == (if s == shard && out is Some { waiting(b, s).remove(out->Some_0) } else { waiting(b, s) }),
    ensures out is None ==> given(a, c, shard, most, v),
        out is Some ==> ({ let m = waiting(b, shard)[out->Some_0];
            (fit(a, shard, m, false, false) ==> given(a, c, shard, most, v)) && (fit(a, shard, m, false, true) ==> given(a, c, shard, most, v.push(m))) }),
{
    assert forall|i: int| 0 <= i < v.len() implies !waiting(c, shard).contains_key(place_of(#[trigger] v[i])) by {}
    if out is Some {
        let k0 = out->Some_0; let m = waiting(b, shard)[k0]; let w = v.push(m);
        assert(waiting(a, shard).contains_key(k0) && waiting(a, shard)[k0] == m && place_of(m) == k0);
        assert forall|s: u32, k: Place| #[trigger] waiting(c, s).contains_key(k) implies waiting(a, s).contains_key(k) && waiting(c, s)[k] == waiting(a, s)[k] by { assert(waiting(b, s).contains_key(k)); }
        if fit(a, shard, m, false, false) {
            assert forall|s: u32, k: Place| #[trigger] waiting(a, s).contains_key(k) && !waiting(c, s).contains_key(k) implies s == shard && (fit(a, s, waiting(a, s)[k], false, false) || exists|i: int| 0 <= i < v.len() && place_of(#[trigger] v[i]) == k) by {
                if waiting(b, s).contains_key(k) { assert(k == k0 && s == shard); }
            }
        }
        if fit(a, shard, m, false, true) {
            assert forall|i: int| 0 <= i < w.len() implies waiting(a, shard).contains_key(place_of(#[trigger] w[i])) && waiting(a, shard)[place_of(w[i])] == w[i] && fit(a, shard, w[i], false, true) && !waiting(c, shard).contains_key(place_of(w[i])) by { if i < v.len() { assert(w[i] == v[i]); } }
            assert forall|i: int, j: int| 0 <= i < j < w.len() implies place_of(#[trigger] w[i]) != place_of(#[trigger] w[j]) by { assert(w[i] == v[i]); if j < v.len() { assert(w[j] == v[j]); } else { assert(!waiting(b, shard).contains_key(place_of(v[i]))); } }
            assert forall|s: u32, k: Place| #[trigger] waiting(a, s).contains_key(k) && !waiting(c, s).contains_key(k) implies s == shard && (fit(a, s, waiting(a, s)[k], false, false) || exists|i: int| 0 <= i < w.len() && place_of(#[trigger] w[i]) == k) by {
                if waiting(b, s).contains_key(k) { assert(k == k0 && s == shard); assert(place_of(w[v.len() as int]) == k); }
                else if exists|i: int| 0 <= i < v.len() && place_of(#[trigger] v[i]) == k { let i = choose|i: int| 0 <= i < v.len() && place_of(#[trigger] v[i]) == k; assert(w[i] == v[i]); }
            }
        }
    }
}
// ---- what a block has taken
pub open spec fn user_place(u: Message) -> Place { (MempoolMessageKind::UserMessage, (u.data->Some_0.timestamp + 1609459200) as u64, hex(u.hash@)) }
pub open spec fn system_place(m: proto::ValidatorMessage) -> Place { (MempoolMessageKind::ValidatorMessage, place(m).0 as u64, place(m).1) }
pub open spec fn in_users(ms: Seq<Message>, n: int, k: Place) -> bool { exists|i: int| 0 <= i < n && user_place(#[trigger] ms[i]) == k }
pub open spec fn in_system(ms: Seq<proto::ValidatorMessage>, n: int, k: Place) -> bool { exists|i: int| 0 <= i < n && system_place(#[trigger] ms[i]) == k }
pub open spec fn in_one(t: Transaction, k: Place) -> bool { in_users(t.user_messages@, t.user_messages@.len() as int, k) || in_system(t.system_messages@, t.system_messages@.len() as int, k) }
pub open spec fn in_block(ts: Seq<Transaction>, n: int, k: Place) -> bool { exists|i: int| 0 <= i < n && in_one(#[trigger] ts[i], k) }
// what a block holds has its data; and a message that waits under the key of a committed one is that one (its hash names it)
pub open spec fn sane(q: Map<Place, MempoolMessage>, t: Transaction) -> bool {
    &&& forall|i: int| 0 <= i < t.user_messages@.len() ==> (#[trigger] t.user_messages@[i]).data is Some && same_message(q, t.user_messages@[i])
    &&& forall|i: int| 0 <= i < t.system_messages@.len() ==> keyed(#[trigger] t.system_messages@[i])
}
pub open spec fn same_message(q: Map<Place, MempoolMessage>, u: Message) -> bool {
    q.contains_key(user_place(u)) ==> ({ let w = q[user_place(u)]; w is UserMessage && live(w->UserMessage_0) == live(u) && owner(w->UserMessage_0) == owner(u) })
}
// the queue of one shard and the entries of the index for it
pub open spec fn paired(q: Map<Place, MempoolMessage>, index: Map<(u32, u64), MempoolKey>, s: u32) -> bool {
    &&& forall|k: Place| #[trigger] q.contains_key(k) ==> place_of(q[k]) == k && (live_msg(q[k]) ==> index.contains_key((s, owner(q[k]->UserMessage_0))) && index[(s, owner(q[k]->UserMessage_0))].k() == k)
    &&& forall|f: u64| #[trigger] index.contains_key((s, f)) ==> q.contains_key(index[(s, f)].k()) && live_msg(q[index[(s, f)].k()]) && owner(q[index[(s, f)].k()]->UserMessage_0) == f
}
pub open spec fn thinned(q0: Map<Place, MempoolMessage>, q: Map<Place, MempoolMessage>, out: spec_fn(Place) -> bool) -> bool {
    forall|k: Place| #![trigger q.contains_key(k)] #![trigger q0.contains_key(k)] (q.contains_key(k) <==> q0.contains_key(k) && !out(k)) && (q.contains_key(k) ==> q[k] == q0[k])
}
pub open spec fn shards_same(a: Map<(u32, u64), MempoolKey>, b: Map<(u32, u64), MempoolKey>, s: u32) -> bool {
    forall|x: u32, f: u64| x != s ==> (#[trigger] a.contains_key((x, f)) <==> b.contains_key((x, f))) && (a.contains_key((x, f)) ==> a[(x, f)] == b[(x, f)])
}
proof fn lemma_clear(a: Mempool, b: Mempool, s: u32)
    requires inv(a), others_same(a, b), a.messages@.contains_key(s), b.messages@ =~= a.messages@.insert(s, b.messages@[s]), b.messages@.contains_key(s),
        forall|k: Place| #[trigger] b.messages@[s]@.contains_key(k) ==> a.messages@[s]@.contains_key(k) && b.messages@[s]@[k] == a.messages@[s]@[k],
        paired(b.messages@[s]@, b.live_at_messages_by_fid@, s), shards_same(a.live_at_messages_by_fid@, b.live_at_messages_by_fid@, s),
    ensures inv(b)
{
    assert forall|x: u32, k: Place| #[trigger] waiting(b, x).contains_key(k) implies whole(waiting(b, x)[k]) && sound(b.read_node_mempool, waiting(b, x)[k]) && place_of(waiting(b, x)[k]) == k && (live_msg(waiting(b, x)[k]) ==> indexed(b, x, owner(waiting(b, x)[k]->UserMessage_0)) == Some(k)) by {
        assert(waiting(a, x).contains_key(k));
        if x != s { if live_msg(waiting(a, x)[k]) { assert(indexed(a, x, owner(waiting(a, x)[k]->UserMessage_0)) == Some(k)); } }
    }
    assert forall|x: u32, f: u64| (#[trigger] indexed(b, x, f)) is Some implies waiting(b, x).contains_key(indexed(b, x, f)->Some_0) && live_msg(waiting(b, x)[indexed(b, x, f)->Some_0]) && owner(waiting(b, x)[indexed(b, x, f)->Some_0]->UserMessage_0) == f by {
        if x != s { assert(a.live_at_messages_by_fid@.contains_key((x, f))); assert(indexed(a, x, f) == indexed(b, x, f)); }
    }
}
//@item src/mempool/mempool.rs::MempoolMessagesRequest noclone
impl Mempool {
// a node starts with nothing waiting, the allowances of its settings, and the stores of every shard
//@fn src/mempool/mempool.rs::Mempool::new -> r
    requires every_shard(shard_stores@, num_shards),
    ensures inv(r), forall|s: u32, k: Place| !#[trigger] waiting(r, s).contains_key(k), r.read_node_mempool.num_shards == num_shards, r.read_node_mempool.network == network,
        r.read_node_mempool.shard_stores == shard_stores, (r.rate_limits is Some) == config.enable_rate_limits,
//@rw `mpsc::Receiver<MempoolRequest>` => `mpsc::Receiver<u8>`
//@rw `mpsc::Receiver<MempoolMessagesRequest>` => `mpsc::Receiver<u8>`
//@rw `mpsc::Sender<GossipEvent<SnapchainValidatorContext>>` => `mpsc::Sender<u8>`
//@rw `broadcast::Receiver<ShardChunk>` => `mpsc::Receiver<u8>`
//@rw `broadcast::Receiver<Block>` => `mpsc::Receiver<u8>`
//@rw `shard_stores.clone()` => `vx_same(&shard_stores)`
//@rw `statsd_client.clone()` => `vx_same(&statsd_client)`
//@endfn
//@fn src/mempool/mempool.rs::Mempool::message_exceeds_rate_limits -> r
    requires inv(*old(self)),
    ensures *final(self) == *old(self), allowance(*old(self), *message, r),
//@endfn
//@fn src/mempool/mempool.rs::Mempool::message_already_exists -> r
    requires whole(*message), complete(*message),
    ensures *final(self) == *old(self), r == merged(old(self).read_node_mempool, shard, *message),
//@endfn
//@fn src/mempool/mempool.rs::Mempool::message_is_valid -> r
    requires inv(*old(self)), whole(*message), sound(old(self).read_node_mempool, *message),
    ensures *final(self) == *old(self), fit(*old(self), shard, *message, at_admission, r is Ok),
//@start
    let ghost vx_v = EngineVersion::at(self.read_node_mempool.network, 0);
//@endfn
//@fn src/mempool/mempool.rs::Mempool::remove_live_at_index_for_message
    requires whole(*message), place_of(*message) == (*key).k(),
    ensures others_same(*old(self), *final(self)), final(self).messages == old(self).messages,
        forall|s: u32, f: u64| #[trigger] indexed(*final(self), s, f) == (if live_msg(*message) && s == shard_id && f == owner(message->UserMessage_0) && indexed(*old(self), s, f) == Some((*key).k()) { None } else { indexed(*old(self), s, f) }),
//@rw `self.live_at_messages_by_fid.get(&index_key).is_some_and(|indexed_key| indexed_key == key)` => `vx_is_key(self.live_at_messages_by_fid.get(&index_key), key)`
//@endfn
//@fn src/mempool/mempool.rs::Mempool::prepare_live_at_insert -> r
    requires inv(*old(self)), whole(*message),
    ensures others_same(*old(self), *final(self)), final(self).messages == old(self).messages, inv(*final(self)),
        !live_msg(*message) ==> r is Ok && r->Ok_0 is None && *final(self) == *old(self),
        // the heartbeat to be replaced is the user's own, waits there, and is not newer
        (r is Ok && r->Ok_0 is Some) ==> live_msg(*message) && waiting(*old(self), shard_id).contains_key(r->Ok_0->Some_0.k()) && ({ let e = waiting(*old(self), shard_id)[r->Ok_0->Some_0.k()];
            live_msg(e) && owner(e->UserMessage_0) == owner(message->UserMessage_0) && newer(e->UserMessage_0, message->UserMessage_0) <= 0 }),
        (r is Ok && r->Ok_0 is None && live_msg(*message)) ==> forall|k: Place| #[trigger] waiting(*old(self), shard_id).contains_key(k) ==> !(live_msg(waiting(*old(self), shard_id)[k]) && owner(waiting(*old(self), shard_id)[k]->UserMessage_0) == owner(message->UserMessage_0)),
        r is Err ==> live_msg(*message) && *final(self) == *old(self) && exists|k: Place| #[trigger] waiting(*old(self), shard_id).contains_key(k) && live_msg(waiting(*old(self), shard_id)[k]) && owner(waiting(*old(self), shard_id)[k]->UserMessage_0) == owner(message->UserMessage_0) && newer(waiting(*old(self), shard_id)[k]->UserMessage_0, message->UserMessage_0) > 0,
//@rw `self.live_at_messages_by_fid.get(&index_key).cloned()` => `vx_copied(self.live_at_messages_by_fid.get(&index_key))`
//@after `self.live_at_messages_by_fid.remove(&index_key);`
    proof { lemma_keep(*old(self), *self); }
//@after 1 `self.live_at_messages_by_fid.remove(&index_key);`
    proof { lemma_keep(*old(self), *self); }
//@before `if live_at_lww_compare(`
    proof {
        let k = existing_key.k();
        assert(indexed(*old(self), shard_id, owner(*user_msg)) == Some(k));
        assert(waiting(*old(self), shard_id).contains_key(k) && waiting(*old(self), shard_id)[k] == existing_message);
    }
//@rw `self.messages.get(&shard_id).and_then(|shard_messages| shard_messages.get(&existing_key)).cloned()` => `vx_look(&self.messages, &shard_id, &existing_key)`
//@endfn
//@fn src/mempool/mempool.rs::Mempool::index_live_at_insert
    requires whole(*message),
    ensures others_same(*old(self), *final(self)), final(self).messages == old(self).messages,
        forall|s: u32, f: u64| #[trigger] indexed(*final(self), s, f) == (if live_msg(*message) && s == shard_id && f == owner(message->UserMessage_0) { Some(place_of(*message)) } else { indexed(*old(self), s, f) }),
//@endfn
//@fn src/mempool/mempool.rs::Mempool::pull_messages
    requires inv(*old(self)),
    ensures inv(*final(self)), others_same(*old(self), *final(self)),
        exists|v: Vec<MempoolMessage>| #[trigger] answered(request.message_tx, v) && given(*old(self), *final(self), request.shard_id, request.max_messages_per_block, v@)
            && (v@.len() < request.max_messages_per_block ==> waiting(*final(self), request.shard_id) =~= Map::empty()),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@loops 1
//@loop 0
    invariant inv(*old(self)), inv(*self), others_same(*old(self), *self), given(*old(self), *self, request.shard_id, request.max_messages_per_block, messages@),
    ensures messages@.len() < request.max_messages_per_block ==> waiting(*self, request.shard_id) =~= Map::empty(),
//@loopstart 0
    let ghost vx_b = *self; let ghost vx_v = messages@; let ghost mut vx_k: Place = (MempoolMessageKind::UserMessage, 0, Seq::empty());
//@before `let result`
    proof {
        vx_k = key.k();
        assert forall|s: u32| #[trigger] waiting(*self, s) == (if s == request.shard_id { waiting(vx_b, s).remove(key.k()) } else { waiting(vx_b, s) }) by {
            assert(waiting(*self, s) =~= (if s == request.shard_id { waiting(vx_b, s).remove(key.k()) } else { waiting(vx_b, s) }));
        }
        lemma_out(vx_b, *self, request.shard_id, key.k());
    }
//@rw `None => break,` => `None => { proof { assert(self.messages@ =~= vx_b.messages@); lemma_keep(vx_b, *self); lemma_given(*old(self), vx_b, *self, request.shard_id, None, request.max_messages_per_block, messages@); } break; }`
//@loopend 0
    proof { lemma_given(*old(self), vx_b, *self, request.shard_id, Some(vx_k), request.max_messages_per_block, vx_v); }
//@endfn
//@fn src/mempool/mempool.rs::Mempool::remove_committed_txns
    requires inv(*old(self)), forall|i: int| 0 <= i < transactions@.len() ==> sane(waiting(*old(self), height.shard_index), #[trigger] transactions@[i]),
    ensures inv(*final(self)), others_same(*old(self), *final(self)),
        // what the block holds no longer waits on its shard; nothing else leaves
        forall|s: u32| s != height.shard_index ==> #[trigger] waiting(*final(self), s) == waiting(*old(self), s),
        thinned(waiting(*old(self), height.shard_index), waiting(*final(self), height.shard_index), |k: Place| in_block(transactions@, transactions@.len() as int, k)),
//@loops 3
//@before `for transaction in transactions`
    let ghost vx_q = mempool@; let ghost vx_x = self.live_at_messages_by_fid@; let ghost vx_d = height.shard_index;
    proof {
        assert(vx_q == waiting(*old(self), vx_d));
        assert forall|k: Place| #[trigger] vx_q.contains_key(k) implies place_of(vx_q[k]) == k && (live_msg(vx_q[k]) ==> vx_x.contains_key((vx_d, owner(vx_q[k]->UserMessage_0))) && vx_x[(vx_d, owner(vx_q[k]->UserMessage_0))].k() == k) by { assert(waiting(*old(self), vx_d).contains_key(k)); if live_msg(vx_q[k]) { assert(indexed(*old(self), vx_d, owner(vx_q[k]->UserMessage_0)) == Some(k)); } }
        assert forall|f: u64| #[trigger] vx_x.contains_key((vx_d, f)) implies vx_q.contains_key(vx_x[(vx_d, f)].k()) && live_msg(vx_q[vx_x[(vx_d, f)].k()]) && owner(vx_q[vx_x[(vx_d, f)].k()]->UserMessage_0) == f by { assert(indexed(*old(self), vx_d, f) is Some); }
    }
//@loopstart 0
    let ghost vx_n = it.index@ as int;
    proof { assert(*transaction == transactions@[vx_n]); }
//@loop 0 it
    invariant it.seq().map_values(|v: &Transaction| *v) == transactions@, vx_d == height.shard_index, paired(mempool@, self.live_at_messages_by_fid@, vx_d), shards_same(vx_x, self.live_at_messages_by_fid@, vx_d),
        forall|i: int| 0 <= i < transactions@.len() ==> sane(vx_q, #[trigger] transactions@[i]),
        thinned(vx_q, mempool@, |k: Place| in_block(transactions@, it.index@ as int, k)),
        self.rate_limits == old(self).rate_limits, self.key_add_rate_limits == old(self).key_add_rate_limits, self.live_at_rate_limits == old(self).live_at_rate_limits, self.read_node_mempool == old(self).read_node_mempool,
//@loop 1
    invariant vx_d == height.shard_index, paired(mempool@, self.live_at_messages_by_fid@, vx_d), shards_same(vx_x, self.live_at_messages_by_fid@, vx_d),
        sane(vx_q, *transaction),
        thinned(vx_q, mempool@, |k: Place| in_block(transactions@, vx_n, k) || in_users(transaction.user_messages@, vx_i1 as int, k)),
        self.rate_limits == old(self).rate_limits, self.key_add_rate_limits == old(self).key_add_rate_limits, self.live_at_rate_limits == old(self).live_at_rate_limits, self.read_node_mempool == old(self).read_node_mempool,
//@loop 2
    invariant vx_d == height.shard_index, paired(mempool@, self.live_at_messages_by_fid@, vx_d), shards_same(vx_x, self.live_at_messages_by_fid@, vx_d),
        sane(vx_q, *transaction),
        thinned(vx_q, mempool@, |k: Place| in_block(transactions@, vx_n, k) || in_users(transaction.user_messages@, transaction.user_messages@.len() as int, k) || in_system(transaction.system_messages@, vx_i2 as int, k)),
        self.rate_limits == old(self).rate_limits, self.key_add_rate_limits == old(self).key_add_rate_limits, self.live_at_rate_limits == old(self).live_at_rate_limits, self.read_node_mempool == old(self).read_node_mempool,
//@loopafter 0
    proof {
        assert(waiting(*self, vx_d) == self.messages@[vx_d]@);
        assert forall|k: Place| #[trigger] self.messages@[vx_d]@.contains_key(k) implies vx_q.contains_key(k) && self.messages@[vx_d]@[k] == vx_q[k] by {}
        lemma_clear(*old(self), *self, vx_d);
    }
//@rw `self.live_at_messages_by_fid.get(&index_key).is_some_and(|indexed_key| indexed_key == &key)` => `vx_is_key(self.live_at_messages_by_fid.get(&index_key), &key)`
//@endfn
//@fn src/mempool/mempool.rs::Mempool::insert_into_shard -> r
    requires inv(*old(self)), whole(message), sound(old(self).read_node_mempool, message),
    ensures inv(*final(self)), others_same(*old(self), *final(self)),
        // what is refused leaves what waits as it was
        r is Err ==> forall|s: u32| #[trigger] waiting(*final(self), s) == waiting(*old(self), s),
        // what is taken was not waiting, is fit, waits under its key, and replaces nothing but an older heartbeat of its user
        r is Ok ==> {
            &&& !waiting(*old(self), shard_id).contains_key(place_of(message)) && fit(*old(self), shard_id, message, true, true)
            &&& waiting(*final(self), shard_id).contains_key(place_of(message)) && waiting(*final(self), shard_id)[place_of(message)] == message
            &&& forall|s: u32, k: Place| #[trigger] waiting(*final(self), s).contains_key(k) ==> (s == shard_id && k == place_of(message)) || (waiting(*old(self), s).contains_key(k) && waiting(*final(self), s)[k] == waiting(*old(self), s)[k])
            &&& forall|s: u32, k: Place| #[trigger] waiting(*old(self), s).contains_key(k) && !waiting(*final(self), s).contains_key(k) ==> s == shard_id && live_msg(message) && live_msg(waiting(*old(self), s)[k])
                && owner(waiting(*old(self), s)[k]->UserMessage_0) == owner(message->UserMessage_0) && newer(waiting(*old(self), s)[k]->UserMessage_0, message->UserMessage_0) <= 0
        },
//@rw `match self.messages.get_mut(&shard_id) { Some(shard_messages) => { if shard_messages.contains_key(` => `match self.messages.get(&shard_id) { Some(shard_messages) => { if shard_messages.contains_key(`
//@after `let live_at_to_replace = self.prepare_live_at_insert(shard_id, &message)?;`
    let ghost vx_a = *self; let ghost vx_o: Option<Place> = if live_at_to_replace is Some { Some(live_at_to_replace->Some_0.k()) } else { None };
    proof { assert forall|s: u32| #[trigger] waiting(vx_a, s) == waiting(*old(self), s) by {} }
//@after `self.index_live_at_insert(shard_id, &message);`
    proof {
        assert forall|s: u32| #[trigger] waiting(*self, s) == (if s == shard_id { swapped(waiting(vx_a, s), vx_o, message) } else { waiting(vx_a, s) }) by {
            assert(waiting(*self, s) =~= (if s == shard_id { swapped(waiting(vx_a, s), vx_o, message) } else { waiting(vx_a, s) }));
        }
        lemma_take(vx_a, *self, shard_id, message, vx_o);
    }
//@rw `message.clone()` => `vx_same(&message)`
//@endfn
//@fn src/mempool/mempool.rs::Mempool::insert -> r
    requires inv(*old(self)), sound(old(self).read_node_mempool, message), 0 < old(self).read_node_mempool.num_shards < u32::MAX,
    ensures inv(*final(self)), others_same(*old(self), *final(self)),
        !whole(message) ==> r is Err && *final(self) == *old(self),
        // what waits waited before or is the message, and nothing is lost but an older heartbeat of its user
        grew(*old(self), *final(self), message),
        // what is accepted waits on every shard that must have it
        r is Ok ==> exists|t: int| waits_on(*final(self), #[trigger] held_on(message, old(self).read_node_mempool.num_shards, EngineVersion::at(old(self).read_node_mempool.network, t)), message),
//@rw `message.clone()` => `vx_same(&message)`
//@rw `source.clone()` => `vx_same(&source)`
//@rw `errors[0].clone()` => `vx_same(&errors[0])`
//@loops 1
//@after `let shard_ids = self.read_node_mempool.route_mempool_message(&message);`
    let ghost vx_s = shard_ids@;
    let ghost vx_t = choose|t: int| vx_s =~= held_on(message, old(self).read_node_mempool.num_shards, #[trigger] EngineVersion::at(old(self).read_node_mempool.network, t));
    proof { assert(vx_s == held_on(message, old(self).read_node_mempool.num_shards, EngineVersion::at(old(self).read_node_mempool.network, vx_t))); }
//@loop 0 it
    invariant inv(*self), others_same(*old(self), *self), whole(message), sound(old(self).read_node_mempool, message), grew(*old(self), *self, message),
        errors@.len() == 0 ==> waits_on(*self, vx_s.take(it.index@ as int), message), it.seq() == vx_s,
//@loopstart 0
    let ghost vx_b = *self;
//@loopend 0
    proof {
        assert(shard_id == vx_s[it.index@ as int]);
        assert forall|s: u32, k: Place| #[trigger] waiting(*self, s).contains_key(k) implies (waiting(*old(self), s).contains_key(k) && waiting(*self, s)[k] == waiting(*old(self), s)[k]) || (k == place_of(message) && waiting(*self, s)[k] == message && !waiting(*old(self), s).contains_key(k)) by {
            if waiting(vx_b, s).contains_key(k) { }
        }
        assert forall|s: u32, k: Place| #[trigger] waiting(*old(self), s).contains_key(k) && !waiting(*self, s).contains_key(k) implies k != place_of(message) && live_msg(message) && live_msg(waiting(*old(self), s)[k]) && owner(waiting(*old(self), s)[k]->UserMessage_0) == owner(message->UserMessage_0) && newer(waiting(*old(self), s)[k]->UserMessage_0, message->UserMessage_0) <= 0 by {
            if waiting(vx_b, s).contains_key(k) { assert(waiting(vx_b, s)[k] == waiting(*old(self), s)[k]); }
        }
        if errors@.len() == 0 {
            let now = vx_s.take(it.index@ + 1);
            assert forall|j: int| 0 <= j < now.len() implies waiting(*self, #[trigger] now[j]).contains_key(place_of(message)) && waiting(*self, now[j])[place_of(message)] == message by {
                if j < it.index@ { assert(vx_s.take(it.index@ as int)[j] == now[j]); assert(waiting(vx_b, now[j]).contains_key(place_of(message))); }
            }
        }
    }
//@loopafter 0
    proof { assert(vx_s.take(vx_s.len() as int) =~= vx_s); }
//@endfn
}
// of a user's heartbeats at most one waits on a shard
proof fn theorem_one_heartbeat(me: Mempool, s: u32, a: Place, b: Place)
    requires inv(me), waiting(me, s).contains_key(a), waiting(me, s).contains_key(b), live_msg(waiting(me, s)[a]), live_msg(waiting(me, s)[b]),
        owner(waiting(me, s)[a]->UserMessage_0) == owner(waiting(me, s)[b]->UserMessage_0)
    ensures a == b { assert(indexed(me, s, owner(waiting(me, s)[a]->UserMessage_0)) == Some(a)); assert(indexed(me, s, owner(waiting(me, s)[b]->UserMessage_0)) == Some(b)); }
} // verus!
fn main() {}
