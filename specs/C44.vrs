// What a shard accepts and commits: only blocks whose re-execution reaches the roots they name; a refused block leaves no trace.
//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@include time.vrs
//@include lex.vrs
//@include seqs.vrs
//@include version.vrs
//@include blake.vrs
//@include maps.vrs
//@proto HubEvent HubEventType BlockConfirmedBody Transaction ShardChunk ShardHeader Height BlockEvent ValidatorMessage FarcasterNetwork
use proto::{HubEvent, HubEventType, Transaction, ShardChunk, Height, BlockEvent, ValidatorMessage, FarcasterNetwork, ShardHeader};
//@item src/consensus/proposer.rs::ProposalSource
#[derive(Debug)] pub enum EngineError { HashMismatch, Other }
#[verifier::external_body] pub struct MessageValidationError { x: u8 }
// ---- the database, the trie over it, a batch of writes, the numbering of events: opaque values
#[verifier::external_body] pub struct Db { x: u8 }
#[verifier::external_body] pub struct Trie { x: u8 }
#[verifier::external_body] pub struct EventHandler { x: u8 }
#[verifier::external_body] pub struct RocksDbTransactionBatch { x: u8 }
#[verifier::external_body] pub struct Metrics { x: u8 }
pub struct BlockEventStore { pub x: u8 }
pub struct ShardStore { pub x: u8 }
pub uninterp spec fn trie_of(db: Db) -> Trie;
pub uninterp spec fn root_of(t: Trie) -> Option<Seq<u8>>;
pub uninterp spec fn written(db: Db, b: RocksDbTransactionBatch) -> Db;
pub uninterp spec fn from_height(h: u64) -> EventHandler;
pub uninterp spec fn no_writes() -> RocksDbTransactionBatch;
pub uninterp spec fn next_event(g: EventHandler, b: RocksDbTransactionBatch, e: HubEvent) -> (EventHandler, RocksDbTransactionBatch, HubEvent);
pub uninterp spec fn last_seqnum(s: BlockEventStore) -> Result<u64, EngineError>;
impl RocksDbTransactionBatch { #[verifier::external_body] pub fn new() -> (r: Self) ensures r == no_writes() { unimplemented!() } }
impl Clone for RocksDbTransactionBatch { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Db { #[verifier::external_body] pub fn commit(&mut self, b: RocksDbTransactionBatch) -> (r: Result<(), u8>) ensures r is Ok, *final(self) == written(*old(self), b) { unimplemented!() } }
impl Trie {
    #[verifier::external_body] pub fn root_hash(&self) -> (r: Result<Vec<u8>, EngineError>) ensures (r is Ok) == (root_of(*self) is Some), r is Ok ==> r->Ok_0@ == root_of(*self)->Some_0 { unimplemented!() }
    // reading the trie's top again drops whatever was built in memory over it
    #[verifier::external_body] pub fn reload(&mut self, db: &Db) -> (r: Result<(), EngineError>) ensures r is Ok, *final(self) == trie_of(*db) { unimplemented!() }
}
impl EventHandler {
    #[verifier::external_body] pub fn set_current_height(&mut self, h: u64) ensures *final(self) == from_height(h) { unimplemented!() }
    #[verifier::external_body] pub fn commit_transaction(&mut self, b: &mut RocksDbTransactionBatch, e: &mut HubEvent) -> (r: Result<u64, u8>)
        ensures r is Ok, (*final(self), *final(b), *final(e)) == next_event(*old(self), *old(b), *old(e)) { unimplemented!() }
}
impl BlockEventStore { #[verifier::external_body] pub fn max_seqnum(&self) -> (r: Result<u64, EngineError>) ensures r == last_seqnum(*self) { unimplemented!() } }
impl ShardStore { #[verifier::external_body] pub fn put_shard_chunk(&mut self, c: &ShardChunk) -> (r: Result<(), HubError>) { unimplemented!() } }
impl Metrics {
    #[verifier::external_body] pub fn time_with_shard(&self, n: &str, v: u64) { unimplemented!() }
    #[verifier::external_body] pub fn gauge(&self, n: &str, v: u64) { unimplemented!() }
    #[verifier::external_body] pub fn count(&self, n: &str, v: u64, t: Vec<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] pub fn make_count_fn(&self) -> (r: Counter) { unimplemented!() }
}
pub uninterp spec fn version_at(t: u64, net: FarcasterNetwork) -> EngineVersion;
impl EngineVersion { #[verifier::external_body] pub fn version_for(t: &FarcasterTime, net: FarcasterNetwork) -> (r: EngineVersion) ensures r == version_at(t.time, net) { unimplemented!() } }
#[verifier::external_body] pub fn vx_metric() { unimplemented!() }
pub struct Counter { pub x: u8 }
impl Counter { #[verifier::external_body] pub fn add(&self, n: &str, v: u64, t: Vec<(&str, &str)>) { unimplemented!() } }
pub struct Sender { pub x: u8 }
impl Sender { #[verifier::external_body] pub fn send(&self, e: HubEvent) -> (r: Result<usize, u8>) { unimplemented!() } }
pub struct Senders { pub events_tx: Sender }
pub mod merkle_trie { #[verifier::external_body] pub struct Context { x: u8 } impl Context { #[verifier::external_body] pub fn with_callback<F: Fn((u64, u64))>(f: F) -> (r: Context) { unimplemented!() } } }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExInstant(std::time::Instant);
pub assume_specification [std::time::Instant::now] () -> std::time::Instant;
pub assume_specification [std::time::Instant::elapsed] (_0: &std::time::Instant) -> std::time::Duration;
pub assume_specification [std::time::Duration::as_millis] (_0: &std::time::Duration) -> u128;
#[verifier::external_body] pub fn vx_differ(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_same<T>(m: &T) -> (r: T) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn vx_events(v: &mut Vec<HubEvent>, w: Vec<HubEvent>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
pub struct Stores { pub trie: Trie, pub event_handler: EventHandler, pub block_event_store: BlockEventStore, pub shard_store: ShardStore }
//@item src/storage/store/engine.rs::ShardStateChange noclone
//@item src/storage/store/engine.rs::CachedTransaction noclone
impl Clone for CachedTransaction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct ShardEngine { pub shard_id: u32, pub network: FarcasterNetwork, pub db: Db, pub stores: Stores, pub metrics: Metrics, pub senders: Senders, pub pending_txn: Option<CachedTransaction> }
// ---- what executing a block does
pub struct Seen { pub trie: Trie, pub gen: EventHandler, pub batch: RocksDbTransactionBatch, pub seq: u64, pub events: Seq<HubEvent> }
// one transaction, as replay_snapchain_txn executes it: the account root and what is then (assumed: the same whoever asks)
pub uninterp spec fn one(db: Db, s: Seen, tx: Transaction, v: EngineVersion, t: FarcasterTime) -> Option<(Seq<u8>, Seen)>;
pub open spec fn plain(s: Seen) -> Seen { Seen { events: Seq::empty(), ..s } }
pub open spec fn run(db: Db, s: Seen, txs: Seq<Transaction>, n: nat, v: EngineVersion, t: FarcasterTime) -> Option<Seen> decreases n {
    if n == 0 { Some(s) } else {
        match run(db, s, txs, (n - 1) as nat, v, t) { None => None, Some(a) => match one(db, plain(a), txs[n - 1], v, t) {
            Some((root, b)) => if root == txs[n - 1].account_root@ { Some(Seen { events: a.events + b.events, ..b }) } else { None }, None => None } }
    }
}
// from this database, numbering events from here, these transactions reach this root, each account's root on the way
pub open spec fn agreed(e: ShardEngine, txs: Seq<Transaction>, root: Seq<u8>, v: EngineVersion, t: FarcasterTime, b: RocksDbTransactionBatch) -> Option<Seen> {
    match last_seqnum(e.stores.block_event_store) {
        Err(_) => None,
        Ok(q) => match run(e.db, Seen { trie: e.stores.trie, gen: e.stores.event_handler, batch: b, seq: q, events: Seq::empty() }, txs, txs.len(), v, t) {
            Some(s) => if root_of(s.trie) == Some(root) { Some(s) } else { None }, None => None }
    }
}
pub open spec fn at_height(e: ShardEngine, h: u64) -> ShardEngine { ShardEngine { stores: Stores { event_handler: from_height(h), ..e.stores }, ..e } }
// all but the trie in memory and the numbering of events
pub open spec fn rest_same(a: ShardEngine, b: ShardEngine) -> bool {
    a.db == b.db && a.shard_id == b.shard_id && a.network == b.network && a.pending_txn == b.pending_txn && a.stores.block_event_store == b.stores.block_event_store && a.stores.shard_store == b.stores.shard_store
}
pub open spec fn settled(e: ShardEngine) -> bool { e.stores.trie == trie_of(e.db) }
proof fn lemma_stuck(db: Db, s: Seen, txs: Seq<Transaction>, n: nat, m: nat, v: EngineVersion, t: FarcasterTime)
    requires n <= m, run(db, s, txs, n, v, t) is None
    ensures run(db, s, txs, m, v, t) is None
    decreases m { if n < m { lemma_stuck(db, s, txs, n, (m - 1) as nat, v, t); } }
// ---- the events a block carries
pub open spec fn carried_by(ms: Seq<ValidatorMessage>) -> Seq<BlockEvent> decreases ms.len() {
    if ms.len() == 0 { Seq::empty() } else { carried_by(ms.drop_last()) + (match ms.last().block_event { Some(b) => seq![b], None => Seq::empty() }) }
}
pub open spec fn carried(txs: Seq<Transaction>) -> Seq<BlockEvent> decreases txs.len() { if txs.len() == 0 { Seq::empty() } else { carried(txs.drop_last()) + carried_by(txs.last().system_messages@) } }
pub open spec fn hashes(b: Seq<BlockEvent>) -> Seq<u8> decreases b.len() { if b.len() == 0 { Seq::empty() } else { hashes(b.drop_last()) + b.last().hash@ } }
pub open spec fn events_hash(txs: Seq<Transaction>) -> Seq<u8> { if carried(txs).len() == 0 { Seq::empty() } else { blake3_of(hashes(carried(txs))) } }
#[verifier::external_body] pub fn vx_carried<'a>(txs: &'a [Transaction]) -> (r: Vec<&'a BlockEvent>) ensures r@.map_values(|b: &BlockEvent| *b) == carried(txs@) { unimplemented!() }
// what is kept of a block that was executed
pub open spec fn kept(c: CachedTransaction, txs: Seq<Transaction>, root: Seq<u8>, s: Seen) -> bool {
    c.shard_root@ == root && c.events@ == s.events && c.max_block_event_seqnum == s.seq && c.txn == s.batch && c.block_events_hash@ == events_hash(txs)
}
// what is kept may stand for a block only if it reached that block's root and saw that block's events
pub open spec fn stands_for(c: CachedTransaction, txs: Seq<Transaction>, root: Seq<u8>) -> bool { c.shard_root@ == root && c.block_events_hash@ == events_hash(txs) }
impl HubEvent {
//@fn src/core/message.rs::<HubEventExt for HubEvent>::new_event -> r
    ensures r.r#type == event_type as i32, r.body == Some(body),
//@endfn
}
// no Vec fills memory
#[verifier::external_body] pub proof fn vx_vec_bound<T>(v: &Vec<T>) ensures v@.len() < usize::MAX { unimplemented!() }
pub open spec fn news(e: HubEvent, c: ShardChunk, n: nat, seq: u64) -> bool {
    e.r#type == HubEventType::BlockConfirmed as i32 && ({ let h = c.header->Some_0; match e.body { Some(proto::hub_event::Body::BlockConfirmedBody(b)) => b.block_number == h.height->Some_0.block_number && b.shard_index == h.height->Some_0.shard_index
        && b.timestamp == h.timestamp && b.block_hash@ == c.hash@ && b.total_events == n + 1 && b.max_block_event_seqnum == seq, _ => false } })
}
// executing a decided block again from what is stored
pub open spec fn replayed(e: ShardEngine, c: ShardChunk) -> Option<Seen> {
    let h = c.header->Some_0;
    agreed(at_height(e, h.height->Some_0.block_number), c.transactions@, h.shard_root@, version_at(h.timestamp, e.network), FarcasterTime { time: h.timestamp }, no_writes())
}
// what is written is what was kept of a block with this root and these events, or else what executing this block gives; never anything else
pub open spec fn committed(a: ShardEngine, b: ShardEngine, c: ShardChunk) -> bool {
    let h = c.header->Some_0;
    if a.pending_txn is Some && stands_for(a.pending_txn->Some_0, c.transactions@, h.shard_root@) {
        let p = a.pending_txn->Some_0;
        exists|e: HubEvent| #[trigger] news(e, c, p.events@.len(), p.max_block_event_seqnum) && b.db == written(a.db, next_event(a.stores.event_handler, p.txn, e).1)
    } else {
        let s = replayed(a, c)->Some_0;
        exists|e: HubEvent| #[trigger] news(e, c, s.events.len(), s.seq) && b.db == written(a.db, next_event(s.gen, s.batch, e).1)
    }
}
#[verifier::external_body] pub fn vx_when(t: Option<FarcasterTime>) -> (r: FarcasterTime) ensures t is Some ==> r == t->Some_0 { unimplemented!() }
// a node that cannot make its own proposal stops
proof fn lemma_next(db: Db, s: Seen, p: Seq<Transaction>, k: nat, a: Seen, v: EngineVersion, t: FarcasterTime)
    requires k < p.len(), run(db, s, p, k, v, t) == Some(a)
    ensures forall|x: Transaction| unsigned(p[k as int], x) ==> run(db, s, #[trigger] p.update(k as int, x), k + 1, v, t) == (match one(db, plain(a), p[k as int], v, t) {
        Some((root, b)) => if root == x.account_root@ { Some(Seen { events: a.events + b.events, ..b }) } else { None }, None => None }),
{
    assert forall|x: Transaction| unsigned(p[k as int], x) implies run(db, s, #[trigger] p.update(k as int, x), k + 1, v, t) == (match one(db, plain(a), p[k as int], v, t) {
        Some((root, b)) => if root == x.account_root@ { Some(Seen { events: a.events + b.events, ..b }) } else { None }, None => None }) by {
        let q = p.update(k as int, x);
        ax_root_unread(db, plain(a), p[k as int], x, v, t);
        lemma_run_prefix(db, s, p, q, k, v, t);
        assert(run(db, s, q, ((k + 1) - 1) as nat, v, t) == Some(a));
    }
}
pub trait OrStop<T>: Sized { spec fn vx_ok(self) -> Option<T>; fn vx_or_stop(self) -> (r: T) ensures self.vx_ok() == Some(r); }
impl<T, E> OrStop<T> for Result<T, E> { open spec fn vx_ok(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } } #[verifier::external_body] fn vx_or_stop(self) -> (r: T) { unimplemented!() } }
// which transactions a proposer makes of what waits is not specified here
#[verifier::external_body] pub struct MempoolMessage { x: u8 }
pub struct Picked { pub x: u8 }
#[verifier::external_body] pub fn vx_picked(m: Vec<MempoolMessage>) -> (r: Result<Picked, EngineError>) { unimplemented!() }
impl Picked { #[verifier::external_body] pub fn vx_kept(self) -> (r: Self) { unimplemented!() } #[verifier::external_body] pub fn collect_vec(self) -> (r: Vec<Transaction>) { unimplemented!() } }
// executing a transaction does not read the root it names
#[verifier::external_body] pub proof fn ax_root_unread(db: Db, s: Seen, a: Transaction, b: Transaction, v: EngineVersion, t: FarcasterTime)
    requires unsigned(a, b) ensures one(db, s, a, v, t) == one(db, s, b, v, t) { unimplemented!() }
pub open spec fn unsigned(a: Transaction, b: Transaction) -> bool { a.fid == b.fid && a.user_messages == b.user_messages && a.system_messages == b.system_messages }
proof fn lemma_run_prefix(db: Db, s: Seen, p: Seq<Transaction>, q: Seq<Transaction>, n: nat, v: EngineVersion, t: FarcasterTime)
    requires n <= p.len(), n <= q.len(), p.take(n as int) =~= q.take(n as int)
    ensures run(db, s, p, n, v, t) == run(db, s, q, n, v, t)
    decreases n
{ if n > 0 { assert(p.take(n as int)[n - 1] == q.take(n as int)[n - 1]); assert(p.take(n - 1) =~= p.take(n as int).take(n - 1)); assert(q.take(n - 1) =~= q.take(n as int).take(n - 1)); lemma_run_prefix(db, s, p, q, (n - 1) as nat, v, t); } }
impl ShardEngine {
//@fn src/storage/store/engine.rs::ShardEngine::txn_summary external
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::txns_summary external
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::version_for -> r
    ensures r == version_at(timestamp.time, self.network),
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::get_last_shard_chunk -> r external
    ensures r is Some ==> r->Some_0.header is Some,
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::replay_snapchain_txn -> r external
    ensures rest_same(*old(self), *final(self)),
        source != ProposalSource::Simulate ==> match one(old(self).db, Seen { trie: old(self).stores.trie, gen: old(self).stores.event_handler, batch: *old(txn_batch), seq: last_block_event_seqnum, events: Seq::empty() }, *snapchain_txn, version, *timestamp) {
            None => r is Err,
            Some((root, s)) => r is Ok && r->Ok_0.0@ == root && r->Ok_0.1@ == s.events && r->Ok_0.3 == s.seq && final(self).stores.trie == s.trie && final(self).stores.event_handler == s.gen && *final(txn_batch) == s.batch,
        },
//@rw `mut last_block_event_seqnum: u64` => `last_block_event_seqnum: u64`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::start_round
    ensures rest_same(ShardEngine { pending_txn: None, ..*old(self) }, *final(self)), final(self).stores.trie == old(self).stores.trie, final(self).stores.event_handler == from_height(height.block_number),
//@rw `_round: Round` => `_round: u8`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::replay_proposal -> r
    requires source != ProposalSource::Simulate,
    ensures rest_same(*old(self), *final(self)),
        match agreed(*old(self), transactions@, shard_root@, version, *timestamp, *old(txn_batch)) {
            None => r is Err,
            Some(s) => r is Ok && r->Ok_0.0@ == s.events && r->Ok_0.1 == s.seq && *final(txn_batch) == s.batch && final(self).stores.trie == s.trie && final(self).stores.event_handler == s.gen,
        },
//@before `for snapchain_txn in transactions`
    let ghost vx_s = Seen { trie: self.stores.trie, gen: self.stores.event_handler, batch: *txn_batch, seq: max_block_event_seqnum, events: Seq::empty() };
    proof { assert(events@ =~= Seq::<HubEvent>::empty()); }
//@loops 1
//@loop 0 it
    invariant rest_same(*old(self), *self), source != ProposalSource::Simulate, it.seq().map_values(|v: &Transaction| *v) =~= transactions@,
        last_seqnum(old(self).stores.block_event_store) == Ok::<u64, EngineError>(vx_s.seq), vx_s == (Seen { trie: old(self).stores.trie, gen: old(self).stores.event_handler, batch: *old(txn_batch), seq: vx_s.seq, events: Seq::empty() }),
        run(old(self).db, vx_s, transactions@, it.index@ as nat, version, *timestamp) == Some(Seen { trie: self.stores.trie, gen: self.stores.event_handler, batch: *txn_batch, seq: max_block_event_seqnum, events: events@ }),
//@loopstart 0
    proof {
        assert(*snapchain_txn == transactions@[it.index@ as int]);
        let vx_a = Seen { trie: self.stores.trie, gen: self.stores.event_handler, batch: *txn_batch, seq: max_block_event_seqnum, events: events@ };
        let vx_n = (it.index@ + 1) as nat;
        assert(run(old(self).db, vx_s, transactions@, (vx_n - 1) as nat, version, *timestamp) == Some(vx_a));
        assert(transactions@[vx_n - 1] == *snapchain_txn);
        assert(run(old(self).db, vx_s, transactions@, vx_n, version, *timestamp) == (match one(old(self).db, plain(vx_a), *snapchain_txn, version, *timestamp) {
            Some((root, b)) => if root == snapchain_txn.account_root@ { Some(Seen { events: vx_a.events + b.events, ..b }) } else { None }, None => None }));
        if run(old(self).db, vx_s, transactions@, (it.index@ + 1) as nat, version, *timestamp) is None { lemma_stuck(old(self).db, vx_s, transactions@, (it.index@ + 1) as nat, transactions@.len(), version, *timestamp); }
    }
//@rw `source.clone()` => `vx_same(&source)`
//@rw `&account_root != &snapchain_txn.account_root` => `vx_differ(&account_root, &snapchain_txn.account_root)`
//@rw `&root1 != shard_root` => `vx_differ(&root1, shard_root)`
//@rw `root_hash != parent_shard_root` => `vx_differ(&root_hash, &parent_shard_root)`
//@rw `events.extend(txn_events)` => `vx_events(&mut events, txn_events)`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::prepare_proposal -> r
    ensures rest_same(*old(self), *final(self)),
        // what it proposes is a block that executing it again from the same state accepts
        r is Ok ==> (r->Ok_0.version == version_at(timestamp.time, old(self).network) && r->Ok_0.timestamp == *timestamp && r->Ok_0.shard_id == shard_id
            && (match agreed(*old(self), r->Ok_0.transactions@, r->Ok_0.new_state_root@, r->Ok_0.version, *timestamp, *old(txn_batch)) {
                None => false, Some(s) => r->Ok_0.events@ == s.events && r->Ok_0.max_block_event_seqnum == s.seq && *final(txn_batch) == s.batch })),
//@rw `MempoolPoller::create_transactions_from_mempool(messages)?.into_iter()` => `vx_picked(messages)?`
//@rwcall `.filter_map(` => `.vx_kept()`
//@before `for snapchain_txn in`
    let ghost vx_s = Seen { trie: self.stores.trie, gen: self.stores.event_handler, batch: *txn_batch, seq: max_block_event_seqnum, events: Seq::empty() };
    proof { assert(events@ =~= Seq::<HubEvent>::empty()); }
//@rw `validation_error_count += validation_errors.len();` => `vx_metric();`
//@rw `for snapchain_txn in &mut snapchain_txns {` => `let vx_z = snapchain_txns.len(); for vx_k in 0..vx_z invariant vx_z == snapchain_txns@.len(), rest_same(*old(self), *self), version == version_at(timestamp.time, old(self).network), last_seqnum(old(self).stores.block_event_store) == Ok::<u64, EngineError>(vx_s.seq), vx_s == (Seen { trie: old(self).stores.trie, gen: old(self).stores.event_handler, batch: *old(txn_batch), seq: vx_s.seq, events: Seq::empty() }), run(old(self).db, vx_s, snapchain_txns@, vx_k as nat, version, *timestamp) == Some(Seen { trie: self.stores.trie, gen: self.stores.event_handler, batch: *txn_batch, seq: max_block_event_seqnum, events: events@ }),  { let ghost vx_was = snapchain_txns@; let ghost vx_a = Seen { trie: self.stores.trie, gen: self.stores.event_handler, batch: *txn_batch, seq: max_block_event_seqnum, events: events@ }; proof { lemma_next(old(self).db, vx_s, vx_was, vx_k as nat, vx_a, version, *timestamp); } let snapchain_txn = &mut snapchain_txns[vx_k];`
//@rw `&snapchain_txn, txn_batch` => `&*snapchain_txn, txn_batch`
//@rwcall `self.metrics.publish_transaction_counts(` => `vx_metric()`
//@rwcall `self.metrics.count(` => `vx_metric()`
//@rw `events.extend(txn_events)` => `vx_events(&mut events, txn_events)`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::propose_state_change -> r
    requires settled(*old(self)),
    ensures settled(*final(self)), rest_same(ShardEngine { pending_txn: final(self).pending_txn, ..*old(self) }, *final(self)),
        timestamp is Some ==> r.timestamp == timestamp->Some_0, r.version == version_at(r.timestamp.time, old(self).network), r.shard_id == shard,
        agreed(*old(self), r.transactions@, r.new_state_root@, r.version, r.timestamp, no_writes()) is Some,
        final(self).pending_txn is Some && kept(final(self).pending_txn->Some_0, r.transactions@, r.new_state_root@, agreed(*old(self), r.transactions@, r.new_state_root@, r.version, r.timestamp, no_writes())->Some_0),
        // in the round of a height: the other nodes accept it, and so does this one
        forall|h: u64| old(self).stores.event_handler == from_height(h) ==> agreed(#[trigger] at_height(*old(self), h), r.transactions@, r.new_state_root@, r.version, r.timestamp, no_writes()) is Some,
//@rw `timestamp.unwrap_or_else(FarcasterTime::current)` => `vx_when(timestamp)`
//@rw `.unwrap(); self.stores` => `.vx_or_stop(); self.stores`
//@rw `result.events.clone()` => `vx_same(&result.events)`
//@rwcall `count_fn(` => `vx_metric()`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::compute_block_events_hash -> r
    ensures r@ =~= events_hash(transactions@),
//@loops 1
//@loop 0 it
    invariant it.seq().map_values(|b: &&BlockEvent| **b) =~= carried(transactions@), events_hasher@ == hashes(carried(transactions@).take(it.index@ as int)),
//@loopstart 0
    proof {
        assert(**event == carried(transactions@)[it.index@ as int]);
        assert(carried(transactions@).take(it.index@ + 1).drop_last() =~= carried(transactions@).take(it.index@ as int));
    }
//@loopafter 0
    proof { assert(carried(transactions@).take(carried(transactions@).len() as int) =~= carried(transactions@)); }
//@rw `transactions.iter().flat_map(|txn| &txn.system_messages).filter_map(|msg| msg.block_event.as_ref()).collect()` => `vx_carried(transactions)`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::validate_state_change -> r
    requires settled(*old(self)),
    ensures settled(*final(self)), final(self).db == old(self).db,
        // accepted exactly when it reaches its root from what is stored, whatever was tried before
        r <==> agreed(at_height(*old(self), height.block_number), shard_state_change.transactions@, shard_state_change.new_state_root@, shard_state_change.version, shard_state_change.timestamp, no_writes()) is Some,
        r ==> final(self).pending_txn is Some && kept(final(self).pending_txn->Some_0, shard_state_change.transactions@, shard_state_change.new_state_root@, agreed(at_height(*old(self), height.block_number), shard_state_change.transactions@, shard_state_change.new_state_root@, shard_state_change.version, shard_state_change.timestamp, no_writes())->Some_0),
        // refused: nothing of it is left
        !r ==> rest_same(*old(self), *final(self)),
//@rwcall `count_fn(` => `vx_metric()`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::compute_event_counts_by_type external
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::emit_commit_metrics external
    ensures *final(self) == *old(self),
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::post_commit external
    ensures rest_same(*old(self), *final(self)), final(self).stores == old(self).stores,
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::is_read_only -> r external
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::commit_and_emit_events
    requires shard_chunk.header is Some, shard_chunk.header->Some_0.height is Some,
    ensures settled(*final(self)), final(self).pending_txn == old(self).pending_txn,
        // what is written is the batch and the news of the block, in one write
        exists|e: HubEvent| #[trigger] news(e, *shard_chunk, events@.len(), max_block_event_seqnum) && final(self).db == written(old(self).db, next_event(old(self).stores.event_handler, txn, e).1),
//@start
    proof { vx_vec_bound(&events); }
    let ghost vx_n = events@.len(); let ghost vx_t = txn;
//@before `let _block_confirmed_id`
    let ghost vx_e = block_confirmed;
    proof { assert(news(vx_e, *shard_chunk, vx_n, max_block_event_seqnum)); }
//@rw `_ = self.emit_commit_metrics(` => `let _ = self.emit_commit_metrics(`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::is_cached_txn_valid -> r
    ensures r == stands_for(*cached_txn, transactions@, shard_root@),
//@rw `&cached_txn.shard_root != shard_root` => `vx_differ(&cached_txn.shard_root, shard_root)`
//@rw `computed_hash != cached_txn.block_events_hash` => `vx_differ(&computed_hash, &cached_txn.block_events_hash)`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::commit_shard_chunk
    requires settled(*old(self)), shard_chunk.header is Some, shard_chunk.header->Some_0.height is Some,
        // a decided block is one that reaches its root (else the node stops rather than commit it)
        replayed(*old(self), *shard_chunk) is Some || (old(self).pending_txn is Some && stands_for(old(self).pending_txn->Some_0, shard_chunk.transactions@, shard_chunk.header->Some_0.shard_root@)),
    ensures settled(*final(self)),
        committed(*old(self), *final(self), *shard_chunk),
//@rw `self.pending_txn.clone()` => `vx_same(&self.pending_txn)`
//@rw `header.height.unwrap()` => `header.height.as_ref().unwrap()`
//@rwcall `count_fn(` => `vx_metric()`
//@endfn
}
} // verus!
fn main() {}
