// Conflicting messages resolve to the same winner in every order of arrival.
//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@proto Message MessageType CastId UserNameProof
//@include keys.vrs
//@include sets.vrs
//@include lex.vrs
//@include batch.vrs
//@include codec.vrs
use std::sync::Arc;
// ---- the order of one slot: an entry is its kind and its (time, hash) text
pub struct Entry { pub rem: bool, pub h: Seq<u8> }
pub open spec fn wf(e: Entry) -> bool { e.h.len() == 24 }
pub open spec fn by_kind(a: Entry, b: Entry) -> i8 { if a.rem && !b.rem { 1i8 } else if !a.rem && b.rem { -1i8 } else { 0i8 } }
pub open spec fn by_time(a: Entry, b: Entry) -> i8 { lexcmp(a.h.take(4), b.h.take(4)) }
pub open spec fn by_hash(a: Entry, b: Entry) -> i8 { lexcmp(a.h.subrange(4, 24), b.h.subrange(4, 24)) }
pub open spec fn first(x: i8, y: i8) -> i8 { if x != 0 { x } else { y } }
// later wins, then remove beats add, then the larger hash; for casts a remove always beats the add
pub open spec fn order(casts: bool, a: Entry, b: Entry) -> i8 {
    if casts { first(by_kind(a, b), first(by_time(a, b), by_hash(a, b))) } else { first(by_time(a, b), first(by_kind(a, b), by_hash(a, b))) }
}
proof fn theorem_antisymmetric(casts: bool, a: Entry, b: Entry) ensures order(casts, a, b) == -order(casts, b, a), -1 <= order(casts, a, b) <= 1 {
    lemma_antisym(a.h.take(4), b.h.take(4)); lemma_antisym(a.h.subrange(4, 24), b.h.subrange(4, 24));
}
proof fn theorem_total(casts: bool, a: Entry, b: Entry) requires wf(a), wf(b) ensures order(casts, a, b) == 0 <==> a == b {
    lemma_zero_iff_equal(a.h.take(4), b.h.take(4)); lemma_zero_iff_equal(a.h.subrange(4, 24), b.h.subrange(4, 24));
    assert(a.h =~= a.h.take(4) + a.h.subrange(4, 24)); assert(b.h =~= b.h.take(4) + b.h.subrange(4, 24));
    lemma_zero_iff_equal(a.h, a.h);
}
proof fn lemma_same(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires lexcmp(a, b) <= 0, lexcmp(b, c) <= 0
    ensures lexcmp(a, c) <= 0, lexcmp(a, c) == 0 ==> lexcmp(a, b) == 0 && lexcmp(b, c) == 0, lexcmp(a, b) == 0 && lexcmp(b, c) == 0 ==> lexcmp(a, c) == 0 {
    lemma_zero_iff_equal(a, b); lemma_zero_iff_equal(b, c); lemma_zero_iff_equal(a, c);
    lemma_antisym(a, b); lemma_antisym(b, c);
    if lexcmp(a, b) < 0 { lemma_trans(a, b, c); }
}
proof fn theorem_transitive(casts: bool, a: Entry, b: Entry, c: Entry) requires wf(a), wf(b), wf(c), order(casts, a, b) <= 0, order(casts, b, c) <= 0
    ensures order(casts, a, c) <= 0, order(casts, a, b) < 0 || order(casts, b, c) < 0 ==> order(casts, a, c) < 0 {
    let (x, y, z) = (a.h.take(4), b.h.take(4), c.h.take(4));
    let (p, q, r) = (a.h.subrange(4, 24), b.h.subrange(4, 24), c.h.subrange(4, 24));
    lemma_antisym(x, y); lemma_antisym(y, z); lemma_antisym(x, z); lemma_antisym(p, q); lemma_antisym(q, r);
    if lexcmp(x, y) <= 0 && lexcmp(y, z) <= 0 { lemma_same(x, y, z); }
    if lexcmp(p, q) <= 0 && lexcmp(q, r) <= 0 { lemma_same(p, q, r); }
    theorem_total(casts, a, b); theorem_total(casts, b, c); theorem_total(casts, a, c);
}
// what a slot keeps when messages arrive one after the other
pub open spec fn keep(casts: bool, cur: Option<Entry>, e: Entry) -> Option<Entry> {
    match cur { Some(c) => if order(casts, c, e) >= 0 { cur } else { Some(e) }, None => Some(e) }
}
pub open spec fn outcome(casts: bool, s: Seq<Entry>) -> Option<Entry> decreases s.len() {
    if s.len() == 0 { None } else { keep(casts, outcome(casts, s.drop_last()), s.last()) }
}
proof fn lemma_best(casts: bool, s: Seq<Entry>) requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i])
    ensures outcome(casts, s) is Some, s.contains(outcome(casts, s)->Some_0), forall|i: int| 0 <= i < s.len() ==> order(casts, #[trigger] s[i], outcome(casts, s)->Some_0) <= 0
    decreases s.len() {
    let w = outcome(casts, s)->Some_0; let d = s.drop_last(); let e = s.last();
    theorem_antisymmetric(casts, e, e); theorem_total(casts, e, e);
    if d.len() > 0 {
        lemma_best(casts, d);
        let v = outcome(casts, d)->Some_0;
        let k = choose|k: int| 0 <= k < d.len() && d[k] == v; assert(s[k] == v);
        theorem_antisymmetric(casts, v, e); theorem_total(casts, w, w);
        assert(s.contains(w));
        assert forall|i: int| 0 <= i < s.len() implies order(casts, #[trigger] s[i], w) <= 0 by {
            if i < d.len() { assert(d[i] == s[i]); if w != v { theorem_transitive(casts, d[i], v, e); } } else { assert(s[i] == e); }
        }
    } else { assert(s[0] == e); assert(s.contains(w)); }
}
// replicas that receive the same messages, in any order and any multiplicity, keep the same winner
proof fn theorem_any_order(casts: bool, a: Seq<Entry>, b: Seq<Entry>)
    requires forall|i: int| 0 <= i < a.len() ==> wf(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> wf(#[trigger] b[i]), forall|e: Entry| a.contains(e) <==> b.contains(e)
    ensures outcome(casts, a) == outcome(casts, b) {
    if a.len() > 0 { assert(a.contains(a[0])); assert(b.len() > 0); }
    if b.len() > 0 {
        assert(b.contains(b[0])); assert(a.len() > 0);
        lemma_best(casts, a); lemma_best(casts, b);
        let x = outcome(casts, a)->Some_0; let y = outcome(casts, b)->Some_0;
        assert(b.contains(x)); assert(a.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x; let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        assert(order(casts, b[i], y) <= 0 && order(casts, a[j], x) <= 0);
        theorem_antisymmetric(casts, x, y); theorem_total(casts, x, y);
    }
}
// ---- the two comparisons in the code are that order
pub open spec fn entry(rem_t: u8, t: u8, h: Seq<u8>) -> Entry { Entry { rem: rem_t != 0 && t == rem_t, h } }
pub struct PlainStore { pub a: u8, pub r: u8 }
impl PlainStore {
    #[verifier::external_body] fn add_message_type(&self) -> (o: u8) ensures o == self.a { unimplemented!() }
    #[verifier::external_body] fn remove_message_type(&self) -> (o: u8) ensures o == self.r { unimplemented!() }
//@fn src/storage/store/account/store.rs::StoreDef::message_compare -> o
    requires a_ts_hash@.len() == 24, b_ts_hash@.len() == 24, self.a != 0, self.a != self.r,
        a_type == self.a || (self.r != 0 && a_type == self.r), b_type == self.a || (self.r != 0 && b_type == self.r)
    ensures o == order(false, entry(self.r, a_type, a_ts_hash@), entry(self.r, b_type, b_ts_hash@))
//@endfn
}
pub struct CastStoreDef;
impl CastStoreDef {
//@fn src/storage/store/account/cast_store.rs::<StoreDef for CastStoreDef>::message_compare -> o
    requires a_ts_hash@.len() == 24, b_ts_hash@.len() == 24, a_type == 1 || a_type == 2, b_type == 1 || b_type == 2
    ensures o == order(true, entry(2, a_type, a_ts_hash@), entry(2, b_type, b_ts_hash@))
//@endfn
}
// ---- storage: what a key holds, the batch first
#[verifier::external_body] pub struct RocksDB { x: u8 }
#[verifier::external_body] pub struct RocksdbError { x: u8 }
impl From<RocksdbError> for HubError { #[verifier::external_body] fn from(e: RocksdbError) -> HubError { unimplemented!() } }
impl RocksDB {
    pub uninterp spec fn holds(&self, k: Seq<u8>) -> Option<Vec<u8>>;
    pub uninterp spec fn readable(&self, k: Seq<u8>) -> bool;
    #[verifier::external_body] pub fn get(&self, k: &[u8]) -> (r: Result<Option<Vec<u8>>, RocksdbError>) ensures r is Ok ==> r->Ok_0 == self.holds(k@), self.readable(k@) ==> r is Ok { unimplemented!() }
}
pub open spec fn row(db: RocksDB, t: B, k: Seq<u8>) -> Option<Vec<u8>> { if t.contains_key(k) { t[k] } else { db.holds(k) } }
pub open spec fn ready(db: RocksDB, t: B, k: Seq<u8>) -> bool { t.contains_key(k) || db.readable(k) }
#[verifier::external_body] pub fn vx_lookup<'a>(m: &'a HashMap<Vec<u8>, Option<Vec<u8>>>, k: &[u8]) -> (r: Option<&'a Option<Vec<u8>>>) ensures r == (if m@.contains_key(k@) { Some(&m@[k@]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_copy_of<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn vx_24(b: &[u8; 24]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
//@fn src/storage/store/account/message.rs::get_from_db_or_txn -> r
    ensures r is Ok ==> r->Ok_0 == row(*db, txn.batch@, key@), ready(*db, txn.batch@, key@) ==> r is Ok
//@rw `txn.batch.get(key)` => `vx_lookup(&txn.batch, key)`
//@rw `value.clone()` => `vx_copy_of(value)`
//@endfn
pub open spec fn message_at(db: RocksDB, t: B, k: Seq<u8>) -> Option<Message> { match row(db, t, k) { Some(b) => message_of(b@), None => None } }
pub open spec fn intact(db: RocksDB, t: B, k: Seq<u8>) -> bool { ready(db, t, k) && (row(db, t, k) is Some ==> message_of(row(db, t, k)->Some_0@) is Some) }
//@fn src/storage/store/account/message.rs::message_decode -> r external
    ensures r is Ok ==> Some(r->Ok_0) == message_of(bytes@), message_of(bytes@) is Some ==> r is Ok
//@endfn
//@fn src/storage/store/account/message.rs::get_message_by_key -> r
    ensures r is Ok ==> r->Ok_0 == message_at(*db, txn.batch@, key@), intact(*db, txn.batch@, key@) ==> r is Ok
//@endfn
//@fn src/storage/store/account/message.rs::get_message -> r
    ensures r is Ok ==> r->Ok_0 == message_at(*db, txn.batch@, primary_key(fid, set, ts_hash@)), intact(*db, txn.batch@, primary_key(fid, set, ts_hash@)) ==> r is Ok
//@before `get_message_by_key`
    proof { assert(key@ =~= primary_key(fid, set, ts_hash@)); }
//@endfn
//@fn src/storage/util.rs::vec_to_u8_24 -> r
    ensures r is Ok <==> (vec is Some && vec->Some_0@.len() == 24), r is Ok ==> (r->Ok_0)@ == (vec->Some_0)@,
//@endfn

//@known src/storage/store/account/store.rs::postfix
//@known src/storage/store/account/store.rs::store_def
//@known src/storage/store/account/username_proof_store.rs::message_compare
//@known src/storage/store/account/username_proof_store.rs::add_message_type
//@known src/storage/store/account/username_proof_store.rs::postfix
// ---- any store: which kinds it has, and where a message's slot rows are
#[verifier::external_body] pub struct AnyStore { x: u8 }
#[verifier::external_body] pub struct HubEventRest { x: u8 }
pub struct HubEvent { pub id: u64, pub rest: HubEventRest }
// the key spaces of the batch (C13 proves the layouts apart): 1 slot rows, 2 messages, 3 secondary indices, 4 events
pub uninterp spec fn space(k: Seq<u8>) -> int;
pub broadcast axiom fn ax_space(fid: u64, set: u8, h: Seq<u8>) ensures space(#[trigger] primary_key(fid, set, h)) == 2;
pub broadcast axiom fn ax_add_row(s: AnyStore, m: Message) ensures space(#[trigger] s.add_key(m)) == 1;
pub broadcast axiom fn ax_rem_row(s: AnyStore, m: Message) ensures space(#[trigger] s.rem_key(m)) == 1;
pub broadcast axiom fn ax_rows_apart(s: AnyStore, m: Message, o: Message) ensures #[trigger] s.add_key(m) != #[trigger] s.rem_key(o);
broadcast group spaces { ax_space, ax_add_row, ax_rem_row, ax_rows_apart }
pub open spec fn only_in(a: B, b: B, n: int) -> bool { forall|k: Seq<u8>| #![trigger b.contains_key(k)] #![trigger b[k]] space(k) != n ==> (b.contains_key(k) <==> a.contains_key(k)) && (a.contains_key(k) ==> b[k] == a[k]) }
impl AnyStore {
    pub uninterp spec fn casts(&self) -> bool;
    pub uninterp spec fn add_t(&self) -> u8;
    pub uninterp spec fn rem_t(&self) -> u8;
    pub uninterp spec fn set(&self) -> u8;
    pub uninterp spec fn add_key(&self, m: Message) -> Seq<u8>;
    pub uninterp spec fn rem_key(&self, m: Message) -> Seq<u8>;
    pub uninterp spec fn keyed(&self, m: Message) -> bool;
    pub uninterp spec fn is_add(&self, m: Message) -> bool;
    pub uninterp spec fn is_rem(&self, m: Message) -> bool;
    pub uninterp spec fn is_compact(&self, m: Message) -> bool;
    #[verifier::external_body] fn add_message_type(&self) -> (o: u8) ensures o == self.add_t(), o != 0, o != self.rem_t() { unimplemented!() }
    #[verifier::external_body] fn remove_message_type(&self) -> (o: u8) ensures o == self.rem_t() { unimplemented!() }
    #[verifier::external_body] fn postfix(&self) -> (o: u8) ensures o == self.set() { unimplemented!() }
    #[verifier::external_body] fn is_add_type(&self, m: &Message) -> (o: bool) ensures o == self.is_add(*m) { unimplemented!() }
    #[verifier::external_body] fn is_remove_type(&self, m: &Message) -> (o: bool) ensures o == self.is_rem(*m) { unimplemented!() }
    #[verifier::external_body] fn is_compact_state_type(&self, m: &Message) -> (o: bool) ensures o == self.is_compact(*m) { unimplemented!() }
    #[verifier::external_body] fn make_add_key(&self, m: &Message) -> (o: Result<Vec<u8>, HubError>) ensures o is Ok ==> o->Ok_0@ == self.add_key(*m), self.keyed(*m) ==> o is Ok { unimplemented!() }
    #[verifier::external_body] fn make_remove_key(&self, m: &Message) -> (o: Result<Vec<u8>, HubError>) ensures o is Ok ==> o->Ok_0@ == self.rem_key(*m), self.keyed(*m) ==> o is Ok { unimplemented!() }
    #[verifier::external_body] fn make_compact_state_add_key(&self, m: &Message) -> (o: Result<Vec<u8>, HubError>) ensures o is Ok ==> space(o->Ok_0@) == 5 { unimplemented!() }
    // the comparison of the store: casts have their own, every other store the plain one (both proved above)
    #[verifier::external_body] fn message_compare(&self, a_type: u8, a_ts_hash: &Vec<u8>, b_type: u8, b_ts_hash: &Vec<u8>) -> (o: i8)
        requires a_ts_hash@.len() == 24, b_ts_hash@.len() == 24, a_type == self.add_t() || (self.rem_t() != 0 && a_type == self.rem_t()), b_type == self.add_t() || (self.rem_t() != 0 && b_type == self.rem_t())
        ensures o == order(self.casts(), entry(self.rem_t(), a_type, a_ts_hash@), entry(self.rem_t(), b_type, b_ts_hash@)) { unimplemented!() }
//@fn src/storage/store/account/store.rs::StoreDef::remove_type_supported -> o
    ensures o == (self.rem_t() != 0)
//@endfn
//@fn src/storage/store/account/store.rs::StoreDef::get_merge_conflicts -> r
    requires fits(*self, *message), rows_ok(*self, *db, txn.batch@, *message)
    ensures
        // anything already there that is not less stops the message
        r is Ok ==> self.rem_t() == 0 || row(*db, txn.batch@, self.rem_key(*message)) is None || order(self.casts(), removed(*self, *db, txn.batch@, *message), arriving(*self, *message, ts_hash@)) < 0,
        r is Ok ==> row(*db, txn.batch@, self.add_key(*message)) is None || order(self.casts(), added(*self, *db, txn.batch@, *message), arriving(*self, *message, ts_hash@)) < 0,
        // and all of it that is less gives way
        r is Ok ==> r->Ok_0@ =~= (if self.rem_t() != 0 { behind(*self, *db, txn.batch@, *message, self.rem_key(*message)) } else { Seq::empty() }) + behind(*self, *db, txn.batch@, *message, self.add_key(*message)),
        // nothing else stops it
        r is Err && sound(*self, *db, txn.batch@, *message) ==>
            (self.rem_t() != 0 && row(*db, txn.batch@, self.rem_key(*message)) is Some && order(self.casts(), removed(*self, *db, txn.batch@, *message), arriving(*self, *message, ts_hash@)) >= 0)
            || (row(*db, txn.batch@, self.add_key(*message)) is Some && order(self.casts(), added(*self, *db, txn.batch@, *message), arriving(*self, *message, ts_hash@)) >= 0)
//@rw `remove_ts_hash.clone()` => `vx_copy_of(&remove_ts_hash)`
//@rw `add_ts_hash.clone()` => `vx_copy_of(&add_ts_hash)`
//@rw `ts_hash.to_vec()` => `vx_24(ts_hash)`
//@endfn
}
pub open spec fn fits(s: AnyStore, m: Message) -> bool {
    m.data is Some && (m.data->Some_0.r#type == s.add_t() as i32 || (s.rem_t() != 0 && m.data->Some_0.r#type == s.rem_t() as i32)) && s.add_t() != 0 && s.add_t() != s.rem_t()
}
pub open spec fn rows_ok(s: AnyStore, db: RocksDB, t: B, m: Message) -> bool {
    (row(db, t, s.rem_key(m)) is Some ==> row(db, t, s.rem_key(m))->Some_0@.len() == 24) && (row(db, t, s.add_key(m)) is Some ==> row(db, t, s.add_key(m))->Some_0@.len() == 24)
}
pub open spec fn removed(s: AnyStore, db: RocksDB, t: B, m: Message) -> Entry { Entry { rem: true, h: row(db, t, s.rem_key(m))->Some_0@ } }
pub open spec fn added(s: AnyStore, db: RocksDB, t: B, m: Message) -> Entry { Entry { rem: false, h: row(db, t, s.add_key(m))->Some_0@ } }
pub open spec fn arriving(s: AnyStore, m: Message, h: Seq<u8>) -> Entry { Entry { rem: s.rem_t() != 0 && m.data->Some_0.r#type == s.rem_t() as i32, h } }
pub open spec fn message_key(s: AnyStore, m: Message, h: Seq<u8>) -> Seq<u8> { primary_key(m.data->Some_0.fid, s.set(), h) }
// the message a slot row points at
pub open spec fn behind(s: AnyStore, db: RocksDB, t: B, m: Message, k: Seq<u8>) -> Seq<Message> {
    match row(db, t, k) { Some(h) => match message_at(db, t, message_key(s, m, h@)) { Some(x) => seq![x], None => Seq::empty() }, None => Seq::empty() }
}
pub open spec fn sound_at(s: AnyStore, db: RocksDB, t: B, m: Message, k: Seq<u8>) -> bool { ready(db, t, k) && (row(db, t, k) is Some ==> intact(db, t, message_key(s, m, row(db, t, k)->Some_0@))) }
pub open spec fn sound(s: AnyStore, db: RocksDB, t: B, m: Message) -> bool { s.keyed(m) && sound_at(s, db, t, m, s.rem_key(m)) && sound_at(s, db, t, m, s.add_key(m)) }

// ---- merging: the slot ends up holding the winner, and nothing else
#[verifier::external_body] pub struct StoreEventHandler { x: u8 }
impl StoreEventHandler {
    #[verifier::external_body] pub fn commit_transaction(&self, txn: &mut RocksDbTransactionBatch, e: &mut HubEvent) -> (r: Result<u64, HubError>) ensures only_in(old(txn).batch@, final(txn).batch@, 4) { unimplemented!() }
}
//@item src/storage/store/account/store.rs::FollowIndexGate
pub struct MergeContext { pub version: u8 }
impl FollowIndexGate {
//@fn src/storage/store/account/store.rs::FollowIndexGate::for_merge -> r external
//@endfn
}
//@item src/storage/store/account/store.rs::StoreOptions
impl AnyStore {
    #[verifier::external_body] fn requires_consensus_order_slot_merge(&self) -> (o: bool) { unimplemented!() }
    #[verifier::external_body] fn compact_state_type_supported(&self) -> (o: bool) { unimplemented!() }
    #[verifier::external_body] fn read_compact_state_details(&self, m: &Message) -> (o: Result<CompactStateDetails, HubError>) { unimplemented!() }
    #[verifier::external_body] fn compact_state_add_conflict(&self, m: &Message, d: &CompactStateDetails) -> (o: Option<HubError>) { unimplemented!() }
    #[verifier::external_body] fn build_secondary_indices(&self, txn: &mut RocksDbTransactionBatch, h: &[u8; TS_HASH_LENGTH], m: &Message) -> (o: Result<(), HubError>) ensures only_in(old(txn).batch@, final(txn).batch@, 3) { unimplemented!() }
    #[verifier::external_body] fn delete_secondary_indices(&self, txn: &mut RocksDbTransactionBatch, h: &[u8; TS_HASH_LENGTH], m: &Message) -> (o: Result<(), HubError>) ensures only_in(old(txn).batch@, final(txn).batch@, 3) { unimplemented!() }
    #[verifier::external_body] fn build_follow_index(&self, db: &RocksDB, txn: &mut RocksDbTransactionBatch, m: &Message, g: FollowIndexGate) -> (o: Result<(), HubError>) ensures only_in(old(txn).batch@, final(txn).batch@, 3) { unimplemented!() }
    #[verifier::external_body] fn delete_follow_index(&self, db: &RocksDB, txn: &mut RocksDbTransactionBatch, m: &Message) -> (o: Result<(), HubError>) ensures only_in(old(txn).batch@, final(txn).batch@, 3) { unimplemented!() }
    #[verifier::external_body] fn merge_event_args(&self, m: &Message, c: Vec<Message>) -> (o: HubEvent) { unimplemented!() }
}
//@item src/storage/store/account/store.rs::CompactStateDetails
pub struct Store { pub store_def: AnyStore, pub store_event_handler: Arc<StoreEventHandler>, pub db: Arc<RocksDB>, pub store_opts: StoreOptions }
// a message of this store that can be written
pub open spec fn good(m: Message) -> bool { m.data is Some && MessageType::of(m.data->Some_0.r#type) is Ok && storable(m) }
pub open spec fn slot(s: AnyStore, db: RocksDB, t: B, m: Message) -> Option<Entry> {
    if s.rem_t() != 0 && row(db, t, s.rem_key(m)) is Some { Some(removed(s, db, t, m)) } else if row(db, t, s.add_key(m)) is Some { Some(added(s, db, t, m)) } else { None }
}
// one winner at a time, and the slot rows point at messages of that slot
pub open spec fn tidy(s: AnyStore, db: RocksDB, t: B, m: Message) -> bool {
    &&& rows_ok(s, db, t, m)
    &&& !(s.rem_t() != 0 && row(db, t, s.rem_key(m)) is Some && row(db, t, s.add_key(m)) is Some)
    &&& s.rem_t() != 0 && row(db, t, s.rem_key(m)) is Some ==> ({ let b = behind(s, db, t, m, s.rem_key(m)); b.len() == 1 && good(b[0]) && s.is_rem(b[0]) && !s.is_add(b[0]) && !s.is_compact(b[0]) && s.rem_key(b[0]) == s.rem_key(m) })
    &&& row(db, t, s.add_key(m)) is Some ==> ({ let b = behind(s, db, t, m, s.add_key(m)); b.len() == 1 && good(b[0]) && s.is_add(b[0]) && !s.is_rem(b[0]) && !s.is_compact(b[0]) && s.add_key(b[0]) == s.add_key(m) })
}
pub open spec fn gone(db: RocksDB, t: B, k: Seq<u8>) -> bool { t.contains_key(k) && t[k] is None }
// no other slot row changes
pub open spec fn slots_but(a: B, b: B, x: Seq<u8>) -> bool { forall|k: Seq<u8>| #![trigger b.contains_key(k)] #![trigger b[k]] space(k) == 1 && k != x ==> (b.contains_key(k) <==> a.contains_key(k)) && (a.contains_key(k) ==> b[k] == a[k]) }
impl Store {
//@fn src/storage/store/account/store.rs::Store::delete_add_transaction -> r
    requires good(*message)
    ensures r is Ok ==> gone(*self.db, final(txn).batch@, self.store_def.add_key(*message)), slots_but(old(txn).batch@, final(txn).batch@, self.store_def.add_key(*message))
//@start
    broadcast use spaces;
//@endfn
//@fn src/storage/store/account/store.rs::Store::delete_remove_transaction -> r
    requires good(*message)
    ensures r is Ok ==> gone(*self.db, final(txn).batch@, self.store_def.rem_key(*message)), slots_but(old(txn).batch@, final(txn).batch@, self.store_def.rem_key(*message))
//@start
    broadcast use spaces;
//@endfn
//@fn src/storage/store/account/store.rs::Store::delete_compact_state_transaction -> r
    ensures only_in(old(txn).batch@, final(txn).batch@, 5)
//@endfn
//@fn src/storage/store/account/store.rs::Store::put_add_transaction -> r
    requires good(*message)
    ensures r is Ok ==> row(*self.db, final(txn).batch@, self.store_def.add_key(*message)) is Some && row(*self.db, final(txn).batch@, self.store_def.add_key(*message))->Some_0@ == ts_hash@,
        slots_but(old(txn).batch@, final(txn).batch@, self.store_def.add_key(*message))
//@rw `ts_hash.to_vec()` => `vx_24(ts_hash)`
//@start
    broadcast use spaces;
//@endfn
//@fn src/storage/store/account/store.rs::Store::put_remove_transaction -> r
    requires good(*message)
    ensures r is Ok ==> self.store_def.rem_t() != 0 && row(*self.db, final(txn).batch@, self.store_def.rem_key(*message)) is Some && row(*self.db, final(txn).batch@, self.store_def.rem_key(*message))->Some_0@ == ts_hash@,
        slots_but(old(txn).batch@, final(txn).batch@, self.store_def.rem_key(*message))
//@rw `ts_hash.to_vec()` => `vx_24(ts_hash)`
//@start
    broadcast use spaces;
//@endfn

//@fn src/storage/store/account/store.rs::Store::delete_many_transaction -> r
    requires forall|i: int| 0 <= i < messages@.len() ==> good(#[trigger] messages@[i]) && !self.store_def.is_compact(messages@[i])
    ensures r is Ok ==> forall|i: int| 0 <= i < messages@.len() ==> dropped(self.store_def, *self.db, final(txn).batch@, #[trigger] messages@[i]),
        slots_but_these(self.store_def, old(txn).batch@, final(txn).batch@, messages@, messages@.len() as int)
//@rw `for message in messages {` => `for message in it: messages.iter() invariant forall|i: int| 0 <= i < messages@.len() ==> good(#[trigger] messages@[i]) && !self.store_def.is_compact(messages@[i]), forall|i: int| 0 <= i < it.index@ ==> dropped(self.store_def, *self.db, txn.batch@, #[trigger] messages@[i]), slots_but_these(self.store_def, old(txn).batch@, txn.batch@, messages@, it.index@ as int) {`
//@loopstart 0
    broadcast use spaces;
//@start
    broadcast use spaces;
//@endfn
//@fn src/storage/store/account/store.rs::Store::merge_add_with_conflicts -> r
    requires good(*message)
    ensures r is Ok ==> row(*self.db, final(txn).batch@, self.store_def.add_key(*message)) is Some && row(*self.db, final(txn).batch@, self.store_def.add_key(*message))->Some_0@ == ts_hash@,
        slots_but(old(txn).batch@, final(txn).batch@, self.store_def.add_key(*message))
//@start
    broadcast use spaces;
//@endfn
//@fn src/storage/store/account/store.rs::Store::merge_remove_with_conflicts -> r
    requires good(*message)
    ensures r is Ok ==> self.store_def.rem_t() != 0 && row(*self.db, final(txn).batch@, self.store_def.rem_key(*message)) is Some && row(*self.db, final(txn).batch@, self.store_def.rem_key(*message))->Some_0@ == ts_hash@,
        slots_but(old(txn).batch@, final(txn).batch@, self.store_def.rem_key(*message))
//@start
    broadcast use spaces;
//@endfn
//@fn src/storage/store/account/store.rs::Store::merge_add -> r
    requires good(*message), fits(self.store_def, *message), message.data->Some_0.r#type == self.store_def.add_t() as i32, tidy(self.store_def, *self.db, old(txn).batch@, *message), !self.store_opts.conflict_free
    ensures merged_slot(self.store_def, *self.db, old(txn).batch@, final(txn).batch@, *message, Entry { rem: false, h: ts_hash@ }, r is Ok)
//@rw `compact_state_message_bytes.as_ref()` => `compact_state_message_bytes.as_slice()`
//@before `self.merge_add_with_conflicts(ts_hash, message, txn, merge_conflicts, gate)`
            proof {
                let vx_s = self.store_def; let vx_o = old(txn).batch@;
                assert(vx_s.rem_t() != 0 && row(*self.db, vx_o, vx_s.rem_key(*message)) is Some ==> merge_conflicts@[0] == behind(vx_s, *self.db, vx_o, *message, vx_s.rem_key(*message))[0] && dropped(vx_s, *self.db, txn.batch@, merge_conflicts@[0]));
                assert(row(*self.db, vx_o, vx_s.add_key(*message)) is Some ==> merge_conflicts@[0] == behind(vx_s, *self.db, vx_o, *message, vx_s.add_key(*message))[0] && dropped(vx_s, *self.db, txn.batch@, merge_conflicts@[0]));
                assert(row(*self.db, txn.batch@, vx_s.add_key(*message)) is None);
                assert(vx_s.rem_t() != 0 ==> row(*self.db, txn.batch@, vx_s.rem_key(*message)) is None);
            }
//@start
    broadcast use spaces;
//@endfn
//@fn src/storage/store/account/store.rs::Store::merge_remove -> r
    requires good(*message), fits(self.store_def, *message), self.store_def.rem_t() != 0, message.data->Some_0.r#type == self.store_def.rem_t() as i32, tidy(self.store_def, *self.db, old(txn).batch@, *message), !self.store_opts.conflict_free
    ensures merged_slot(self.store_def, *self.db, old(txn).batch@, final(txn).batch@, *message, Entry { rem: true, h: ts_hash@ }, r is Ok)
//@rw `compact_state_message_bytes.as_ref()` => `compact_state_message_bytes.as_slice()`
//@before `self.merge_remove_with_conflicts(ts_hash, message, txn, merge_conflicts)`
            proof {
                let vx_s = self.store_def; let vx_o = old(txn).batch@;
                assert(vx_s.rem_t() != 0 && row(*self.db, vx_o, vx_s.rem_key(*message)) is Some ==> merge_conflicts@[0] == behind(vx_s, *self.db, vx_o, *message, vx_s.rem_key(*message))[0] && dropped(vx_s, *self.db, txn.batch@, merge_conflicts@[0]));
                assert(row(*self.db, vx_o, vx_s.add_key(*message)) is Some ==> merge_conflicts@[0] == behind(vx_s, *self.db, vx_o, *message, vx_s.add_key(*message))[0] && dropped(vx_s, *self.db, txn.batch@, merge_conflicts@[0]));
                assert(row(*self.db, txn.batch@, vx_s.add_key(*message)) is None);
                assert(vx_s.rem_t() != 0 ==> row(*self.db, txn.batch@, vx_s.rem_key(*message)) is None);
            }
//@start
    broadcast use spaces;
//@endfn
    #[verifier::external_body] fn store_def(&self) -> (o: AnyStore) ensures o == self.store_def { unimplemented!() }
//@fn src/storage/store/account/store.rs::Store::merge_compact_state -> r external
    requires self.store_def.is_compact(*message)
//@endfn
//@fn src/storage/store/account/store.rs::Store::merge -> r
    requires good(*message), typed(self.store_def, *message), tidy(self.store_def, *self.db, old(txn).batch@, *message), !self.store_opts.conflict_free
    ensures !self.store_def.is_compact(*message) ==> merged_slot(self.store_def, *self.db, old(txn).batch@, final(txn).batch@, *message, arriving(self.store_def, *message, crate::ts_hash(message.data->Some_0.timestamp, message.hash@)), r is Ok)
//@start
    broadcast use spaces;
//@after `let ts_hash = make_ts_hash(message.data.as_ref().unwrap().timestamp, &message.hash)?;`
    assert(ts_hash@ =~= crate::ts_hash(message.data->Some_0.timestamp, message.hash@));
//@endfn
}
// the kind tests of a store agree with the message types it names
pub open spec fn typed(s: AnyStore, m: Message) -> bool {
    s.add_t() != 0 && s.add_t() != s.rem_t() && (s.is_add(m) ==> m.data->Some_0.r#type == s.add_t() as i32) && (s.rem_t() != 0 && s.is_rem(m) ==> m.data->Some_0.r#type == s.rem_t() as i32)
}
pub open spec fn dropped(s: AnyStore, db: RocksDB, t: B, m: Message) -> bool { (s.is_add(m) ==> gone(db, t, s.add_key(m))) && (s.rem_t() != 0 && s.is_rem(m) ==> gone(db, t, s.rem_key(m))) }
pub open spec fn slots_but_these(s: AnyStore, a: B, b: B, ms: Seq<Message>, n: int) -> bool {
    forall|k: Seq<u8>| #![trigger b.contains_key(k)] #![trigger b[k]] space(k) == 1 && (forall|i: int| 0 <= i < n ==> !(s.is_add(#[trigger] ms[i]) && k == s.add_key(ms[i])) && !(s.is_rem(ms[i]) && k == s.rem_key(ms[i]))) ==> (b.contains_key(k) <==> a.contains_key(k)) && (a.contains_key(k) ==> b[k] == a[k])
}
// merging does to the slot what `keep` says: accepted only as the new winner, alone; refused for losing without any change
pub open spec fn merged_slot(s: AnyStore, db: RocksDB, a: B, b: B, m: Message, e: Entry, ok: bool) -> bool {
    &&& ok ==> slot(s, db, b, m) == keep(s.casts(), slot(s, db, a, m), e) && slot(s, db, b, m) == Some(e) && !(s.rem_t() != 0 && row(db, b, s.rem_key(m)) is Some && row(db, b, s.add_key(m)) is Some)
    &&& slot(s, db, a, m) is Some && order(s.casts(), slot(s, db, a, m)->Some_0, e) >= 0 ==> !ok && b == a
}

// ---- name proofs conflict by name, whoever holds it
//@item src/storage/store/account/username_proof_store.rs::UsernameProofStoreDef
use proto::message_data::Body;
pub mod util { use super::*; verus! { pub fn vec_to_u8_24(v: &Option<Vec<u8>>) -> (r: Result<[u8; 24], HubError>) ensures r is Ok <==> (v is Some && v->Some_0@.len() == 24), r is Ok ==> (r->Ok_0)@ == (v->Some_0)@ { super::vec_to_u8_24(v) } } }
pub open spec fn name_row(n: Seq<u8>) -> Seq<u8> { seq![RootPrefix::UserNameProofByName as u8] + n }
pub open spec fn claim_row(fid: u64, n: Seq<u8>) -> Seq<u8> { user_key(fid) + seq![UserPostfix::UserNameProofAdds as u8] + n }
pub open spec fn name_of(m: Message) -> Option<Vec<u8>> { match m.data { Some(d) => match d.body { Some(Body::UsernameProofBody(b)) => Some(b.name), _ => None }, None => None } }
pub open spec fn holder(db: RocksDB, t: B, n: Seq<u8>) -> u64 { match row(db, t, name_row(n)) { Some(b) => unbe32(b@.take(4)) as u64, None => 0 } }
pub open spec fn claim(db: RocksDB, t: B, n: Seq<u8>) -> Option<Vec<u8>> { if holder(db, t, n) > 0 { row(db, t, claim_row(holder(db, t, n), n)) } else { None } }
pub open spec fn claimed(db: RocksDB, t: B, n: Seq<u8>, set: u8) -> Option<Message> { match claim(db, t, n) { Some(h) => message_at(db, t, primary_key(holder(db, t, n), set, h@)), None => None } }
pub open spec fn names_sound(db: RocksDB, t: B, n: Seq<u8>, set: u8) -> bool {
    ready(db, t, name_row(n)) && (holder(db, t, n) > 0 ==> ready(db, t, claim_row(holder(db, t, n), n)) && (claim(db, t, n) is Some ==> intact(db, t, primary_key(holder(db, t, n), set, claim(db, t, n)->Some_0@))))
}
pub open spec fn named(h: Seq<u8>) -> Entry { Entry { rem: false, h } }
impl UsernameProofStoreDef {
    pub uninterp spec fn set(&self) -> u8;
    #[verifier::external_body] fn postfix(&self) -> (o: u8) ensures o == self.set() { unimplemented!() }
    #[verifier::external_body] fn add_message_type(&self) -> (o: u8) ensures o == 12 { unimplemented!() }
    #[verifier::external_body] fn message_compare(&self, a_type: u8, a_ts_hash: &Vec<u8>, b_type: u8, b_ts_hash: &Vec<u8>) -> (o: i8)
        requires a_ts_hash@.len() == 24, b_ts_hash@.len() == 24, a_type == 12, b_type == 12
        ensures o == order(false, entry(0, a_type, a_ts_hash@), entry(0, b_type, b_ts_hash@)) { unimplemented!() }
//@fn src/storage/store/account/username_proof_store.rs::UsernameProofStoreDef::make_username_proof_by_name_key -> r
    ensures r@ =~= name_row(name@)
//@start
    proof { ax_len(name); }
//@endfn
//@fn src/storage/store/account/username_proof_store.rs::UsernameProofStoreDef::make_username_proof_by_fid_key -> r
    ensures r@ =~= claim_row(fid, name@)
//@start
    proof { ax_len(name); }
//@endfn
//@fn src/storage/store/account/username_proof_store.rs::<StoreDef for UsernameProofStoreDef>::get_merge_conflicts -> r
    requires name_of(*message) is Some ==> ({ let n = name_of(*message)->Some_0@; (row(*db, txn.batch@, name_row(n)) is Some ==> row(*db, txn.batch@, name_row(n))->Some_0@.len() >= 4) && (claim(*db, txn.batch@, n) is Some ==> claim(*db, txn.batch@, n)->Some_0@.len() == 24) && names_sound(*db, txn.batch@, n, self.set()) })
    ensures name_of(*message) is None ==> r is Err,
        name_of(*message) is Some ==> ({ let n = name_of(*message)->Some_0@;
            match claimed(*db, txn.batch@, n, self.set()) {
                Some(m) => { let o = order(false, named(claim(*db, txn.batch@, n)->Some_0@), named(ts_hash@)); (r is Ok <==> o < 0) && (r is Ok ==> r->Ok_0@ =~= seq![m]) },
                None => r is Ok ==> r->Ok_0@.len() == 0,
            } })
//@rw `existing_message_ts_hash.unwrap().to_vec()` => `existing_message_ts_hash.unwrap()`
//@rw `ts_hash.to_vec()` => `vx_24(ts_hash)`
//@endfn
}
} // verus!
fn main() {}
