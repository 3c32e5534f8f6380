// Gasless keys: granted, replaced and revoked only by those who may, once each, and the books about them agree.
//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@proto Message MessageType CastId OnChainEvent HubEvent HubEventType MergeMessageBody
//@include keys.vrs
//@include batch.vrs
use std::sync::Arc;
use proto::{Message, message_data::Body, OnChainEvent, HubEvent, HubEventType, hub_event};
//@item src/core/validations/error.rs::ValidationError
pub mod validations { pub mod error { pub use super::super::ValidationError; } }
#[derive(Clone, Copy)] pub struct Address { pub b: [u8; 20] }
impl Address { pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() } }
#[verifier::external_body] pub fn vx_same(m: &Message) -> (r: Message) ensures r == *m { unimplemented!() }
//@item src/core/validations/key.rs::ED25519_PUBLIC_KEY_LEN
//@item src/core/validations/key.rs::KeyRemoveSignatureType
//@item src/core/validations/key.rs::ETH_MAINNET_CHAIN_ID
//@item src/core/validations/key.rs::MAX_GASLESS_KEYS_PER_FID
//@item src/core/validations/key.rs::KeyAddPayload
//@item src/core/validations/key.rs::KeyRemovePayload
//@item src/core/validations/key.rs::VerifiedSignedKeyRequest
//@item src/storage/store/account/key_nonce_store.rs::NONCE_KEY_BYTES
//@item src/storage/store/account/key_nonce_store.rs::NONCE_VALUE_BYTES
//@item src/storage/store/account/key_nonce_store.rs::ROOT_PREFIX_BYTES
//@item src/storage/store/account/key_nonce_store.rs::USER_POSTFIX_BYTES
//@item src/storage/store/account/key_last_used_at_store.rs::LAST_USED_AT_KEY_BYTES
//@item src/storage/store/account/key_last_used_at_store.rs::LAST_USED_AT_VALUE_BYTES
//@item src/storage/store/account/key_last_used_at_store.rs::SLIDING_TTL_THROTTLE_SECONDS
//@item src/storage/store/account/key_add_store.rs::GASLESS_KEY_BY_FID_KEY_BYTES
//@item src/storage/store/account/key_add_store.rs::GASLESS_KEY_BY_PUBLIC_KEY_KEY_BYTES
//@item src/storage/store/account/key_add_store.rs::GASLESS_KEY_COUNT_KEY_BYTES
//@item src/storage/store/account/key_add_store.rs::GASLESS_KEY_COUNT_VALUE_BYTES
//@item src/storage/store/account/key_add_store.rs::GaslessKeyRecord
//@item src/storage/store/engine.rs::MessageValidationError
impl From<ValidationError> for MessageValidationError { #[verifier::external_body] fn from(e: ValidationError) -> MessageValidationError { unimplemented!() } }
impl From<HubError> for MessageValidationError { #[verifier::external_body] fn from(e: HubError) -> MessageValidationError { unimplemented!() } }
// ---- where things are kept, by the 32-bit fid
pub open spec fn user_nonce_key(f: u32) -> Seq<u8> { seq![23u8, 102] + be32(f) }
pub open spec fn app_nonce_key(f: u32) -> Seq<u8> { seq![23u8, 103] + be32(f) }
pub open spec fn used_key(f: u32, k: Seq<u8>) -> Seq<u8> { seq![23u8, 104] + be32(f) + k }
pub open spec fn record_key(f: u32, k: Seq<u8>) -> Seq<u8> { seq![23u8, 105] + be32(f) + k }
pub open spec fn owner_key(k: Seq<u8>) -> Seq<u8> { seq![23u8, 106] + k }
pub open spec fn count_key(f: u32) -> Seq<u8> { seq![23u8, 107] + be32(f) }
// ---- the state as a reader sees it: the batch first, then the database
#[verifier::external_body] pub struct RocksDB { x: u8 }
#[verifier::external_body] pub struct RocksdbError { x: u8 }
impl From<RocksdbError> for HubError { #[verifier::external_body] fn from(e: RocksdbError) -> HubError { unimplemented!() } }
impl RocksDB {
    pub uninterp spec fn holds(&self, k: Seq<u8>) -> Option<Vec<u8>>;
    pub uninterp spec fn readable(&self, k: Seq<u8>) -> bool;
    #[verifier::external_body] pub fn get(&self, k: &[u8]) -> (r: Result<Option<Vec<u8>>, RocksdbError>) ensures r is Ok ==> r->Ok_0 == self.holds(k@), self.readable(k@) ==> r is Ok { unimplemented!() }
}
pub open spec fn bytes_of(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub type S = spec_fn(Seq<u8>) -> Option<Seq<u8>>;
pub open spec fn now(db: RocksDB, t: B) -> S { |k: Seq<u8>| bytes_of(if t.contains_key(k) { t[k] } else { db.holds(k) }) }
pub open spec fn ready(db: RocksDB, t: B, k: Seq<u8>) -> bool { t.contains_key(k) || db.readable(k) }
pub open spec fn upd(s: S, k: Seq<u8>, v: Option<Seq<u8>>) -> S { |x: Seq<u8>| if x == k { v } else { s(x) } }
pub broadcast proof fn lemma_upd(db: RocksDB, t: B, k: Seq<u8>, v: Option<Vec<u8>>) ensures #[trigger] now(db, t.insert(k, v)) == upd(now(db, t), k, bytes_of(v)) {
    assert(now(db, t.insert(k, v)) =~= upd(now(db, t), k, bytes_of(v)));
}
#[verifier::external_body] pub fn vx_lookup<'a>(m: &'a HashMap<Vec<u8>, Option<Vec<u8>>>, k: &[u8]) -> (r: Option<&'a Option<Vec<u8>>>) ensures r == (if m@.contains_key(k@) { Some(&m@[k@]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_copy_of<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn vx_option_vec<T>(x: Option<T>) -> (r: Vec<T>) ensures r@ == (match x { Some(v) => seq![v], None => Seq::empty() }) { unimplemented!() }
pub fn vx_4(b: [u8; 4]) -> (r: Vec<u8>) ensures r@ == b@ { let r = b.to_vec(); assert(r@ =~= b@); r }
//@fn src/storage/store/account/message.rs::get_from_db_or_txn -> r
    ensures r is Ok ==> bytes_of(r->Ok_0) == now(*db, txn.batch@)(key@), ready(*db, txn.batch@, key@) ==> r is Ok
//@rw `txn.batch.get(key)` => `vx_lookup(&txn.batch, key)`
//@rw `value.clone()` => `vx_copy_of(value)`
//@endfn
// the six kinds of rows do not collide
pub broadcast proof fn lemma_apart102(f: u32) ensures (#[trigger] user_nonce_key(f))[1] == 102, user_nonce_key(f).len() >= 2 {}
pub broadcast proof fn lemma_apart103(f: u32) ensures (#[trigger] app_nonce_key(f))[1] == 103, app_nonce_key(f).len() >= 2 {}
pub broadcast proof fn lemma_apart104(f: u32, k: Seq<u8>) ensures (#[trigger] used_key(f, k))[1] == 104, used_key(f, k).len() >= 2 {}
pub broadcast proof fn lemma_apart105(f: u32, k: Seq<u8>) ensures (#[trigger] record_key(f, k))[1] == 105, record_key(f, k).len() >= 2 {}
pub broadcast proof fn lemma_apart106(k: Seq<u8>) ensures (#[trigger] owner_key(k))[1] == 106, owner_key(k).len() >= 2 {}
pub broadcast proof fn lemma_apart107(f: u32) ensures (#[trigger] count_key(f))[1] == 107, count_key(f).len() >= 2 {}
broadcast group lemma_apart { lemma_apart102, lemma_apart103, lemma_apart104, lemma_apart105, lemma_apart106, lemma_apart107 }
// ---- counters of four bytes
pub open spec fn width4(s: S, k: Seq<u8>) -> bool { s(k) is Some ==> s(k)->Some_0.len() == 4 }
pub open spec fn number(s: S, k: Seq<u8>) -> u32 { match s(k) { Some(b) => unbe32(b), None => 0 } }
pub open spec fn stands(db: RocksDB, t: B, k: Seq<u8>) -> bool { ready(db, t, k) && width4(now(db, t), k) }
pub mod nonces { use super::*; verus! {
//@fn src/storage/store/account/key_nonce_store.rs::make_nonce_key -> r
    ensures r@ =~= seq![23u8, postfix as u8] + fid_key(fid)
//@endfn
//@fn src/storage/store/account/key_nonce_store.rs::make_user_nonce_key -> r
    ensures r@ == user_nonce_key(fid as u32)
//@endfn
//@fn src/storage/store/account/key_nonce_store.rs::make_app_nonce_key -> r
    ensures r@ == app_nonce_key(app_fid as u32)
//@endfn
//@fn src/storage/store/account/key_nonce_store.rs::get_nonce -> r
    ensures r is Ok ==> width4(now(*db, txn.batch@), key@) && r->Ok_0 == (match now(*db, txn.batch@)(key@) { Some(b) => Some(unbe32(b)), None => None }), stands(*db, txn.batch@, key@) ==> r is Ok
//@endfn
//@fn src/storage/store/account/key_nonce_store.rs::get_user_nonce -> r
    ensures r is Ok ==> r->Ok_0 == (match now(*db, txn.batch@)(user_nonce_key(fid as u32)) { Some(b) => Some(unbe32(b)), None => None }), stands(*db, txn.batch@, user_nonce_key(fid as u32)) ==> r is Ok
//@endfn
//@fn src/storage/store/account/key_nonce_store.rs::get_app_nonce -> r
    ensures r is Ok ==> r->Ok_0 == (match now(*db, txn.batch@)(app_nonce_key(app_fid as u32)) { Some(b) => Some(unbe32(b)), None => None }), stands(*db, txn.batch@, app_nonce_key(app_fid as u32)) ==> r is Ok
//@endfn
pub open spec fn advance(db: RocksDB, a: B, b: B, k: Seq<u8>, n: u32, ok: bool) -> bool {
    &&& ok ==> n > number(now(db, a), k) && now(db, b) == upd(now(db, a), k, Some(be32(n)))
    &&& !ok ==> b == a
    &&& stands(db, a, k) && n > number(now(db, a), k) ==> ok
}
//@fn src/storage/store/account/key_nonce_store.rs::check_and_set_nonce -> r
    ensures advance(*db, old(txn).batch@, final(txn).batch@, key@, new_nonce, r is Ok)
//@start
    broadcast use lemma_upd;
//@rw `new_nonce.to_be_bytes().to_vec()` => `vx_4(new_nonce.vx_to_be_bytes())`
//@endfn
//@fn src/storage/store/account/key_nonce_store.rs::check_and_set_user_nonce -> r
    ensures advance(*db, old(txn).batch@, final(txn).batch@, user_nonce_key(fid as u32), new_nonce, r is Ok)
//@endfn
//@fn src/storage/store/account/key_nonce_store.rs::check_and_set_app_nonce -> r
    ensures advance(*db, old(txn).batch@, final(txn).batch@, app_nonce_key(app_fid as u32), new_nonce, r is Ok)
//@endfn
} }
pub use nonces::*;
pub mod used { use super::*; verus! {
//@fn src/storage/store/account/key_last_used_at_store.rs::validate_key_len -> r
    ensures r is Ok <==> public_key@.len() == 32
//@endfn
//@fn src/storage/store/account/key_last_used_at_store.rs::make_last_used_at_key -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> r->Ok_0@ =~= used_key(fid as u32, public_key@)
//@endfn
//@fn src/storage/store/account/key_last_used_at_store.rs::get_last_used_at -> r
    ensures r is Ok ==> public_key@.len() == 32 && r->Ok_0 == (match now(*db, txn.batch@)(used_key(fid as u32, public_key@)) { Some(b) => Some(unbe32(b)), None => None }),
        public_key@.len() == 32 && stands(*db, txn.batch@, used_key(fid as u32, public_key@)) ==> r is Ok
//@endfn
//@fn src/storage/store/account/key_last_used_at_store.rs::init_last_used_at -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> now(*db, final(txn).batch@) == upd(now(*db, old(txn).batch@), used_key(fid as u32, public_key@), Some(be32(message_timestamp))), r is Err ==> final(txn).batch@ == old(txn).batch@
//@start
    broadcast use lemma_upd;
//@rw `message_timestamp.to_be_bytes().to_vec()` => `vx_4(message_timestamp.vx_to_be_bytes())`
//@endfn
//@fn src/storage/store/account/key_last_used_at_store.rs::delete_last_used_at -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> now(*db, final(txn).batch@) == upd(now(*db, old(txn).batch@), used_key(fid as u32, public_key@), None), r is Err ==> final(txn).batch@ == old(txn).batch@
//@start
    broadcast use lemma_upd;
//@endfn
// a key lives for its lifetime after its last use; a use is noted when it is more than five minutes later
pub open spec fn alive(s: S, k: Seq<u8>, ttl: u32, at: u64) -> bool { s(k) is Some && unbe32(s(k)->Some_0) + ttl >= at }
pub open spec fn noted(s: S, k: Seq<u8>, ts: u32) -> S { if ts > unbe32(s(k)->Some_0) + 300 { upd(s, k, Some(be32(ts))) } else { s } }
//@fn src/storage/store/account/key_last_used_at_store.rs::check_and_bump_last_used_at -> r
    ensures r is Ok ==> public_key@.len() == 32 && alive(now(*db, old(txn).batch@), used_key(fid as u32, public_key@), ttl, current_block_timestamp)
            && now(*db, final(txn).batch@) == noted(now(*db, old(txn).batch@), used_key(fid as u32, public_key@), message_timestamp),
        r is Err ==> final(txn).batch@ == old(txn).batch@,
        public_key@.len() == 32 && stands(*db, old(txn).batch@, used_key(fid as u32, public_key@)) && alive(now(*db, old(txn).batch@), used_key(fid as u32, public_key@), ttl, current_block_timestamp) ==> r is Ok
//@start
    broadcast use lemma_upd;
//@rw `message_timestamp.to_be_bytes().to_vec()` => `vx_4(message_timestamp.vx_to_be_bytes())`
//@endfn
} }
pub use used::*;
// ---- the records, and who holds a key
pub uninterp spec fn record_of(b: Seq<u8>) -> Option<GaslessKeyRecord>;
pub uninterp spec fn record_bytes(r: GaslessKeyRecord) -> Seq<u8>;
// what the protobuf library writes reads back
pub broadcast axiom fn ax_record(r: GaslessKeyRecord) ensures record_of(#[trigger] record_bytes(r)) == Some(r);
#[verifier::external_body] pub struct DecodeError { x: u8 }
#[verifier::external_body] pub fn vx_record(b: &[u8]) -> (r: Result<Option<GaslessKeyRecord>, DecodeError>) ensures r is Ok <==> record_of(b@) is Some, r is Ok ==> r->Ok_0 == record_of(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_record_bytes(r: &GaslessKeyRecord) -> (o: Vec<u8>) ensures o@ == record_bytes(*r) { unimplemented!() }
pub open spec fn record(s: S, f: u32, k: Seq<u8>) -> Option<GaslessKeyRecord> { match s(record_key(f, k)) { Some(b) => record_of(b), None => None } }
pub open spec fn owner(s: S, k: Seq<u8>) -> Option<u32> { match s(owner_key(k)) { Some(b) => Some(unbe32(b)), None => None } }
pub open spec fn decodes(s: S, f: u32, k: Seq<u8>) -> bool { s(record_key(f, k)) is Some ==> record_of(s(record_key(f, k))->Some_0) is Some }
//@fn src/storage/store/account/key_add_store.rs::validate_key_len -> r
    ensures r is Ok <==> public_key@.len() == 32
//@endfn
//@fn src/storage/store/account/key_add_store.rs::make_gasless_key_by_fid_key -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> r->Ok_0@ =~= record_key(fid as u32, public_key@)
//@endfn
//@fn src/storage/store/account/key_add_store.rs::get_gasless_key_record -> r
    ensures r is Ok ==> public_key@.len() == 32 && r->Ok_0 == record(now(*db, txn.batch@), fid as u32, public_key@) && decodes(now(*db, txn.batch@), fid as u32, public_key@),
        public_key@.len() == 32 && ready(*db, txn.batch@, record_key(fid as u32, public_key@)) && decodes(now(*db, txn.batch@), fid as u32, public_key@) ==> r is Ok
//@rw `GaslessKeyRecord::decode(bytes.as_slice()).map(Some)` => `vx_record(bytes.as_slice())`
//@endfn
//@fn src/storage/store/account/key_add_store.rs::put_gasless_key_record -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> now(*db, final(txn).batch@) == upd(now(*db, old(txn).batch@), record_key(fid as u32, public_key@), Some(record_bytes(*record))), r is Err ==> final(txn).batch@ == old(txn).batch@
//@start
    broadcast use lemma_upd;
//@rw `record.encode_to_vec()` => `vx_record_bytes(record)`
//@endfn
//@fn src/storage/store/account/key_add_store.rs::delete_gasless_key_record -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> now(*db, final(txn).batch@) == upd(now(*db, old(txn).batch@), record_key(fid as u32, public_key@), None), r is Err ==> final(txn).batch@ == old(txn).batch@
//@start
    broadcast use lemma_upd;
//@endfn
//@fn src/storage/store/account/key_add_store.rs::make_gasless_key_by_public_key_key -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> r->Ok_0@ =~= owner_key(public_key@)
//@endfn
//@fn src/storage/store/account/key_add_store.rs::get_gasless_key_owner_fid -> r
    ensures r is Ok ==> public_key@.len() == 32 && width4(now(*db, txn.batch@), owner_key(public_key@)) && r->Ok_0 == (match owner(now(*db, txn.batch@), public_key@) { Some(f) => Some(f as u64), None => None }),
        public_key@.len() == 32 && stands(*db, txn.batch@, owner_key(public_key@)) ==> r is Ok
//@before `Ok(Some(read_fid_key`
    proof { assert(bytes@.subrange(0, 4) =~= bytes@); }
//@endfn
//@fn src/storage/store/account/key_add_store.rs::put_gasless_key_owner -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> now(*db, final(txn).batch@) == upd(now(*db, old(txn).batch@), owner_key(public_key@), Some(be32(fid as u32))), r is Err ==> final(txn).batch@ == old(txn).batch@
//@start
    broadcast use lemma_upd;
//@endfn
//@fn src/storage/store/account/key_add_store.rs::delete_gasless_key_owner -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> now(*db, final(txn).batch@) == upd(now(*db, old(txn).batch@), owner_key(public_key@), None), r is Err ==> final(txn).batch@ == old(txn).batch@
//@start
    broadcast use lemma_upd;
//@endfn
//@fn src/storage/store/account/key_add_store.rs::make_gasless_key_count_by_fid_key -> r
    ensures r@ =~= count_key(fid as u32)
//@endfn
//@fn src/storage/store/account/key_add_store.rs::get_gasless_key_count -> r
    ensures r is Ok ==> width4(now(*db, txn.batch@), count_key(fid as u32)) && r->Ok_0 == number(now(*db, txn.batch@), count_key(fid as u32)), stands(*db, txn.batch@, count_key(fid as u32)) ==> r is Ok
//@endfn
pub open spec fn more(s: S, f: u32) -> S { let n = number(s, count_key(f)); upd(s, count_key(f), Some(be32(if n == u32::MAX { n } else { (n + 1) as u32 }))) }
pub open spec fn fewer(s: S, f: u32) -> S { let n = number(s, count_key(f)); upd(s, count_key(f), if n <= 1 { None } else { Some(be32((n - 1) as u32)) }) }
//@fn src/storage/store/account/key_add_store.rs::increment_gasless_key_count -> r
    ensures r is Ok ==> now(*db, final(txn).batch@) == more(now(*db, old(txn).batch@), fid as u32), r is Err ==> final(txn).batch@ == old(txn).batch@, stands(*db, old(txn).batch@, count_key(fid as u32)) ==> r is Ok
//@start
    broadcast use lemma_upd;
//@rw `next.to_be_bytes().to_vec()` => `vx_4(next.vx_to_be_bytes())`
//@endfn
//@fn src/storage/store/account/key_add_store.rs::decrement_gasless_key_count -> r
    ensures r is Ok ==> now(*db, final(txn).batch@) == fewer(now(*db, old(txn).batch@), fid as u32), r is Err ==> final(txn).batch@ == old(txn).batch@, stands(*db, old(txn).batch@, count_key(fid as u32)) ==> r is Ok
//@start
    broadcast use lemma_upd;
//@rw `next.to_be_bytes().to_vec()` => `vx_4(next.vx_to_be_bytes())`
//@endfn
// ---- who the chain says owns a fid, and whose signature a request or an order carries (C08 proves what is signed)
pub struct OnchainEventStorageErrorPayload { pub x: u8 }
pub enum OnchainEventStorageError { HubError(HubError), Other(OnchainEventStorageErrorPayload) }
#[verifier::external_body] pub struct OnchainEventStore { x: u8 }
pub uninterp spec fn registered(s: OnchainEventStore, t: B, fid: u64) -> Result<Option<OnChainEvent>, OnchainEventStorageError>;
pub uninterp spec fn onchain_key(s: OnchainEventStore, t: B, fid: u64, key: Seq<u8>) -> Result<Option<OnChainEvent>, OnchainEventStorageError>;
impl OnchainEventStore {
    #[verifier::external_body] pub fn get_id_register_event_by_fid(&self, fid: u64, t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<OnChainEvent>, OnchainEventStorageError>)
        requires t is Some ensures r == registered(*self, t->Some_0.batch@, fid) { unimplemented!() }
    #[verifier::external_body] pub fn get_active_signer(&self, fid: u64, key: Vec<u8>, t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<OnChainEvent>, OnchainEventStorageError>)
        requires t is Some ensures r == onchain_key(*self, t->Some_0.batch@, fid, key@) { unimplemented!() }
}
pub open spec fn custody(s: OnchainEventStore, t: B, fid: u64) -> Option<Seq<u8>> {
    match registered(s, t, fid) { Ok(Some(e)) => match e.body { Some(proto::on_chain_event::Body::IdRegisterEventBody(b)) => Some(b.to@), _ => None }, _ => None }
}
pub uninterp spec fn add_signed_by(fid: u64, key: Seq<u8>, key_type: u32, scopes: Seq<i32>, ttl: u32, nonce: u32, deadline: u32, sig: Seq<u8>, chain: u32) -> Option<Address>;
pub uninterp spec fn remove_signed_by(fid: u64, key: Seq<u8>, nonce: u32, deadline: u32, sig: Seq<u8>, chain: u32) -> Option<Address>;
pub uninterp spec fn request_of(kind: u32, metadata: Seq<u8>, key: Seq<u8>, at: u64, chain: u32) -> Option<VerifiedSignedKeyRequest>;
//@fn src/core/validations/key.rs::recover_key_add_custody_address -> r external
    ensures match add_signed_by(payload.fid, payload.key@, payload.key_type, payload.scopes@, payload.ttl, payload.nonce, payload.deadline, signature@, chain_id) { Some(a) => r is Ok && r->Ok_0 == a, None => r is Err }
//@endfn
//@fn src/core/validations/key.rs::recover_key_remove_custody_address -> r external
    ensures match remove_signed_by(payload.fid, payload.key@, payload.nonce, payload.deadline, signature@, chain_id) { Some(a) => r is Ok && r->Ok_0 == a, None => r is Err }
//@endfn
//@fn src/core/validations/key.rs::verify_signed_key_request_metadata -> r external
    ensures match request_of(metadata_type, metadata@, key@, current_timestamp, chain_id) { Some(q) => r is Ok && r->Ok_0 == q, None => r is Err }
//@endfn
impl KeyRemoveSignatureType {
//@fn src/core/validations/key.rs::<TryFrom<u32> for KeyRemoveSignatureType>::try_from -> r
    ensures v == 1 ==> r == Ok::<KeyRemoveSignatureType, ValidationError>(KeyRemoveSignatureType::Custody),
        v == 2 ==> r == Ok::<KeyRemoveSignatureType, ValidationError>(KeyRemoveSignatureType::SelfRevoke), v != 1 && v != 2 ==> r is Err
//@rw `Self::Error` => `ValidationError`
//@endfn
}
impl HubEvent {
//@fn src/core/message.rs::<HubEventExt for HubEvent>::new_event -> r
    ensures r.r#type == event_type as i32, r.body == Some(body), r.block_number == 0, r.id == 0, r.shard_index == 0, r.timestamp == 0
//@endfn
}
// ---- granting a key
pub open spec fn add_signer(d: proto::MessageData, b: proto::KeyAddBody) -> Option<Address> { add_signed_by(d.fid, b.key@, b.key_type, b.scopes@, b.ttl, b.nonce, b.deadline, b.custody_signature@, 1) }
pub open spec fn request(d: proto::MessageData, b: proto::KeyAddBody) -> Option<VerifiedSignedKeyRequest> { request_of(b.metadata_type, b.metadata@, b.key@, d.timestamp as u64, 1) }
pub open spec fn may_add(s: S, o: OnchainEventStore, t: B, d: proto::MessageData, b: proto::KeyAddBody, replay: bool) -> bool {
    // an app asks for it, with the signature of its own custody address (shard 0 has seen to that when a block event is replayed)
    &&& request(d, b) is Some && (replay || custody(o, t, request(d, b)->Some_0.request_fid) == Some(request(d, b)->Some_0.request_signer.b@))
    // the owner of the fid signs the grant
    &&& add_signer(d, b) is Some && custody(o, t, d.fid) == Some(add_signer(d, b)->Some_0.b@)
    // the key is not one the chain already registered, nor anyone else's, nor another app's
    &&& b.key@.len() == 32 && onchain_key(o, t, d.fid, b.key@) == Ok::<Option<OnChainEvent>, OnchainEventStorageError>(None)
    &&& match owner(s, b.key@) {
        None => number(s, count_key(d.fid as u32)) < 1000,
        Some(f) => f as u64 == d.fid && record(s, f, b.key@) is Some && record(s, f, b.key@)->Some_0.request_fid == request(d, b)->Some_0.request_fid,
    }
    // and the grant has not been used
    &&& b.nonce > number(s, user_nonce_key(d.fid as u32))
}
pub open spec fn with_key(s: S, m: Message, d: proto::MessageData, b: proto::KeyAddBody) -> S {
    let f = d.fid as u32;
    let s1 = upd(s, user_nonce_key(f), Some(be32(b.nonce)));
    let s2 = upd(s1, record_key(f, b.key@), Some(record_bytes(GaslessKeyRecord { message: Some(m), request_fid: request(d, b)->Some_0.request_fid })));
    let s3 = upd(s2, owner_key(b.key@), Some(be32(f)));
    let s4 = upd(s3, used_key(f, b.key@), Some(be32(d.timestamp)));
    if owner(s, b.key@) is None { more(s4, f) } else { s4 }
}
pub open spec fn says(e: HubEvent, m: Message, gone: Option<Message>) -> bool {
    e.r#type == HubEventType::MergeMessage as i32 && (e.body matches Some(hub_event::Body::MergeMessageBody(b)) && b.message == Some(m) && b.deleted_messages@ =~= (match gone { Some(g) => seq![g], None => Seq::empty() }))
}
pub open spec fn prior(s: S, f: u32, k: Seq<u8>) -> Option<Message> { if owner(s, k) is None { None } else { record(s, f, k)->Some_0.message } }
pub open spec fn sound(db: RocksDB, t: B, f: u32, k: Seq<u8>) -> bool {
    stands(db, t, user_nonce_key(f)) && db.readable(count_key(f)) && width4(now(db, t), count_key(f)) && stands(db, t, owner_key(k)) && ready(db, t, record_key(f, k)) && decodes(now(db, t), f, k)
}
//@fn src/storage/store/account/gasless_key_merge.rs::merge_key_add -> r
    ensures
        r is Ok ==> (msg.data matches Some(d) && (d.body matches Some(Body::KeyAddBody(b)) && may_add(now(**db, old(txn_batch).batch@), *onchain_event_store, old(txn_batch).batch@, d, b, is_replay)
            && now(**db, final(txn_batch).batch@) == with_key(now(**db, old(txn_batch).batch@), *msg, d, b) && says(r->Ok_0, *msg, prior(now(**db, old(txn_batch).batch@), d.fid as u32, b.key@)))),
        r is Err ==> !(msg.data matches Some(d) && (d.body matches Some(Body::KeyAddBody(b)) && sound(**db, old(txn_batch).batch@, d.fid as u32, b.key@) && may_add(now(**db, old(txn_batch).batch@), *onchain_event_store, old(txn_batch).batch@, d, b, is_replay)))
//@start
    broadcast use {ax_slice_eq, lemma_apart};
//@rw `let deleted_messages: Vec<proto::Message> = prior_record.and_then(|r| r.message).into_iter().collect();` => `let deleted_messages: Vec<proto::Message> = vx_option_vec(prior_record.and_then(|r: GaslessKeyRecord| -> (o: Option<Message>) ensures o == r.message { r.message }));`
//@rw `msg.clone()` => `vx_same(msg)`
//@endfn
// ---- taking it back: the owner of the fid, or the key itself
pub open spec fn remove_signer(d: proto::MessageData, b: proto::KeyRemoveBody) -> Option<Address> { remove_signed_by(d.fid, b.key@, b.nonce, b.deadline, b.signature@, 1) }
// whose counter the order uses up
pub open spec fn counter_of(s: S, d: proto::MessageData, b: proto::KeyRemoveBody) -> Seq<u8> {
    if b.signature_type == 1 { user_nonce_key(d.fid as u32) } else { app_nonce_key(record(s, d.fid as u32, b.key@)->Some_0.request_fid as u32) }
}
pub open spec fn may_remove(s: S, o: OnchainEventStore, t: B, m: Message, d: proto::MessageData, b: proto::KeyRemoveBody) -> bool {
    &&& b.key@.len() == 32 && record(s, d.fid as u32, b.key@) is Some
    &&& (b.signature_type == 1 && remove_signer(d, b) is Some && custody(o, t, d.fid) == Some(remove_signer(d, b)->Some_0.b@)) || (b.signature_type == 2 && m.signer@ == b.key@)
    &&& b.nonce > number(s, counter_of(s, d, b))
}
pub open spec fn without_key(s: S, d: proto::MessageData, b: proto::KeyRemoveBody) -> S {
    let f = d.fid as u32;
    fewer(upd(upd(upd(upd(s, counter_of(s, d, b), Some(be32(b.nonce))), record_key(f, b.key@), None), owner_key(b.key@), None), used_key(f, b.key@), None), f)
}
pub open spec fn sound_to_remove(db: RocksDB, t: B, d: proto::MessageData, b: proto::KeyRemoveBody) -> bool {
    let f = d.fid as u32;
    ready(db, t, record_key(f, b.key@)) && decodes(now(db, t), f, b.key@) && stands(db, t, counter_of(now(db, t), d, b)) && db.readable(count_key(f)) && width4(now(db, t), count_key(f))
}
//@fn src/storage/store/account/gasless_key_merge.rs::merge_key_remove -> r
    ensures
        r is Ok ==> (msg.data matches Some(d) && (d.body matches Some(Body::KeyRemoveBody(b)) && may_remove(now(**db, old(txn_batch).batch@), *onchain_event_store, old(txn_batch).batch@, *msg, d, b)
            && now(**db, final(txn_batch).batch@) == without_key(now(**db, old(txn_batch).batch@), d, b) && says(r->Ok_0, *msg, record(now(**db, old(txn_batch).batch@), d.fid as u32, b.key@)->Some_0.message))),
        r is Err ==> !(msg.data matches Some(d) && (d.body matches Some(Body::KeyRemoveBody(b)) && sound_to_remove(**db, old(txn_batch).batch@, d, b) && may_remove(now(**db, old(txn_batch).batch@), *onchain_event_store, old(txn_batch).batch@, *msg, d, b)))
//@start
    broadcast use {ax_slice_eq, lemma_apart};
//@rw `record.message.into_iter().collect()` => `vx_option_vec(record.message)`
//@rw `msg.clone()` => `vx_same(msg)`
//@endfn
// ---- the books: a key has one owner, the one with the record; each fid's count is the number of its records, never more than a thousand
pub open spec fn owns(s: S, f: u32, k: Seq<u8>) -> bool { k.len() == 32 && s(record_key(f, k)) is Some }
pub open spec fn all_of(s: S, f: u32, g: Set<Seq<u8>>) -> bool { forall|k: Seq<u8>| #[trigger] g.contains(k) <==> owns(s, f, k) }
pub open spec fn tallied(s: S, f: u32) -> bool { width4(s, count_key(f)) && exists|g: Set<Seq<u8>>| #[trigger] all_of(s, f, g) && number(s, count_key(f)) == g.len() && g.len() <= 1000 }
pub open spec fn claimed(s: S, k: Seq<u8>) -> bool { k.len() == 32 && s(owner_key(k)) is Some }
pub open spec fn books(s: S) -> bool {
    &&& forall|f: u32, k: Seq<u8>| #[trigger] owns(s, f, k) ==> s(owner_key(k)) == Some(be32(f))
    &&& forall|k: Seq<u8>| #[trigger] claimed(s, k) ==> owns(s, unbe32(s(owner_key(k))->Some_0), k)
    &&& forall|f: u32| #[trigger] tallied(s, f)
}
proof fn lemma_keys(f: u32, k: Seq<u8>, g: u32, l: Seq<u8>)
    ensures record_key(f, k) == record_key(g, l) <==> f == g && k == l, owner_key(k) == owner_key(l) <==> k == l, count_key(f) == count_key(g) <==> f == g,
        user_nonce_key(f) == user_nonce_key(g) <==> f == g, app_nonce_key(f) == app_nonce_key(g) <==> f == g {
    lemma_be32(f); lemma_be32(g);
    assert(record_key(f, k).skip(6) =~= k); assert(record_key(g, l).skip(6) =~= l); assert(record_key(f, k).subrange(2, 6) =~= be32(f)); assert(record_key(g, l).subrange(2, 6) =~= be32(g));
    assert(owner_key(k).skip(2) =~= k); assert(owner_key(l).skip(2) =~= l); assert(count_key(f).skip(2) =~= be32(f)); assert(count_key(g).skip(2) =~= be32(g));
    assert(user_nonce_key(f).skip(2) =~= be32(f)); assert(user_nonce_key(g).skip(2) =~= be32(g)); assert(app_nonce_key(f).skip(2) =~= be32(f)); assert(app_nonce_key(g).skip(2) =~= be32(g));
}
proof fn theorem_one_owner(s: S, f: u32, g: u32, k: Seq<u8>) requires books(s), owns(s, f, k), owns(s, g, k) ensures f == g { lemma_be32_inj(f, g); }
proof fn theorem_empty_books(s: S) requires forall|k: Seq<u8>| #[trigger] s(k) is None ensures books(s) {
    assert forall|f: u32| #[trigger] tallied(s, f) by { assert(all_of(s, f, Set::empty())); }
}
// rows of other kinds do not matter
proof fn lemma_other_rows(s: S, k: Seq<u8>, v: Option<Seq<u8>>) requires books(s), k.len() >= 2, k[1] != 105, k[1] != 106, k[1] != 107 ensures books(upd(s, k, v)) {
    broadcast use lemma_apart;
    let n = upd(s, k, v);
    assert forall|f: u32, x: Seq<u8>| true implies #[trigger] owns(n, f, x) == owns(s, f, x) by {}
    assert forall|x: Seq<u8>| true implies #[trigger] claimed(n, x) == claimed(s, x) && n(owner_key(x)) == s(owner_key(x)) by {}
    assert forall|f: u32| #[trigger] tallied(n, f) by {
        assert(tallied(s, f)); let g = choose|g: Set<Seq<u8>>| #[trigger] all_of(s, f, g) && number(s, count_key(f)) == g.len() && g.len() <= 1000;
        assert(all_of(n, f, g));
    }
    assert forall|f: u32, x: Seq<u8>| #[trigger] owns(n, f, x) implies n(owner_key(x)) == Some(be32(f)) by { assert(owns(s, f, x)); }
    assert forall|x: Seq<u8>| #[trigger] claimed(n, x) implies owns(n, unbe32(n(owner_key(x))->Some_0), x) by { assert(claimed(s, x)); }
}
proof fn theorem_add_keeps_books(s: S, o: OnchainEventStore, t: B, m: Message, d: proto::MessageData, b: proto::KeyAddBody, replay: bool)
    requires books(s), may_add(s, o, t, d, b, replay) ensures books(with_key(s, m, d, b)), owns(with_key(s, m, d, b), d.fid as u32, b.key@) {
    broadcast use lemma_apart;
    let f = d.fid as u32; let k = b.key@; let n = with_key(s, m, d, b);
    let fresh = owner(s, k) is None;
    lemma_be32(f);
    assert forall|g: u32, x: Seq<u8>| true implies #[trigger] owns(n, g, x) == (owns(s, g, x) || (g == f && x == k)) by { lemma_keys(f, k, g, x); }
    assert forall|x: Seq<u8>| true implies #[trigger] n(owner_key(x)) == (if x == k { Some(be32(f)) } else { s(owner_key(x)) }) by { lemma_keys(f, k, f, x); }
    assert forall|g: u32, x: Seq<u8>| #[trigger] owns(n, g, x) implies n(owner_key(x)) == Some(be32(g)) by {
        if x == k && owns(s, g, x) && !(g == f) { assert(claimed(s, k)); lemma_be32(g); assert(false); }
    }
    assert forall|x: Seq<u8>| #[trigger] claimed(n, x) implies owns(n, unbe32(n(owner_key(x))->Some_0), x) by { if x != k { assert(claimed(s, x)); } }
    assert forall|g: u32| #[trigger] tallied(n, g) by {
        assert(tallied(s, g)); lemma_keys(f, k, g, k);
        let q = choose|q: Set<Seq<u8>>| #[trigger] all_of(s, g, q) && number(s, count_key(g)) == q.len() && q.len() <= 1000;
        if g == f && fresh {
            assert(!owns(s, f, k));
            assert(!q.contains(k)); lemma_be32((q.len() + 1) as u32);
            assert(all_of(n, g, q.insert(k)));
        } else {
            if g == f { assert(claimed(s, k)); assert(owns(s, f, k)); }
            assert(all_of(n, g, q));
        }
    }
}
proof fn theorem_remove_keeps_books(s: S, o: OnchainEventStore, t: B, m: Message, d: proto::MessageData, b: proto::KeyRemoveBody)
    requires books(s), may_remove(s, o, t, m, d, b) ensures books(without_key(s, d, b)), !claimed(without_key(s, d, b), b.key@), without_key(s, d, b)(used_key(d.fid as u32, b.key@)) is None, forall|g: u32| !#[trigger] owns(without_key(s, d, b), g, b.key@) {
    broadcast use lemma_apart;
    let f = d.fid as u32; let k = b.key@; let n = without_key(s, d, b);
    assert(owns(s, f, k)); lemma_be32(f);
    assert forall|g: u32, x: Seq<u8>| true implies #[trigger] owns(n, g, x) == (owns(s, g, x) && !(g == f && x == k)) by { lemma_keys(f, k, g, x); }
    assert forall|x: Seq<u8>| true implies #[trigger] n(owner_key(x)) == (if x == k { None } else { s(owner_key(x)) }) by { lemma_keys(f, k, f, x); }
    assert forall|g: u32| !#[trigger] owns(n, g, k) by { if owns(n, g, k) { theorem_one_owner(s, f, g, k); } }
    assert forall|g: u32, x: Seq<u8>| #[trigger] owns(n, g, x) implies n(owner_key(x)) == Some(be32(g)) by {}
    assert forall|x: Seq<u8>| #[trigger] claimed(n, x) implies owns(n, unbe32(n(owner_key(x))->Some_0), x) by { assert(claimed(s, x)); }
    assert forall|g: u32| #[trigger] tallied(n, g) by {
        assert(tallied(s, g)); lemma_keys(f, k, g, k);
        let q = choose|q: Set<Seq<u8>>| #[trigger] all_of(s, g, q) && number(s, count_key(g)) == q.len() && q.len() <= 1000;
        if g == f {
            assert(q.contains(k)); lemma_be32((q.len() - 1) as u32);
            assert(all_of(n, g, q.remove(k)));
        } else { assert(all_of(n, g, q)); }
    }
}
proof fn theorem_use_keeps_books(s: S, f: u32, k: Seq<u8>, ts: u32) requires books(s) ensures books(noted(s, used_key(f, k), ts)) { broadcast use lemma_apart; lemma_other_rows(s, used_key(f, k), Some(be32(ts))); }
// ---- no grant and no order works twice, whatever happens in between
pub enum Deed { Grant { m: Message, d: proto::MessageData, b: proto::KeyAddBody, o: OnchainEventStore, t: B, replay: bool }, Order { m: Message, d: proto::MessageData, b: proto::KeyRemoveBody, o: OnchainEventStore, t: B }, Use { f: u32, k: Seq<u8>, ts: u32 } }
pub open spec fn done(s: S, n: S, e: Deed) -> bool { match e {
    Deed::Grant { m, d, b, o, t, replay } => may_add(s, o, t, d, b, replay) && n == with_key(s, m, d, b),
    Deed::Order { m, d, b, o, t } => may_remove(s, o, t, m, d, b) && n == without_key(s, d, b),
    Deed::Use { f, k, ts } => n == noted(s, used_key(f, k), ts),
} }
pub open spec fn history(tr: Seq<S>, ev: Seq<Deed>) -> bool { tr.len() == ev.len() + 1 && forall|i: int| 0 <= i < ev.len() ==> done(#[trigger] tr[i], tr[i + 1], ev[i]) }
// the counter a deed uses up, and the number it uses
pub open spec fn spends(s: S, e: Deed) -> Option<(Seq<u8>, u32)> { match e {
    Deed::Grant { m, d, b, o, t, replay } => Some((user_nonce_key(d.fid as u32), b.nonce)), Deed::Order { m, d, b, o, t } => Some((counter_of(s, d, b), b.nonce)), Deed::Use { .. } => None } }
pub open spec fn is_counter(c: Seq<u8>) -> bool { exists|f: u32| #![trigger user_nonce_key(f)] #![trigger app_nonce_key(f)] c == user_nonce_key(f) || c == app_nonce_key(f) }
proof fn lemma_counters(s: S, n: S, e: Deed, c: Seq<u8>) requires done(s, n, e), is_counter(c)
    ensures number(n, c) >= number(s, c), spends(s, e) matches Some(p) ==> is_counter(p.0) && p.1 > number(s, p.0) && number(n, p.0) == p.1 {
    broadcast use lemma_apart;
    let f = choose|f: u32| #![trigger user_nonce_key(f)] #![trigger app_nonce_key(f)] c == user_nonce_key(f) || c == app_nonce_key(f);
    match e {
        Deed::Grant { m, d, b, o, t, replay } => { lemma_be32(b.nonce); lemma_keys(f, b.key@, d.fid as u32, b.key@); assert(is_counter(user_nonce_key(d.fid as u32))); },
        Deed::Order { m, d, b, o, t } => {
            lemma_be32(b.nonce); lemma_keys(f, b.key@, d.fid as u32, b.key@);
            let a = record(s, d.fid as u32, b.key@)->Some_0.request_fid as u32; lemma_keys(f, b.key@, a, b.key@);
            assert(is_counter(user_nonce_key(d.fid as u32))); assert(is_counter(app_nonce_key(a)));
        },
        Deed::Use { f, k, ts } => {},
    }
}
proof fn lemma_counters_grow(tr: Seq<S>, ev: Seq<Deed>, i: int, j: int, c: Seq<u8>) requires history(tr, ev), 0 <= i <= j < tr.len(), is_counter(c) ensures number(tr[j], c) >= number(tr[i], c) decreases j - i {
    if i < j { lemma_counters_grow(tr, ev, i, j - 1, c); lemma_counters(tr[j - 1], tr[j - 1 + 1], ev[j - 1], c); }
}
proof fn theorem_once(tr: Seq<S>, ev: Seq<Deed>, i: int, j: int)
    requires history(tr, ev), 0 <= i < j < ev.len(), spends(tr[i], ev[i]) is Some, spends(tr[j], ev[j]) is Some, spends(tr[i], ev[i])->Some_0.0 == spends(tr[j], ev[j])->Some_0.0
    ensures spends(tr[j], ev[j])->Some_0.1 > spends(tr[i], ev[i])->Some_0.1 {
    let p = spends(tr[i], ev[i])->Some_0; let u = user_nonce_key(0); assert(u == user_nonce_key(0) || u == app_nonce_key(0)); assert(is_counter(u));
    lemma_counters(tr[i], tr[i + 1], ev[i], u); lemma_counters(tr[j], tr[j + 1], ev[j], u);
    lemma_counters_grow(tr, ev, i + 1, j, p.0);
}
proof fn theorem_books_always(tr: Seq<S>, ev: Seq<Deed>, i: int) requires history(tr, ev), 0 <= i < tr.len(), forall|k: Seq<u8>| #[trigger] tr[0](k) is None ensures books(tr[i]) decreases i {
    if i == 0 { theorem_empty_books(tr[0]); } else {
        theorem_books_always(tr, ev, i - 1); let s = tr[i - 1]; assert(done(s, tr[i - 1 + 1], ev[i - 1]));
        match ev[i - 1] {
            Deed::Grant { m, d, b, o, t, replay } => { theorem_add_keeps_books(s, o, t, m, d, b, replay); },
            Deed::Order { m, d, b, o, t } => { theorem_remove_keeps_books(s, o, t, m, d, b); },
            Deed::Use { f, k, ts } => { theorem_use_keeps_books(s, f, k, ts); },
        }
    }
}
} // verus!
fn main() {}
