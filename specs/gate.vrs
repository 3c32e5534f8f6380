// What both gates share: the codec, the look-ups by user and key, what a key may sign.
//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@include time.vrs
//@include version.vrs
//@include strings.vrs
//@include batch.vrs
//@proto Message MessageType MergeMessageBody FarcasterNetwork UserNameProof OnChainEvent Protocol UserDataType VerificationAddAddressBody ChannelMemberAction MembershipMode StorageUnitType ChannelModerateAction
use proto::{message_data, message_data::Body, VerificationAddAddressBody, Message, MessageData, MessageType, FarcasterNetwork, UserNameProof, OnChainEvent, Protocol};
use std::sync::Arc;
//@item src/core/validations/error.rs::ValidationError
//@item src/storage/store/account/active_key.rs::ActiveKey
pub mod storage { pub mod store { pub mod account { pub use super::super::super::{get_active_key, check_and_bump_last_used_at, ActiveKey}; } } }
// ---- the message codec (prost, trusted): one decoding of bytes
pub struct DecodeError { pub k: u8 }
pub uninterp spec fn decoded(b: Seq<u8>) -> Option<MessageData>;
impl MessageData { #[verifier::external_body] pub fn decode(b: &[u8]) -> (r: Result<MessageData, DecodeError>) ensures (r is Ok) == (decoded(b@) is Some), r is Ok ==> r->Ok_0 == decoded(b@)->Some_0 { unimplemented!() } }
// derive(PartialEq) compares every field
impl vstd::std_specs::cmp::PartialEqSpecImpl for MessageData { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &MessageData) -> bool { *self == *o } }
impl PartialEq for MessageData { #[verifier::external_body] fn eq(&self, o: &MessageData) -> (r: bool) { unimplemented!() } }
// what takes effect is what was signed
pub open spec fn as_signed(m: Message) -> bool { m.data_bytes is Some ==> decoded(m.data_bytes->Some_0@) is Some && m.data == decoded(m.data_bytes->Some_0@) }
// ---- what the shard holds, read through the batch (each looked-up thing is one function of the store and the batch's contents; the look-ups themselves are C09, C13, C19, C20, C39)
#[verifier::external_body] pub struct RocksDB { x: u8 }
#[verifier::external_body] pub struct OnchainEventStorageError { x: u8 }
#[verifier::external_body] pub struct OnchainEventStore { x: u8 }
#[verifier::external_body] pub struct VerificationStoreDef { x: u8 }
pub struct VerificationStore {}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Store<T> { x: std::marker::PhantomData<T> }
impl OnchainEventStorageError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn registration(s: OnchainEventStore, fid: u64, b: B) -> Result<Option<OnChainEvent>, OnchainEventStorageError>;
pub uninterp spec fn active_key(s: OnchainEventStore, db: RocksDB, b: B, fid: u64, key: Seq<u8>) -> Result<Option<ActiveKey>, OnchainEventStorageError>;
pub uninterp spec fn verified(s: Store<VerificationStoreDef>, fid: u64, a: Seq<u8>, b: B) -> Result<Option<Message>, HubError>;
impl OnchainEventStore { #[verifier::external_body] pub fn get_id_register_event_by_fid(&self, fid: u64, t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<OnChainEvent>, OnchainEventStorageError>) requires t is Some ensures r == registration(*self, fid, t->Some_0.batch@) { unimplemented!() } }
#[verifier::external_body] pub fn get_active_key(s: &OnchainEventStore, db: &Arc<RocksDB>, t: &RocksDbTransactionBatch, fid: u64, key: &[u8]) -> (r: Result<Option<ActiveKey>, OnchainEventStorageError>) ensures r == active_key(*s, **db, t.batch@, fid, key@) { unimplemented!() }
impl VerificationStore { #[verifier::external_body] pub fn get_verification_add(s: &Store<VerificationStoreDef>, fid: u64, a: &[u8], t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<Message>, HubError>) requires t is Some
    ensures r == verified(*s, fid, a@, t->Some_0.batch@), r matches Ok(Some(m)) ==> verification(m) is Some { unimplemented!() } }
pub open spec fn verification(m: Message) -> Option<VerificationAddAddressBody> { match m.data { Some(d) => match d.body { Some(Body::VerificationAddAddressBody(b)) => Some(b), _ => None }, None => None } }
// the last use of a gasless key (C39): it must not be older than its lifetime; passing notes this use
pub uninterp spec fn in_use(db: RocksDB, b: B, fid: u64, key: Seq<u8>, ttl: u32, at: u64) -> bool;
pub uninterp spec fn noted(db: RocksDB, b: B, fid: u64, key: Seq<u8>, ts: u32) -> B;
#[verifier::external_body] pub fn check_and_bump_last_used_at(db: &Arc<RocksDB>, txn: &mut RocksDbTransactionBatch, fid: u64, key: &[u8], ttl: u32, ts: u32, at: u64) -> (r: Result<(), HubError>)
    ensures (r is Ok) == in_use(**db, old(txn).batch@, fid, key@, ttl, at), final(txn).batch@ == (if r is Ok { noted(**db, old(txn).batch@, fid, key@, ts) } else { old(txn).batch@ }) { unimplemented!() }
impl Message {
//@fn proto/src/lib.rs::Message::fid -> r
    ensures r == (match self.data { Some(d) => d.fid, None => 0 }),
//@endfn
}
// the state-free rules (C01 to C08)
pub uninterp spec fn valid(m: Message, net: FarcasterNetwork, pro: bool, t: FarcasterTime, v: EngineVersion) -> bool;
// a loan that passes them is of at most 5000 units (C04)
pub open spec fn modest(m: Message) -> bool { match m.data { Some(d) => match d.body { Some(Body::LendStorageBody(l)) => l.num_units <= 5000, _ => true }, None => true } }
pub mod validations { pub mod error { pub use super::super::ValidationError; } pub mod message {
use super::super::*;
#[verifier::external_body] pub fn validate_message(m: &Message, net: FarcasterNetwork, pro: bool, t: &FarcasterTime, v: EngineVersion) -> (r: Result<(), ValidationError>) ensures (r is Ok) == valid(*m, net, pro, *t, v), r is Ok && as_signed(*m) ==> modest(*m) { unimplemented!() }
//@fn src/core/validations/message.rs::validate_structured_data -> r
    ensures (r is Ok) == as_signed(*message),
//@endfn
} }
// ---- what a key may sign (C09)
pub open spec fn may(k: ActiveKey, t: MessageType) -> bool { match k { ActiveKey::OnChain => true, ActiveKey::Gasless { scopes_mask, ttl_seconds } => (t as int) < 64 && (scopes_mask & (1u64 << (t as i32 as u64))) != 0 } }
impl ActiveKey {
//@fn src/storage/store/account/active_key.rs::ActiveKey::admits -> r
    ensures r == may(*self, msg_type),
//@rw `scopes_mask & bit` => `*scopes_mask & bit`
//@start
    proof { let i = msg_type as i32 as u32; assert((1u64 << i) == (1u64 << (i as u64))) by (bit_vector); assert(*self matches ActiveKey::Gasless { scopes_mask, .. } ==> scopes_mask & 0 == 0) by { if let ActiveKey::Gasless { scopes_mask, .. } = *self { assert(scopes_mask & 0 == 0) by (bit_vector); } } }
//@endfn
}
//@fn src/storage/store/account/active_key.rs::message_type_bit -> r
    ensures r == (if (msg_type as int) < 64 { 1u64 << (msg_type as i32 as u64) } else { 0 }),
//@start
    proof { let i = msg_type as i32 as u32; assert((1u64 << i) == (1u64 << (i as u64))) by (bit_vector); }
//@endfn
