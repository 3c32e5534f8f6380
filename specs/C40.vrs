// The gate of a data shard: what a user message must satisfy before it is merged, and what passing it writes.
//@include gate.vrs
//@item src/storage/store/engine.rs::MessageValidationError
impl From<ValidationError> for MessageValidationError { #[verifier::external_body] fn from(e: ValidationError) -> MessageValidationError { unimplemented!() } }
impl From<HubError> for MessageValidationError { #[verifier::external_body] fn from(e: HubError) -> MessageValidationError { unimplemented!() } }
pub mod bs58 { use super::*; pub struct Text { pub s: String } #[verifier::external_body] pub fn decode(s: &str) -> (r: Text) ensures r.s@ == s@ { unimplemented!() } impl Text { #[verifier::external_body] pub fn into_vec(self) -> (r: Result<Vec<u8>, AddressError>) ensures (r is Ok) == (base58(self.s@) is Some), r is Ok ==> r->Ok_0@ == base58(self.s@)->Some_0 { unimplemented!() } } }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExInstant(std::time::Instant);
pub assume_specification [std::time::Instant::now] () -> std::time::Instant;
pub assume_specification [std::time::Instant::elapsed] (_0: &std::time::Instant) -> std::time::Duration;
pub assume_specification [std::time::Duration::as_micros] (_0: &std::time::Duration) -> u128;
#[verifier::external_body] pub struct UsernameProofStoreDef { x: u8 }
#[verifier::external_body] pub struct UserDataStoreDef { x: u8 }
pub struct UsernameProofStore {} pub struct UserDataStore {}
pub uninterp spec fn pro(s: Stores, fid: u64, t: FarcasterTime) -> Result<bool, OnchainEventStorageError>;
pub uninterp spec fn eth_name(s: Store<UsernameProofStoreDef>, name: Seq<u8>, b: B) -> Result<Option<Message>, HubError>;
pub uninterp spec fn fname(s: Store<UserDataStoreDef>, name: Seq<u8>, b: B) -> Result<Option<UserNameProof>, HubError>;
impl Stores { #[verifier::external_body] pub fn is_pro_user(&self, fid: u64, t: &FarcasterTime) -> (r: Result<bool, OnchainEventStorageError>) ensures r == pro(*self, fid, *t) { unimplemented!() } }
impl UsernameProofStore { #[verifier::external_body] pub fn get_username_proof(s: &Store<UsernameProofStoreDef>, name: &Vec<u8>, t: &RocksDbTransactionBatch) -> (r: Result<Option<Message>, HubError>) ensures r == eth_name(*s, name@, t.batch@) { unimplemented!() } }
impl UserDataStore { #[verifier::external_body] pub fn get_username_proof(s: &Store<UserDataStoreDef>, t: &RocksDbTransactionBatch, name: &[u8]) -> (r: Result<Option<UserNameProof>, HubError>) ensures r == fname(*s, name@, t.batch@) { unimplemented!() } }
// ---- addresses and names as text (alloy, bs58, trusted)
pub struct Address { pub b: Vec<u8> }
pub struct AddressError { pub k: u8 }
pub uninterp spec fn eth_address(s: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn base58(s: Seq<char>) -> Option<Seq<u8>>;
impl Address { pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() } #[verifier::external_body] pub fn from_hex(s: &str) -> (r: Result<Address, AddressError>) ensures (r is Ok) == (eth_address(s@) is Some), r is Ok ==> r->Ok_0.b@ == eth_address(s@)->Some_0 { unimplemented!() } }
pub open spec fn tail_is(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.subrange(s.len() - t.len(), s.len() as int) =~= t }
#[verifier::external_body] pub fn vx_ends_with(s: &str, t: &str) -> (r: bool) ensures r == tail_is(s@, t@) { unimplemented!() }
pub fn vx_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { let r = s.to_vec(); assert(r@ =~= s@); r }
pub struct Metrics { pub x: u8 }
impl Metrics { #[verifier::external_body] pub fn time_with_shard(&self, n: &str, v: u64) { unimplemented!() } }
// the fields of the engine and its stores that the gate reads
pub struct Stores { pub onchain_event_store: OnchainEventStore, pub username_proof_store: Store<UsernameProofStoreDef>, pub user_data_store: Store<UserDataStoreDef>, pub verification_store: Store<VerificationStoreDef>, pub db: Arc<RocksDB> }
pub struct ShardEngine { pub network: FarcasterNetwork, pub stores: Stores, pub metrics: Metrics }
// ---- the gate
// a user is on record as holding an address of this chain
pub open spec fn owns(s: Stores, b: B, fid: u64, p: Protocol, a: Seq<u8>) -> bool {
    match verified(s.verification_store, fid, a, b) { Ok(Some(m)) => verification(m) is Some && verification(m)->Some_0.protocol == p as i32, _ => false }
}
pub open spec fn eth_suffix() -> Seq<char> { seq!['.', 'e', 't', 'h'] }
pub open spec fn proof_of(m: Option<Message>) -> Option<UserNameProof> {
    match m { Some(m) => match m.data { Some(d) => match d.body { Some(Body::UsernameProofBody(p)) => Some(p), _ => None }, None => None }, None => None }
}
pub open spec fn name_proof(s: Stores, b: B, name: Seq<char>) -> Result<Option<UserNameProof>, HubError> {
    if tail_is(name, eth_suffix()) { match eth_name(s.username_proof_store, encode_utf8(name), b) { Ok(m) => Ok(proof_of(m)), Err(e) => Err(e) } } else { fname(s.user_data_store, encode_utf8(name), b) }
}
pub open spec fn holds_name(s: Stores, b: B, fid: u64, name: Seq<char>) -> bool { name.len() == 0 || match name_proof(s, b, name) { Ok(Some(p)) => p.fid == fid, _ => false } }
pub open spec fn eth_ok(s: Stores, b: B, fid: u64, a: Seq<char>) -> bool { a.len() == 0 || eth_address(a) is Some && owns(s, b, fid, Protocol::Ethereum, eth_address(a)->Some_0) }
pub open spec fn sol_ok(s: Stores, b: B, fid: u64, a: Seq<char>) -> bool { a.len() == 0 || base58(a) is Some && base58(a)->Some_0.len() == 32 && owns(s, b, fid, Protocol::Solana, base58(a)->Some_0) }
pub open spec fn body_holds(s: Stores, b: B, d: MessageData) -> bool {
    match d.body { Some(Body::UserDataBody(u)) => {
        &&& u.r#type == proto::UserDataType::Username as i32 ==> holds_name(s, b, d.fid, u.value@)
        &&& u.r#type == proto::UserDataType::UserDataPrimaryAddressEthereum as i32 ==> eth_ok(s, b, d.fid, u.value@)
        &&& u.r#type == proto::UserDataType::UserDataPrimaryAddressSolana as i32 ==> sol_ok(s, b, d.fid, u.value@)
    }, _ => true }
}
// what earlier messages of the same batch did counts only from the version that says so
pub open spec fn view(v: EngineVersion, b: B) -> B { if enabled(v, ProtocolFeature::DependentMessagesInBulkSubmit) { b } else { B::empty() } }
pub open spec fn key_message(n: i32) -> bool { n == 16 || n == 17 }
pub open spec fn may_enter(n: i32, v: EngineVersion) -> bool {
    &&& key_message(n) ==> enabled(v, ProtocolFeature::GaslessSigners)
    // loans and channel messages enter through shard 0 only, and verifications too once that is on
    &&& n != 15 && !(18 <= n <= 21)
    &&& (n == 7 || n == 8) ==> !enabled(v, ProtocolFeature::VerificationsOnShardZero)
}
pub open spec fn type_of(n: i32) -> MessageType { match MessageType::of(n) { Ok(t) => t, Err(_) => MessageType::None } }
pub open spec fn signer_key(s: Stores, b: B, m: Message) -> Option<ActiveKey> { match active_key(s.onchain_event_store, *s.db, b, m.data->Some_0.fid, m.signer@) { Ok(k) => k, Err(_) => None } }
pub open spec fn signed_by_active_key(s: Stores, b: B, m: Message) -> bool { match signer_key(s, b, m) { Some(k) => may(k, type_of(m.data->Some_0.r#type)), None => false } }
// the lifetime, if the key that signed is one that expires
pub open spec fn lifetime(s: Stores, b: B, m: Message) -> Option<u32> {
    if key_message(m.data->Some_0.r#type) { None } else { match signer_key(s, b, m) { Some(ActiveKey::Gasless { ttl_seconds, .. }) => if ttl_seconds > 0 { Some(ttl_seconds) } else { None }, _ => None } }
}
pub open spec fn admitted(e: ShardEngine, m: Message, t: FarcasterTime, v: EngineVersion, b: B) -> bool {
    &&& m.data is Some
    &&& match pro(e.stores, m.data->Some_0.fid, t) { Ok(p) => valid(m, e.network, p, t, v), Err(_) => false }
    &&& as_signed(m)
    &&& registration(e.stores.onchain_event_store, m.data->Some_0.fid, view(v, b)) is Ok && registration(e.stores.onchain_event_store, m.data->Some_0.fid, view(v, b))->Ok_0 is Some
    &&& key_message(m.data->Some_0.r#type) || signed_by_active_key(e.stores, view(v, b), m)
    &&& may_enter(m.data->Some_0.r#type, v)
    &&& body_holds(e.stores, view(v, b), m.data->Some_0)
    &&& match lifetime(e.stores, view(v, b), m) { None => true, Some(ttl) => in_use(*e.stores.db, b, m.data->Some_0.fid, m.signer@, ttl, t.time) }
}
impl ShardEngine {
//@fn src/storage/store/engine.rs::ShardEngine::validate_user_message -> r
    ensures (r is Ok) == admitted(*self, *message, *timestamp, version, old(txn_batch).batch@),
        // passing notes the use of an expiring key and writes nothing else; a refusal writes nothing
        final(txn_batch).batch@ == (match lifetime(self.stores, view(version, old(txn_batch).batch@), *message) {
            Some(ttl) if r is Ok => noted(*self.stores.db, old(txn_batch).batch@, message.data->Some_0.fid, message.signer@, message.data->Some_0.timestamp),
            _ => old(txn_batch).batch@ }),
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::validate_username -> r
    ensures (r is Ok) == holds_name(self.stores, txn.batch@, fid, name@),
//@rw `let proof = self` => `let vx_proof = self`
//@rw `match proof {` => `match vx_proof {`
//@rw `Some(proof) => {` => `Some(vx_proof) => {`
//@rw `proof.fid` => `vx_proof.fid`
//@rw `name.ends_with(".eth")` => `vx_ends_with(&name, ".eth")`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::get_username_proof -> r
    ensures match name_proof(self.stores, txn.batch@, name@) { Ok(p) => r == Ok::<Option<UserNameProof>, MessageValidationError>(p), Err(_) => r is Err },
//@start
    proof { reveal_strlit(".eth"); assert(".eth"@ =~= eth_suffix()); }
//@rw `name.ends_with(".eth")` => `vx_ends_with(&name, ".eth")`
//@rw `name.as_bytes().to_vec()` => `vx_vec(name.as_bytes())`
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::validate_ethereum_address_ownership -> r
    ensures (r is Ok) == eth_ok(self.stores, txn_batch.batch@, fid, address@),
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::validate_solana_address_ownership -> r
    ensures (r is Ok) == sol_ok(self.stores, txn_batch.batch@, fid, address@),
//@endfn
//@fn src/storage/store/engine.rs::ShardEngine::verify_fid_owns_address -> r
    ensures (r is Ok) == owns(self.stores, txn_batch.batch@, fid, protocol, address@),
//@endfn
}
} // verus!
fn main() {}
