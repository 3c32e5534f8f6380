//@include prelude.vrs
//@include errors.vrs
//@include time.vrs
//@proto Message MessageData MessageType OnChainEvent OnChainEventType Signer SignerSource
use proto::{message_data, message_data::Body, Message, MessageType, OnChainEvent, Signer, SignerSource};
use std::sync::Arc;
//@item src/storage/store/account/active_key.rs::ActiveKey
// bit i of a mask; what a grant lists
pub open spec fn has(mask: u64, i: int) -> bool { 0 <= i < 64 && (mask & (1u64 << (i as u64))) != 0 }
pub open spec fn lists(scopes: Seq<i32>, i: int) -> bool { exists|k: int| 0 <= k < scopes.len() && #[trigger] scopes[k] == i }
proof fn lemma_set(m: u64, b: u32) requires b < 64 ensures forall|i: int| #[trigger] has(m | (1u64 << b), i) <==> has(m, i) || i == b {
    assert forall|i: int| #[trigger] has(m | (1u64 << b), i) <==> has(m, i) || i == b by {
        if 0 <= i < 64 {
            let j = i as u64; let c = b as u64;
            assert(j < 64 && c < 64 ==> ((((m | (1u64 << c)) & (1u64 << j)) != 0) <==> ((m & (1u64 << j)) != 0 || j == c))) by (bit_vector);
            assert((1u64 << b) == (1u64 << c)) by (bit_vector) requires c == b as u64;
        }
    }
}
proof fn lemma_none() ensures forall|i: int| !#[trigger] has(0, i) {
    assert forall|i: int| !#[trigger] has(0, i) by { let j = i as u64; assert(0u64 & (1u64 << j) == 0) by (bit_vector); }
}
// what a key may sign
pub open spec fn may(k: ActiveKey, t: MessageType) -> bool { match k { ActiveKey::OnChain => true, ActiveKey::Gasless { scopes_mask, ttl_seconds } => has(scopes_mask, t as int) } }
// a mask that stands for a list of scopes
pub open spec fn stands_for(mask: u64, scopes: Seq<i32>) -> bool { forall|i: int| #[trigger] has(mask, i) <==> 0 <= i < 64 && lists(scopes, i) }
impl ActiveKey {
//@fn src/storage/store/account/active_key.rs::ActiveKey::admits -> r
    ensures r == may(*self, msg_type),
//@rw `scopes_mask & bit` => `*scopes_mask & bit`
//@start
    proof { let i = msg_type as i32 as u32; assert((1u64 << i) == (1u64 << (i as u64))) by (bit_vector); }
//@endfn
}
//@fn src/storage/store/account/active_key.rs::compute_scopes_mask -> r
    ensures stands_for(r, scopes@),
//@start
    proof { lemma_none(); }
//@loop 0
    invariant forall|i: int| #[trigger] has(mask, i) <==> 0 <= i < 64 && lists(scopes@.take(vx_i0 as int), i),
//@loopstart 0
    let ghost m0 = mask;
    proof {
        let s = scopes@[vx_i0 as int];
        assert(scopes@.take(vx_i0 + 1) =~= scopes@.take(vx_i0 as int).push(s));
        assert forall|i: int| #[trigger] lists(scopes@.take(vx_i0 + 1), i) <==> lists(scopes@.take(vx_i0 as int), i) || s == i by {
            if lists(scopes@.take(vx_i0 as int), i) { let k = choose|k: int| 0 <= k < vx_i0 && #[trigger] scopes@.take(vx_i0 as int)[k] == i; assert(scopes@.take(vx_i0 + 1)[k] == i); }
            if s == i { assert(scopes@.take(vx_i0 + 1)[vx_i0 as int] == i); }
            if lists(scopes@.take(vx_i0 + 1), i) { let k = choose|k: int| 0 <= k < vx_i0 + 1 && #[trigger] scopes@.take(vx_i0 + 1)[k] == i; if k < vx_i0 { assert(scopes@.take(vx_i0 as int)[k] == i); } }
        }
        if 0 <= s < 64 { lemma_set(m0, s as u32); }
    }
//@loopafter 0
    proof { assert(scopes@.take(scopes@.len() as int) =~= scopes@); }
//@endfn
//@fn src/storage/store/account/active_key.rs::message_type_bit -> r
    ensures r == (if (msg_type as int) < 64 { 1u64 << (msg_type as i32 as u64) } else { 0 }),
//@start
    proof { let i = msg_type as i32 as u32; assert((1u64 << i) == (1u64 << (i as u64))) by (bit_vector); }
//@endfn
pub open spec fn grant(m: Option<Message>) -> Option<proto::KeyAddBody> {
    match m { Some(m) => match m.data { Some(d) => match d.body { Some(Body::KeyAddBody(b)) => Some(b), _ => None }, None => None }, None => None }
}
//@fn src/storage/store/account/active_key.rs::extract_scope_and_ttl -> r
    ensures match grant(*message) { Some(b) => r is Some && stands_for(r->Some_0.0, b.scopes@) && r->Some_0.1 == b.ttl, None => r is None },
//@endfn
//@fn src/network/server.rs::signer_from_onchain_event -> r
    ensures r.fid == event.fid, r.added_at == Some(event.block_timestamp), r.source == SignerSource::Onchain as i32,
        match event.body { Some(proto::on_chain_event::Body::SignerEventBody(b)) => r.key@ == b.key@ && r.key_type == b.key_type, _ => r.key@.len() == 0 && r.key_type == 0 },
        r.last_used_at is None, r.ttl is None, r.expires_at is None, r.scopes@.len() == 0, r.request_fid is None, r.nonce is None, r.onchain_event == Some(*event),
//@rw `Some(Body::SignerEventBody(` => `Some(proto::on_chain_event::Body::SignerEventBody(`
//@endfn
//@item src/storage/store/account/key_add_store.rs::GaslessKeyRecord
//@fn src/network/server.rs::signer_from_gasless_record -> r
    requires last_used_at is Some ==> last_used_at->Some_0 + 1609459200 + u32::MAX <= u64::MAX,
    ensures match grant(record.message) {
        None => r is None,
        Some(b) => r is Some && {
            let s = r->Some_0; let t = record.message->Some_0.data->Some_0.timestamp;
            &&& s.source == SignerSource::Offchain as i32 && s.key@ == public_key@ && s.fid == fid && s.key_type == b.key_type
            &&& s.ttl == Some(b.ttl) && s.scopes@ == b.scopes@ && s.nonce == Some(b.nonce) && s.request_fid == Some(record.request_fid) && s.onchain_event is None
            &&& s.added_at == Some((t + 1609459200) as u64)
            &&& s.last_used_at == (match last_used_at { Some(u) => Some((u + 1609459200) as u64), None => None })
            // it lives for its lifetime after its last use; without a lifetime it does not expire
            &&& s.expires_at == (if last_used_at is Some && b.ttl > 0 { Some((last_used_at->Some_0 + 1609459200 + b.ttl) as u64) } else { None })
        },
    },
//@closure 0 |t: u64| -> (o: u64) requires t + 1609459200 <= u64::MAX ensures o == t + 1609459200
//@endfn
pub fn vx_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { let r = s.to_vec(); assert(r@ =~= s@); r }
// ---- looking a key up: on chain first, then the gasless records
#[verifier::external_body] pub struct OnchainEventStorageErrorPayload { x: u8 }
pub enum OnchainEventStorageError { HubError(HubError), Other(OnchainEventStorageErrorPayload) }
#[verifier::external_body] pub struct RocksDB { x: u8 }
#[verifier::external_body] pub struct RocksDbTransactionBatch { x: u8 }
#[verifier::external_body] pub struct OnchainEventStore { x: u8 }
pub uninterp spec fn onchain(s: OnchainEventStore, t: RocksDbTransactionBatch, fid: u64, key: Seq<u8>) -> Result<Option<OnChainEvent>, OnchainEventStorageError>;
pub uninterp spec fn gasless(db: RocksDB, t: RocksDbTransactionBatch, fid: u64, key: Seq<u8>) -> Result<Option<GaslessKeyRecord>, HubError>;
impl OnchainEventStore { #[verifier::external_body] pub fn get_active_signer(&self, fid: u64, key: Vec<u8>, t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<OnChainEvent>, OnchainEventStorageError>)
    requires t is Some ensures r == onchain(*self, *t->Some_0, fid, key@) { unimplemented!() } }
#[verifier::external_body] pub fn get_gasless_key_record(db: &Arc<RocksDB>, t: &RocksDbTransactionBatch, fid: u64, key: &[u8]) -> (r: Result<Option<GaslessKeyRecord>, HubError>) ensures r == gasless(**db, *t, fid, key@) { unimplemented!() }
//@fn src/storage/store/account/active_key.rs::get_active_key -> r
    ensures match onchain(*onchain_event_store, *txn_batch, fid, signer@) {
        Err(_) => r is Err,
        Ok(Some(_)) => r == Ok::<Option<ActiveKey>, OnchainEventStorageError>(Some(ActiveKey::OnChain)),
        Ok(None) => match gasless(**db, *txn_batch, fid, signer@) {
            Err(_) => r is Err,
            Ok(None) => r == Ok::<Option<ActiveKey>, OnchainEventStorageError>(None),
            // a gasless key may sign exactly what its grant lists
            Ok(Some(g)) => r is Ok && r->Ok_0 is Some && forall|t: MessageType| #[trigger] may(r->Ok_0->Some_0, t) <==> grant(g.message) is Some && (t as int) < 64 && lists(grant(g.message)->Some_0.scopes@, t as int),
        },
    },
//@rw `.map_err(OnchainEventStorageError::HubError)` => `.map_err(|e: HubError| -> (o: OnchainEventStorageError) { OnchainEventStorageError::HubError(e) })`
//@rw `signer.to_vec()` => `vx_vec(signer)`
//@start
    proof { lemma_none(); }
//@endfn
} // verus!
fn main() {}
