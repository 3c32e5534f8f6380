//@include prelude.vrs
global size_of usize == 8;
//@include strings.vrs
//@include errors.vrs
//@proto Message MessageType CastId OnChainEvent OnChainEventType
//@include keys.vrs
use proto::{Message, MessageData, LinkBody, OnChainEvent, OnChainEventType};
use proto::message_data::Body;
//@include sets.vrs
// ---- casts ----
use proto::cast_add_body::Parent;
pub open spec fn parent_key(p: Parent) -> Seq<u8> { match p { Parent::ParentUrl(u) => encode_utf8(u@), Parent::ParentCastId(c) => cast_id_key(c) } }
pub open spec fn opt_fid(fid: u64) -> Seq<u8> { if fid > 0 { fid_key(fid) } else { Seq::empty() } }
pub open spec fn hash_or_none(h: Seq<u8>) -> Seq<u8> { if h.len() == 20 { h } else { Seq::empty() } }
pub open spec fn mention_keys(v: Seq<Vec<u8>>, m: Seq<u64>, h: Seq<u8>, fid: u64) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == seq![5u8] + fid_key(m[i]) + h + opt_fid(fid)
}
//@item src/storage/store/account/cast_store.rs::CastStoreDef
impl CastStoreDef {
//@fn src/storage/store/account/cast_store.rs::CastStoreDef::make_parent_key -> r
    ensures r@ =~= parent_key(*target),
//@endfn
//@fn src/storage/store/account/cast_store.rs::CastStoreDef::make_cast_by_parent_key -> r
    ensures r@ =~= seq![4u8] + parent_key(*parent) + opt(ts_hash) + opt_fid(fid),
//@endfn
//@fn src/storage/store/account/cast_store.rs::CastStoreDef::make_cast_by_mention_key -> r
    ensures r@ =~= seq![5u8] + fid_key(mention) + opt(ts_hash) + opt_fid(fid),
//@endfn
//@fn src/storage/store/account/cast_store.rs::CastStoreDef::make_cast_adds_key -> r
    ensures r@ =~= user_key(fid) + seq![87u8] + hash_or_none(hash@),
//@endfn
//@fn src/storage/store/account/cast_store.rs::CastStoreDef::make_cast_removes_key -> r
    ensures r@ =~= user_key(fid) + seq![88u8] + hash_or_none(hash@),
//@endfn
//@fn src/storage/store/account/cast_store.rs::CastStoreDef::by_parent_secondary_index_key -> r
//@rw `message::message_data` => `proto::message_data`
    requires message.data is Some, message.data->Some_0.body is Some,
    ensures
        match message.data->Some_0.body->Some_0 {
            Body::CastAddBody(b) => match b.parent {
                Some(p) => r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0@ =~= seq![4u8] + parent_key(p) + ts_hash@ + opt_fid(message.data->Some_0.fid),
                None => r is Err },
            Body::CastRemoveBody(_) => r == Ok::<Option<Vec<u8>>, HubError>(None),
            _ => r is Err,
        },
//@endfn
//@fn src/storage/store/account/cast_store.rs::CastStoreDef::by_mention_secondary_index_key -> r
//@rw `message::message_data` => `proto::message_data`
    requires message.data is Some, message.data->Some_0.body is Some,
    ensures
        match message.data->Some_0.body->Some_0 {
            Body::CastAddBody(b) => r is Ok && (b.mentions@.len() == 0 ==> r->Ok_0 is None) && (b.mentions@.len() > 0 ==> r->Ok_0 is Some && r->Ok_0->Some_0@.len() == b.mentions@.len()
                && mention_keys(r->Ok_0->Some_0@, b.mentions@, ts_hash@, message.data->Some_0.fid)),
            Body::CastRemoveBody(_) => r == Ok::<Option<Vec<Vec<u8>>>, HubError>(None),
            _ => r is Err,
        },
//@loops 1
//@loop 0
    invariant message.data is Some, cast_body.mentions@.len() > 0, result@.len() == vx_i0,
        mention_keys(result@, cast_body.mentions@, ts_hash@, message.data->Some_0.fid),
//@loopend 0
    proof { assert(result@[vx_i0 as int]@ =~= seq![5u8] + fid_key(cast_body.mentions@[vx_i0 as int]) + ts_hash@ + opt_fid(message.data->Some_0.fid)); }
//@endfn
}
// ---- reactions ----
pub mod reactions {
use super::*;
use proto::reaction_body::Target;
//@item src/storage/store/account/channel_store.rs::CHANNEL_ID_LENGTH
//@item src/storage/store/account/reaction_store.rs::ChannelFollowIndex
pub open spec fn target_key(p: Target) -> Seq<u8> { match p { Target::TargetUrl(u) => encode_utf8(u@), Target::TargetCastId(c) => cast_id_key(c) } }
pub open spec fn reaction_slot(fid: u64, set: u8, ty: i32, t: Option<&Target>) -> Option<Seq<u8>> {
    if t is Some && ty == 0 { None } else { Some(user_key(fid) + seq![set] + (if ty > 0 { seq![ty as u8] } else { Seq::empty() }) + (match t { Some(x) => target_key(*x), None => Seq::empty() })) }
}
pub struct ReactionStoreDef { }
impl ReactionStoreDef {
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::make_target_key -> r
    ensures r@ =~= target_key(*target),
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::make_reactions_by_target_key -> r
    ensures r@ =~= seq![7u8] + target_key(*target) + opt(ts_hash) + opt_fid(fid),
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::make_reaction_adds_key -> r
    ensures r is Ok <==> reaction_slot(fid, 91, ty, target) is Some, r is Ok ==> r->Ok_0@ =~= reaction_slot(fid, 91, ty, target)->Some_0,
//@rw `r#type` => `ty`
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::make_reaction_removes_key -> r
    ensures r is Ok <==> reaction_slot(fid, 92, ty, target) is Some, r is Ok ==> r->Ok_0@ =~= reaction_slot(fid, 92, ty, target)->Some_0,
//@rw `r#type` => `ty`
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::follow_by_fid_prefix -> r
    ensures r@ =~= seq![25u8, 1u8] + fid_key(fid),
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::make_follow_by_fid_key -> r
    ensures r@ =~= seq![25u8, 1u8] + fid_key(fid) + channel_id@,
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::follow_by_channel_prefix -> r
    ensures r@ =~= seq![25u8, 2u8] + channel_id@,
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::make_follow_by_channel_key -> r
    ensures r@ =~= seq![25u8, 2u8] + channel_id@ + fid_key(fid),
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::secondary_index_key -> r
    requires message.data is Some, message.data->Some_0.body is Some,
    ensures
        match message.data->Some_0.body->Some_0 {
            Body::ReactionBody(b) => match b.target {
                Some(p) => r is Ok && r->Ok_0.0@ =~= seq![7u8] + target_key(p) + ts_hash@ + opt_fid(message.data->Some_0.fid) && r->Ok_0.1 == b.r#type as u8,
                None => r is Err },
            _ => r is Err,
        },
//@endfn
}
}
// ---- links ----
pub mod links {
use super::*;
use proto::link_body::Target;
pub open spec fn pad(s: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { 0 }) }
// what Vec::resize leaves of a vector that was a copy of s
proof fn lemma_padded(v: Seq<u8>, s: Seq<u8>, w: Seq<u8>, n: int)
    requires n >= 0, v.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> cloned(s[i], #[trigger] v[i]), n <= v.len() ==> w == v.subrange(0, n),
        n > v.len() ==> w.len() == n && w.subrange(0, v.len() as int) == v && (forall|i: int| v.len() <= i < n ==> cloned(0u8, #[trigger] w[i]))
    ensures w == pad(s, n)
{
    assert(v =~= s);
    if n > v.len() { assert forall|i: int| 0 <= i < n implies w[i] == pad(s, n)[i] by { if i < v.len() { assert(w.subrange(0, v.len() as int)[i] == v[i]); } else { assert(cloned(0u8, w[i])); } } }
    assert(w =~= pad(s, n));
}
pub open spec fn link_slot(fid: u64, set: u8, b: LinkBody) -> Option<Seq<u8>> {
    let n = blen(b.r#type@);
    if (b.target is Some && n == 0) || n > 8 { None }
    else { Some(user_key(fid) + seq![set] + pad(encode_utf8(b.r#type@), 8) + (match b.target { Some(Target::TargetFid(f)) => fid_key(f), None => Seq::empty() })) }
}
pub open spec fn okv(r: Result<Vec<u8>, HubError>) -> Option<Seq<u8>> { match r { Ok(v) => Some(v@), Err(_) => None } }
pub open spec fn index_ok(fid: u64, b: LinkBody, h: Seq<u8>, r: Result<(Vec<u8>, Vec<u8>), HubError>) -> bool {
    match b.target {
        None => r is Err,
        Some(Target::TargetFid(f)) => if fid == 0 { r is Err } else { r is Ok && r->Ok_0.0@ == seq![6u8] + fid_key(f) + h + fid_key(fid) && r->Ok_0.1@ == encode_utf8(b.r#type@) },
    }
}
pub struct LinkStore { }
impl LinkStore {
//@item src/storage/store/account/link_store.rs::LinkStore::FID_BYTE_SIZE
//@item src/storage/store/account/link_store.rs::LinkStore::LINK_TYPE_BYTE_SIZE
//@item src/storage/store/account/link_store.rs::LinkStore::POSTFIX_BYTE_SIZE
//@item src/storage/store/account/link_store.rs::LinkStore::ROOT_PREFIX_BYTE_SIZE
//@item src/storage/store/account/link_store.rs::LinkStore::ROOT_PREFIXED_FID_BYTE_SIZE
//@item src/storage/store/account/link_store.rs::LinkStore::TARGET_ID_BYTE_SIZE
//@fn src/storage/store/account/link_store.rs::LinkStore::link_compact_state_add_key -> r
    ensures r is Ok, r->Ok_0@ =~= user_key(fid) + seq![100u8] + pad(encode_utf8(link_type@), 8),
//@rw `let type_bytes = &mut` => `let mut type_bytes =`
//@before `type_bytes.resize`
        let ghost vx_tb = type_bytes@;
//@before `key.extend_from_slice(&type_bytes)`
        proof { lemma_padded(vx_tb, encode_utf8(link_type@), type_bytes@, 8); }
//@endfn
//@fn src/storage/store/account/link_store.rs::LinkStore::link_add_key -> r
    ensures r is Ok <==> link_slot(fid, 89, *link_body) is Some, r is Ok ==> r->Ok_0@ =~= link_slot(fid, 89, *link_body)->Some_0,
//@rw `let type_bytes = &mut` => `let mut type_bytes =`
//@before `type_bytes.resize`
        let ghost vx_tb = type_bytes@;
//@before `key.extend_from_slice(&type_bytes)`
        proof { lemma_padded(vx_tb, encode_utf8(link_body.r#type@), type_bytes@, 8); }
//@start
    broadcast use lemma_blen_zero;
//@endfn
//@fn src/storage/store/account/link_store.rs::LinkStore::link_remove_key -> r
    ensures r is Ok <==> link_slot(fid, 90, *link_body) is Some, r is Ok ==> r->Ok_0@ =~= link_slot(fid, 90, *link_body)->Some_0,
//@rw `let type_bytes = &mut` => `let mut type_bytes =`
//@before `type_bytes.resize`
        let ghost vx_tb = type_bytes@;
//@before `key.extend_from_slice(&type_bytes)`
        proof { lemma_padded(vx_tb, encode_utf8(link_body.r#type@), type_bytes@, 8); }
//@start
    broadcast use lemma_blen_zero;
//@endfn
//@fn src/storage/store/account/link_store.rs::LinkStore::links_by_target_key -> r
    ensures r is Ok <==> ((fid != 0) <==> ts_hash is Some),
        r is Ok ==> r->Ok_0@ =~= seq![6u8] + (match *target { Target::TargetFid(f) => fid_key(f) }) + opt(ts_hash) + opt_fid(fid),
//@endfn
//@fn src/storage/store/account/link_store.rs::LinkStore::make_add_key -> r
    ensures match (match message.data { Some(d) => d.body, None => None }) { Some(Body::LinkBody(b)) => link_slot(message.data->Some_0.fid, 89, b) == okv(r), _ => r is Err },
//@closure 0 |data: &MessageData| -> (o: Result<Vec<u8>, HubError>)
    ensures match data.body { Some(Body::LinkBody(b)) => link_slot(data.fid, 89, b) == okv(o), _ => o is Err }
//@closure 1 |body_option: &Body| -> (o: Result<Vec<u8>, HubError>)
    ensures match *body_option { Body::LinkBody(b) => link_slot(data.fid, 89, b) == okv(o), _ => o is Err }
//@endfn
//@fn src/storage/store/account/link_store.rs::LinkStore::make_remove_key -> r
    ensures match (match message.data { Some(d) => d.body, None => None }) { Some(Body::LinkBody(b)) => link_slot(message.data->Some_0.fid, 90, b) == okv(r), _ => r is Err },
//@closure 0 |data: &MessageData| -> (o: Result<Vec<u8>, HubError>)
    ensures match data.body { Some(Body::LinkBody(b)) => link_slot(data.fid, 90, b) == okv(o), _ => o is Err }
//@closure 1 |body_option: &Body| -> (o: Result<Vec<u8>, HubError>)
    ensures match *body_option { Body::LinkBody(b) => link_slot(data.fid, 90, b) == okv(o), _ => o is Err }
//@endfn
//@fn src/storage/store/account/link_store.rs::LinkStore::secondary_index_key -> r
    ensures match (match message.data { Some(d) => d.body, None => None }) { Some(Body::LinkBody(b)) => index_ok(message.data->Some_0.fid, b, ts_hash@, r), _ => r is Err },
//@closure 0 |data: &MessageData| -> (o: Result<(Vec<u8>, Vec<u8>), HubError>)
    ensures match data.body { Some(Body::LinkBody(b)) => index_ok(data.fid, b, ts_hash@, o), _ => o is Err }
//@closure 1 |body: &Body| -> (o: Result<(Vec<u8>, Vec<u8>), HubError>)
    ensures match *body { Body::LinkBody(b) => index_ok(data.fid, b, ts_hash@, o), _ => o is Err }
//@closure 2 |target: &Target| -> (o: Result<(Vec<u8>, Vec<u8>), HubError>)
    ensures data.fid == 0 ==> o is Err, data.fid > 0 ==> o is Ok && o->Ok_0.0@ == seq![6u8] + (match *target { Target::TargetFid(f) => fid_key(f) }) + ts_hash@ + fid_key(data.fid) && o->Ok_0.1@ == encode_utf8(link_body.r#type@)
//@closure 3 |target_key: Vec<u8>| -> (o: Result<(Vec<u8>, Vec<u8>), HubError>)
    ensures o is Ok, o->Ok_0.0@ == target_key@, o->Ok_0.1@ =~= encode_utf8(link_body.r#type@)
//@endfn
}
}
// ---- verifications, profile data, names, loans ----
pub struct VerificationStoreDef { }
impl VerificationStoreDef {
//@fn src/storage/store/account/verification_store.rs::VerificationStoreDef::make_verification_by_address_prefix -> r
    ensures r@ =~= seq![14u8] + address@,
//@start
    proof { ax_len(address); }
//@endfn
//@fn src/storage/store/account/verification_store.rs::VerificationStoreDef::make_verification_by_address_key -> r
    ensures r@ =~= seq![14u8] + address@ + fid_key(fid),
//@endfn
//@fn src/storage/store/account/verification_store.rs::VerificationStoreDef::make_verification_adds_key -> r
    ensures r@ =~= user_key(fid) + seq![93u8] + address@,
//@start
    proof { ax_len(address); }
//@endfn
//@fn src/storage/store/account/verification_store.rs::VerificationStoreDef::make_verification_removes_key -> r
    ensures r@ =~= user_key(fid) + seq![94u8] + address@,
//@start
    proof { ax_len(address); }
//@endfn
}
pub struct UserDataStoreDef { }
impl UserDataStoreDef {
//@fn src/storage/store/account/user_data_store.rs::UserDataStoreDef::make_user_data_adds_key -> r
    ensures r@ =~= user_key(fid) + seq![97u8] + (if data_type > 0 { seq![data_type as u8] } else { Seq::empty() }),
//@endfn
}
pub struct UsernameProofStoreDef { }
impl UsernameProofStoreDef {
//@fn src/storage/store/account/username_proof_store.rs::UsernameProofStoreDef::make_username_proof_by_name_key -> r
    ensures r@ =~= seq![16u8] + name@,
//@start
    proof { ax_len(name); }
//@endfn
//@fn src/storage/store/account/username_proof_store.rs::UsernameProofStoreDef::make_username_proof_by_fid_key -> r
    ensures r@ =~= user_key(fid) + seq![99u8] + name@,
//@start
    proof { ax_len(name); }
//@endfn
}
//@fn src/storage/store/account/name_registry_events.rs::make_fname_username_proof_key -> r
    ensures r@ =~= seq![11u8] + name@,
//@endfn
//@fn src/storage/store/account/name_registry_events.rs::make_fname_username_proof_by_fid_key -> r
    ensures r@ =~= seq![15u8] + fid_key(fid),
//@endfn
pub struct StorageLendStoreDef { }
impl Message {
//@fn proto/src/lib.rs::Message::fid -> r
    ensures r == (match self.data { Some(d) => d.fid, None => 0 }),
//@endfn
}
impl StorageLendStoreDef {
//@fn src/storage/store/account/storage_lend_store.rs::StorageLendStoreDef::make_storage_lend_primary_key -> r
    ensures r@ =~= user_key(from_fid) + seq![101u8] + fid_key(to_fid),
//@endfn
//@fn src/storage/store/account/storage_lend_store.rs::StorageLendStoreDef::by_borrower_secondary_index_key -> r
    requires message.data is Some,
    ensures (message.data->Some_0.body is Some && message.data->Some_0.body->Some_0 is LendStorageBody) <==> r is Ok,
        r is Ok ==> r->Ok_0@ =~= seq![22u8] + fid_key(message.data->Some_0.body->Some_0->LendStorageBody_0.to_fid) + fid_key(message.data->Some_0.fid),
//@endfn
//@fn src/storage/store/account/storage_lend_store.rs::StorageLendStoreDef::read_borrower_from_secondary_key -> r
    requires key@.len() >= 9, key@.len() <= usize::MAX,
    ensures r == unbe32(key@.subrange(1, 5)),
//@endfn
//@fn src/storage/store/account/storage_lend_store.rs::StorageLendStoreDef::read_lender_from_secondary_key -> r
    requires key@.len() >= 9, key@.len() <= usize::MAX,
    ensures r == unbe32(key@.subrange(5, 9)),
//@endfn
}
// ---- gasless keys ----
//@item src/core/validations/key.rs::ED25519_PUBLIC_KEY_LEN
pub mod key_add {
use super::*;
//@item src/storage/store/account/key_add_store.rs::ROOT_PREFIX_BYTES
//@item src/storage/store/account/key_add_store.rs::USER_POSTFIX_BYTES
//@item src/storage/store/account/key_add_store.rs::GASLESS_KEY_BY_FID_KEY_BYTES
//@item src/storage/store/account/key_add_store.rs::GASLESS_KEY_BY_PUBLIC_KEY_KEY_BYTES
//@item src/storage/store/account/key_add_store.rs::GASLESS_KEY_COUNT_KEY_BYTES
//@fn src/storage/store/account/key_add_store.rs::validate_key_len -> r
    ensures r is Ok <==> public_key@.len() == 32,
//@endfn
//@fn src/storage/store/account/key_add_store.rs::make_gasless_key_by_fid_key -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> r->Ok_0@ =~= seq![23u8, 105u8] + fid_key(fid) + public_key@,
//@endfn
//@fn src/storage/store/account/key_add_store.rs::make_gasless_key_by_public_key_key -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> r->Ok_0@ =~= seq![23u8, 106u8] + public_key@,
//@endfn
//@fn src/storage/store/account/key_add_store.rs::make_gasless_key_count_by_fid_key -> r
    ensures r@ =~= seq![23u8, 107u8] + fid_key(fid),
//@endfn
//@fn src/storage/store/account/key_add_store.rs::make_gasless_key_by_fid_prefix -> r
    ensures r@ =~= seq![23u8, 105u8] + fid_key(fid),
//@endfn
}
pub mod key_nonce {
use super::*;
//@item src/storage/store/account/key_nonce_store.rs::ROOT_PREFIX_BYTES
//@item src/storage/store/account/key_nonce_store.rs::USER_POSTFIX_BYTES
//@item src/storage/store/account/key_nonce_store.rs::NONCE_KEY_BYTES
//@fn src/storage/store/account/key_nonce_store.rs::make_nonce_key -> r
    ensures r@ =~= seq![23u8, postfix as u8] + fid_key(fid),
//@endfn
//@fn src/storage/store/account/key_nonce_store.rs::make_user_nonce_key -> r
    ensures r@ =~= seq![23u8, 102u8] + fid_key(fid),
//@endfn
//@fn src/storage/store/account/key_nonce_store.rs::make_app_nonce_key -> r
    ensures r@ =~= seq![23u8, 103u8] + fid_key(app_fid),
//@endfn
}
pub mod key_last_used {
use super::*;
//@item src/storage/store/account/key_last_used_at_store.rs::ROOT_PREFIX_BYTES
//@item src/storage/store/account/key_last_used_at_store.rs::USER_POSTFIX_BYTES
//@item src/storage/store/account/key_last_used_at_store.rs::LAST_USED_AT_KEY_BYTES
//@fn src/storage/store/account/key_last_used_at_store.rs::validate_key_len -> r
    ensures r is Ok <==> public_key@.len() == 32,
//@endfn
//@fn src/storage/store/account/key_last_used_at_store.rs::make_last_used_at_key -> r
    ensures r is Ok <==> public_key@.len() == 32, r is Ok ==> r->Ok_0@ =~= seq![23u8, 104u8] + fid_key(fid) + public_key@,
//@endfn
}
// ---- chain events and blocks ----
//@fn src/storage/store/account/block_event_store.rs::make_block_event_key -> r
    ensures r@ =~= seq![19u8] + be64(seqnum),
//@endfn
pub mod blocks {
use super::*;
//@fn src/storage/store/block.rs::make_block_key -> r
    ensures r@ =~= seq![1u8] + be64(block_number),
//@endfn
//@fn src/storage/store/block.rs::make_block_timestamp_index -> r
    ensures r@ =~= time_index(shard_index, timestamp),
//@endfn
}
pub mod chunks {
use super::*;
//@fn src/storage/store/shard.rs::make_shard_key -> r
    ensures r@ =~= seq![2u8] + be64(block_number),
//@endfn
//@fn src/storage/store/shard.rs::make_block_timestamp_index -> r
    ensures r@ =~= time_index(shard_index, timestamp),
//@endfn
}
// where the height of a shard's block is found by its time
pub open spec fn time_index(shard: u32, t: u64) -> Seq<u8> { seq![18u8] + be32(shard) + be64(t) }
proof fn theorem_time_index(s: u32, t: u64, q: u32, u: u64) ensures time_index(s, t) == time_index(q, u) <==> s == q && t == u
{
    lemma_be32(s); lemma_be32(q);
    assert(time_index(s, t).subrange(1, 5) =~= be32(s)); assert(time_index(q, u).subrange(1, 5) =~= be32(q));
    assert(time_index(s, t).subrange(5, 13) =~= be64(t)); assert(time_index(q, u).subrange(5, 13) =~= be64(u));
    if time_index(s, t) == time_index(q, u) { lemma_be64_inj(t, u); }
}
//@fn src/storage/store/account/event.rs::make_event_key -> r
    ensures r@ =~= seq![9u8] + be64(event_id),
//@endfn
//@item src/storage/constants.rs::OnChainEventPostfix
//@fn src/storage/store/account/onchain_event_store.rs::make_block_number_key -> r
    ensures r@ =~= be32(block_number),
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::make_log_index_key -> r
    ensures r@ =~= be32(log_index),
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::make_onchain_event_type_prefix -> r
    ensures r@ =~= seq![12u8, 1u8, onchain_event_type as u8],
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::make_onchain_event_primary_key -> r
    ensures r@ =~= seq![12u8, 1u8, OnChainEventType::spec_or_default(onchain_event.r#type) as u8] + fid_key(onchain_event.fid) + be32(onchain_event.block_number) + be32(onchain_event.log_index),
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::make_id_register_by_fid_key -> r
    ensures r@ =~= seq![12u8, 52u8] + fid_key(fid),
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::make_signer_onchain_event_by_signer_key -> r
    ensures r@ =~= seq![12u8, 51u8] + fid_key(fid) + key@,
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::make_channel_register_by_channel_key -> r
    ensures r@ =~= seq![12u8, 55u8] + encode_utf8(channel_key@),
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::make_channel_register_channel_key_by_label_key -> r
    ensures r@ =~= seq![12u8, 56u8] + label@,
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::make_channel_register_by_owner_address_prefix -> r
    ensures r@ =~= seq![12u8, 57u8] + owner_address@,
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::make_channel_register_by_owner_address_key -> r
    ensures r@ =~= seq![12u8, 57u8] + owner_address@ + encode_utf8(channel_key@),
//@endfn
// ---- what the layouts give ----
// two different users, sets or (timestamp, hash) pairs never share a primary key, and the parts can be read back
proof fn theorem_primary_key(f: u64, g: u64, s: u8, t: u8, x: u32, y: u32, h: Seq<u8>, k: Seq<u8>)
    requires f <= u32::MAX, g <= u32::MAX, h.len() == 20, k.len() == 20
    ensures
        primary_key(f, s, ts_hash(x, h)) == primary_key(g, t, ts_hash(y, k)) <==> f == g && s == t && x == y && h == k,
        primary_key(f, s, ts_hash(x, h)).len() == 30,
        unbe32(primary_key(f, s, ts_hash(x, h)).subrange(1, 5)) == f,
        primary_key(f, s, ts_hash(x, h))[5] == s,
        primary_key(f, s, ts_hash(x, h)).subrange(6, 30) == ts_hash(x, h),
        unbe32(ts_hash(x, h).take(4)) == x, ts_hash(x, h).skip(4) == h,
{
    lemma_be32(f as u32); lemma_be32(g as u32); lemma_be32(x); lemma_be32(y);
    let a = primary_key(f, s, ts_hash(x, h)); let b = primary_key(g, t, ts_hash(y, k));
    assert(a.subrange(1, 5) =~= be32(f as u32)); assert(b.subrange(1, 5) =~= be32(g as u32));
    assert(a.subrange(6, 30) =~= ts_hash(x, h)); assert(b.subrange(6, 30) =~= ts_hash(y, k));
    assert(ts_hash(x, h).take(4) =~= be32(x)); assert(ts_hash(y, k).take(4) =~= be32(y));
    assert(ts_hash(x, h).skip(4) =~= h); assert(ts_hash(y, k).skip(4) =~= k);
}
// byte order of keys: the first difference decides, a proper prefix comes first
pub open spec fn key_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { key_lt(a.drop_first(), b.drop_first()) }
}
proof fn lemma_common_prefix(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures key_lt(p + a, p + b) == key_lt(a, b)
    decreases p.len()
{
    if p.len() > 0 { assert((p + a).drop_first() =~= p.drop_first() + a); assert((p + b).drop_first() =~= p.drop_first() + b); lemma_common_prefix(p.drop_first(), a, b); }
    else { assert(p + a =~= a); assert(p + b =~= b); }
}
proof fn lemma_be32_order(x: u32, y: u32, h: Seq<u8>, k: Seq<u8>)
    requires x != y
    ensures key_lt(be32(x) + h, be32(y) + k) == (x < y)
{
    let a = be32(x); let b = be32(y); let a0 = a[0]; let a1 = a[1]; let a2 = a[2]; let a3 = a[3]; let b0 = b[0]; let b1 = b[1]; let b2 = b[2]; let b3 = b[3];
    lemma_be32(x); lemma_be32(y);
    assert(a0 == (x >> 24) as u8 && a1 == (x >> 16) as u8 && a2 == (x >> 8) as u8 && a3 == x as u8);
    assert(b0 == (y >> 24) as u8 && b1 == (y >> 16) as u8 && b2 == (y >> 8) as u8 && b3 == y as u8);
    assert((((x >> 24) as u8) == ((y >> 24) as u8) && ((x >> 16) as u8) == ((y >> 16) as u8) && ((x >> 8) as u8) == ((y >> 8) as u8) && (x as u8) == (y as u8)) ==> x == y) by (bit_vector);
    assert(((x >> 24) as u8) < ((y >> 24) as u8) ==> x < y) by (bit_vector);
    assert(((x >> 24) as u8) == ((y >> 24) as u8) && ((x >> 16) as u8) < ((y >> 16) as u8) ==> x < y) by (bit_vector);
    assert(((x >> 24) as u8) == ((y >> 24) as u8) && ((x >> 16) as u8) == ((y >> 16) as u8) && ((x >> 8) as u8) < ((y >> 8) as u8) ==> x < y) by (bit_vector);
    assert(((x >> 24) as u8) == ((y >> 24) as u8) && ((x >> 16) as u8) == ((y >> 16) as u8) && ((x >> 8) as u8) == ((y >> 8) as u8) && (x as u8) < (y as u8) ==> x < y) by (bit_vector);
    assert(((y >> 24) as u8) < ((x >> 24) as u8) ==> y < x) by (bit_vector);
    assert(((x >> 24) as u8) == ((y >> 24) as u8) && ((y >> 16) as u8) < ((x >> 16) as u8) ==> y < x) by (bit_vector);
    assert(((x >> 24) as u8) == ((y >> 24) as u8) && ((x >> 16) as u8) == ((y >> 16) as u8) && ((y >> 8) as u8) < ((x >> 8) as u8) ==> y < x) by (bit_vector);
    assert(((x >> 24) as u8) == ((y >> 24) as u8) && ((x >> 16) as u8) == ((y >> 16) as u8) && ((x >> 8) as u8) == ((y >> 8) as u8) && (y as u8) < (x as u8) ==> y < x) by (bit_vector);
    let p = a + h; let q = b + k;
    assert(p[0] == a0 && q[0] == b0);
    let p1 = p.drop_first(); let q1 = q.drop_first(); assert(p1[0] == a1 && q1[0] == b1);
    let p2 = p1.drop_first(); let q2 = q1.drop_first(); assert(p2[0] == a2 && q2[0] == b2);
    let p3 = p2.drop_first(); let q3 = q2.drop_first(); assert(p3[0] == a3 && q3[0] == b3);
    reveal_with_fuel(key_lt, 5);
}
// scanning a user's set in key order walks timestamps upwards, and hashes upwards within one timestamp
proof fn theorem_scan_order(f: u64, s: u8, x: u32, y: u32, h: Seq<u8>, k: Seq<u8>)
    ensures key_lt(primary_key(f, s, ts_hash(x, h)), primary_key(f, s, ts_hash(y, k))) == (x < y || (x == y && key_lt(h, k)))
{
    let p = user_key(f) + seq![s];
    lemma_common_prefix(p, ts_hash(x, h), ts_hash(y, k));
    if x == y { lemma_common_prefix(be32(x), h, k); } else { lemma_be32_order(x, y, h, k); }
}
// message classes: the same set exactly for an add and the remove that cancels it, and no set number is an index number
pub open spec fn class_of(t: MessageType) -> int {
    match t {
        MessageType::CastAdd | MessageType::CastRemove => 0,
        MessageType::ReactionAdd | MessageType::ReactionRemove => 1,
        MessageType::LinkAdd | MessageType::LinkRemove => 2,
        MessageType::VerificationAddEthAddress | MessageType::VerificationRemove => 3,
        MessageType::UserDataAdd => 4, MessageType::UsernameProof => 5, MessageType::LendStorage => 6,
        MessageType::ChannelUpdate => 7, MessageType::ChannelMember => 8, MessageType::ChannelPin => 9, MessageType::ChannelModerate => 10,
        _ => -1,
    }
}
proof fn theorem_sets(t: MessageType, u: MessageType)
    requires set_of(t) is Some, set_of(u) is Some
    ensures set_of(t) == set_of(u) <==> class_of(t) == class_of(u), set_of(t)->Some_0 <= 85
{ }
// the index spaces of one user (sets 87..=107) and the message sets (1..=85) are disjoint by their sixth byte, the other spaces by their first
proof fn theorem_spaces_disjoint(f: u64, g: u64, s: u8, t: u8, x: Seq<u8>, y: Seq<u8>)
    requires s != t
    ensures user_key(f) + seq![s] + x != user_key(g) + seq![t] + y
{
    assert((user_key(f) + seq![s] + x)[5] == s); assert((user_key(g) + seq![t] + y)[5] == t);
}
proof fn theorem_roots_disjoint(p: u8, q: u8, x: Seq<u8>, y: Seq<u8>)
    requires p != q
    ensures seq![p] + x != seq![q] + y
{
    assert((seq![p] + x)[0] == p); assert((seq![q] + y)[0] == q);
}
// one slot per (user, kind, target): distinct targets never collide within one kind
proof fn theorem_slots(f: u64, g: u64, s: u8, x: Seq<u8>, y: Seq<u8>)
    requires f <= u32::MAX, g <= u32::MAX
    ensures user_key(f) + seq![s] + x == user_key(g) + seq![s] + y <==> f == g && x == y
{
    lemma_be32(f as u32); lemma_be32(g as u32);
    let a = user_key(f) + seq![s] + x; let b = user_key(g) + seq![s] + y;
    assert(a.subrange(1, 5) =~= be32(f as u32)); assert(b.subrange(1, 5) =~= be32(g as u32));
    assert(a.skip(6) =~= x); assert(b.skip(6) =~= y);
}
// the loan index reads back what was written
proof fn theorem_loan_index(from: u64, to: u64)
    requires from <= u32::MAX, to <= u32::MAX
    ensures ({ let k = seq![22u8] + fid_key(to) + fid_key(from); unbe32(k.subrange(1, 5)) == to && unbe32(k.subrange(5, 9)) == from && k.len() == 9 })
{
    let k = seq![22u8] + fid_key(to) + fid_key(from);
    lemma_be32(from as u32); lemma_be32(to as u32);
    assert(k.subrange(1, 5) =~= fid_key(to)); assert(k.subrange(5, 9) =~= fid_key(from));
}
// hub events and block events are stored in their own order
proof fn theorem_event_order(a: u64, b: u64)
    requires be64(a) == be64(b)
    ensures a == b
{ lemma_be64_inj(a, b); }
} // verus!
fn main() {}
