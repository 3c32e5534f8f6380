//@mount src/network/http_server.rs
use super::*;
use crate::proto as p;
use crate::verif_h::support::*;
use serde_json::{json, Map, Value};

use node::Node;
mod node {
use crate::proto::{hub_service_server::HubService, *};
use std::any::Any;
use std::sync::Mutex;
use tokio_stream::wrappers::ReceiverStream;
use tonic::{async_trait, Request, Response, Status};

// stands for the node behind the gateway: records each RPC with its request, and answers what it was told to
pub struct Node { asked: Mutex<Vec<(String, String)>>, reply: Mutex<Option<Box<dyn Any + Send>>> }
impl Node {
    pub fn new() -> Self { Node { asked: Mutex::new(vec![]), reply: Mutex::new(None) } }
    fn note(&self, m: &str, r: String) { self.asked.lock().unwrap().push((m.to_string(), r)); }
    fn give<A: 'static>(&self) -> Result<Response<A>, Status> {
        match self.reply.lock().unwrap().take().and_then(|b| b.downcast::<A>().ok()) { Some(a) => Ok(Response::new(*a)), None => Err(Status::not_found("nothing")) }
    }
    pub fn asked(&self) -> Vec<(String, String)> { std::mem::take(&mut *self.asked.lock().unwrap()) }
    pub fn reply<A: Send + 'static>(&self, a: A) { *self.reply.lock().unwrap() = Some(Box::new(a)); }
}
fn seen<T: std::fmt::Debug>(r: &Request<T>) -> String { match r.metadata().get("authorization") { Some(a) => format!("{:?} as {:?}", r.get_ref(), a.to_str().unwrap_or("?")), None => format!("{:?}", r.get_ref()) } }
macro_rules! node { ($($m:ident $q:ident $a:ident;)*) => {
#[async_trait]
impl HubService for Node {
    type GetBlocksStream = ReceiverStream<Result<Block, Status>>;
    async fn get_blocks(&self, r: Request<BlocksRequest>) -> Result<Response<Self::GetBlocksStream>, Status> { self.note("get_blocks", format!("{:?}", r.get_ref())); Err(Status::unavailable("no stream")) }
    type SubscribeStream = ReceiverStream<Result<HubEvent, Status>>;
    async fn subscribe(&self, r: Request<SubscribeRequest>) -> Result<Response<Self::SubscribeStream>, Status> { self.note("subscribe", format!("{:?}", r.get_ref())); Err(Status::unavailable("no stream")) }
    $( async fn $m(&self, r: Request<$q>) -> Result<Response<$a>, Status> { self.note(stringify!($m), seen(&r)); self.give() } )*
}
} }
node! {
    submit_message Message Message;
    submit_bulk_messages SubmitBulkMessagesRequest SubmitBulkMessagesResponse;
    validate_message Message ValidationResponse;
    get_shard_chunks ShardChunksRequest ShardChunksResponse;
    get_info GetInfoRequest GetInfoResponse;
    get_fids FidsRequest FidsResponse;
    get_connected_peers GetConnectedPeersRequest GetConnectedPeersResponse;
    get_mesh_view GetMeshViewRequest MeshView;
    get_mesh_topology GetMeshViewRequest MeshTopology;
    get_event EventRequest HubEvent;
    get_events EventsRequest EventsResponse;
    get_cast CastId Message;
    get_casts_by_fid FidRequest MessagesResponse;
    get_casts_by_parent CastsByParentRequest MessagesResponse;
    get_casts_by_mention FidRequest MessagesResponse;
    get_reaction ReactionRequest Message;
    get_reactions_by_fid ReactionsByFidRequest MessagesResponse;
    get_reactions_by_cast ReactionsByTargetRequest MessagesResponse;
    get_reactions_by_target ReactionsByTargetRequest MessagesResponse;
    get_user_data UserDataRequest Message;
    get_user_data_by_fid FidRequest MessagesResponse;
    get_username_proof UsernameProofRequest UserNameProof;
    get_user_name_proofs_by_fid FidRequest UsernameProofsResponse;
    get_verification VerificationRequest Message;
    get_verifications_by_fid FidRequest MessagesResponse;
    get_on_chain_signer SignerRequest OnChainEvent;
    get_on_chain_signers_by_fid FidRequest OnChainEventResponse;
    get_signer SignerRequest SignerResponse;
    get_signers_by_fid SignersByFidRequest SignersByFidResponse;
    get_on_chain_events OnChainEventRequest OnChainEventResponse;
    get_channel_owner ChannelOwnerRequest ChannelOwnerResponse;
    get_channels_by_address ChannelsByAddressRequest ChannelsResponse;
    get_channels_by_fid ChannelsByFidRequest ChannelsResponse;
    get_channel_member ChannelMemberRequest ChannelMemberResponse;
    get_channel_members ChannelMembersRequest ChannelMembersResponse;
    get_channel_pin ChannelRequest ChannelPinResponse;
    get_channel_moderations ChannelModerationsRequest ChannelModerationsResponse;
    get_channel_metadata ChannelRequest ChannelMetadataResponse;
    get_channel_memberships_by_fid ChannelMembershipsByFidRequest ChannelMembershipsResponse;
    get_channel_followers ChannelFollowersRequest ChannelFollowersResponse;
    get_channel_follower_count ChannelFollowerCountRequest ChannelFollowerCountResponse;
    get_channel_follows ChannelFollowsRequest ChannelFollowsResponse;
    is_following_channel IsFollowingChannelRequest IsFollowingChannelResponse;
    get_id_registry_on_chain_event FidRequest OnChainEvent;
    get_id_registry_on_chain_event_by_address IdRegistryEventByAddressRequest OnChainEvent;
    get_current_storage_limits_by_fid FidRequest StorageLimitsResponse;
    get_fid_address_type FidAddressTypeRequest FidAddressTypeResponse;
    get_link LinkRequest Message;
    get_links_by_fid LinksByFidRequest MessagesResponse;
    get_links_by_target LinksByTargetRequest MessagesResponse;
    get_link_compact_state_message_by_fid FidRequest MessagesResponse;
    get_all_cast_messages_by_fid FidTimestampRequest MessagesResponse;
    get_all_reaction_messages_by_fid FidTimestampRequest MessagesResponse;
    get_all_verification_messages_by_fid FidTimestampRequest MessagesResponse;
    get_all_user_data_messages_by_fid FidTimestampRequest MessagesResponse;
    get_all_link_messages_by_fid FidTimestampRequest MessagesResponse;
    get_all_lend_storage_messages_by_fid FidTimestampRequest MessagesResponse;
    get_trie_metadata_by_prefix TrieNodeMetadataRequest TrieNodeMetadataResponse;
}
}


type V = Option<Value>;
const TYPES: &[(i32, &str)] = &[(0, "MESSAGE_TYPE_NONE"), (1, "MESSAGE_TYPE_CAST_ADD"), (2, "MESSAGE_TYPE_CAST_REMOVE"), (3, "MESSAGE_TYPE_REACTION_ADD"), (4, "MESSAGE_TYPE_REACTION_REMOVE"), (5, "MESSAGE_TYPE_LINK_ADD"), (6, "MESSAGE_TYPE_LINK_REMOVE"), (7, "MESSAGE_TYPE_VERIFICATION_ADD_ETH_ADDRESS"), (8, "MESSAGE_TYPE_VERIFICATION_REMOVE"), (11, "MESSAGE_TYPE_USER_DATA_ADD"), (12, "MESSAGE_TYPE_USERNAME_PROOF"), (13, "MESSAGE_TYPE_FRAME_ACTION"), (14, "MESSAGE_TYPE_LINK_COMPACT_STATE"), (15, "MESSAGE_TYPE_LEND_STORAGE"), (16, "MESSAGE_TYPE_KEY_ADD"), (17, "MESSAGE_TYPE_KEY_REMOVE"), (18, "MESSAGE_TYPE_CHANNEL_UPDATE"), (19, "MESSAGE_TYPE_CHANNEL_MEMBER"), (20, "MESSAGE_TYPE_CHANNEL_PIN"), (21, "MESSAGE_TYPE_CHANNEL_MODERATE")];
const NETS: &[(i32, &str)] = &[(0, "FARCASTER_NETWORK_NONE"), (1, "FARCASTER_NETWORK_MAINNET"), (2, "FARCASTER_NETWORK_TESTNET"), (3, "FARCASTER_NETWORK_DEVNET")];
const HASHES: &[(i32, &str)] = &[(0, "HASH_SCHEME_NONE"), (1, "HASH_SCHEME_BLAKE3")];
const SIGS: &[(i32, &str)] = &[(0, "SIGNATURE_SCHEME_NONE"), (1, "SIGNATURE_SCHEME_ED25519"), (2, "SIGNATURE_SCHEME_EIP712")];
const CASTS: &[(i32, &str)] = &[(0, "CAST"), (1, "LONG_CAST"), (2, "TEN_K_CAST")];
const REACTS: &[(i32, &str)] = &[(0, "REACTION_TYPE_NONE"), (1, "REACTION_TYPE_LIKE"), (2, "REACTION_TYPE_RECAST")];
const PROTOCOLS: &[(i32, &str)] = &[(0, "PROTOCOL_ETHEREUM"), (1, "PROTOCOL_SOLANA")];
const DATA: &[(i32, &str)] = &[(0, "USER_DATA_TYPE_NONE"), (1, "USER_DATA_TYPE_PFP"), (2, "USER_DATA_TYPE_DISPLAY"), (3, "USER_DATA_TYPE_BIO"), (5, "USER_DATA_TYPE_URL"), (6, "USER_DATA_TYPE_USERNAME"), (7, "USER_DATA_TYPE_LOCATION"), (8, "USER_DATA_TYPE_TWITTER"), (9, "USER_DATA_TYPE_GITHUB"), (10, "USER_DATA_TYPE_BANNER"), (11, "USER_DATA_PRIMARY_ADDRESS_ETHEREUM"), (12, "USER_DATA_PRIMARY_ADDRESS_SOLANA"), (13, "USER_DATA_TYPE_PROFILE_TOKEN"), (14, "USER_DATA_TYPE_LIVE_AT")];
const NAMES: &[(i32, &str)] = &[(0, "USERNAME_TYPE_NONE"), (1, "USERNAME_TYPE_FNAME"), (2, "USERNAME_TYPE_ENS_L1"), (3, "USERNAME_TYPE_BASENAME")];
const CMODES: &[(i32, &str)] = &[(0, "CASTING_MODE_NONE"), (1, "CASTING_MODE_EVERYONE"), (2, "CASTING_MODE_MEMBERS_ONLY"), (3, "CASTING_MODE_RECOMMENDED")];
const MMODES: &[(i32, &str)] = &[(0, "MEMBERSHIP_MODE_NONE"), (1, "MEMBERSHIP_MODE_OPEN"), (2, "MEMBERSHIP_MODE_APPROVAL")];
const MACTS: &[(i32, &str)] = &[(0, "CHANNEL_MEMBER_ACTION_NONE"), (1, "CHANNEL_MEMBER_ACTION_ADD_MEMBER"), (2, "CHANNEL_MEMBER_ACTION_REMOVE_MEMBER"), (3, "CHANNEL_MEMBER_ACTION_ADD_MODERATOR"), (4, "CHANNEL_MEMBER_ACTION_REMOVE_MODERATOR"), (5, "CHANNEL_MEMBER_ACTION_BAN"), (6, "CHANNEL_MEMBER_ACTION_UNBAN")];
const HIDES: &[(i32, &str)] = &[(0, "CHANNEL_MODERATE_ACTION_NONE"), (1, "CHANNEL_MODERATE_ACTION_HIDE"), (2, "CHANNEL_MODERATE_ACTION_UNHIDE")];
const EVENTS: &[(i32, &str)] = &[(0, "EVENT_TYPE_NONE"), (1, "EVENT_TYPE_SIGNER"), (2, "EVENT_TYPE_SIGNER_MIGRATED"), (3, "EVENT_TYPE_ID_REGISTER"), (4, "EVENT_TYPE_STORAGE_RENT"), (5, "EVENT_TYPE_TIER_PURCHASE"), (6, "EVENT_TYPE_CHANNEL_REGISTER")];
const SIGNER: &[(i32, &str)] = &[(0, "SIGNER_EVENT_TYPE_NONE"), (1, "SIGNER_EVENT_TYPE_ADD"), (2, "SIGNER_EVENT_TYPE_REMOVE"), (3, "SIGNER_EVENT_TYPE_ADMIN_RESET")];
const REG: &[(i32, &str)] = &[(0, "CHANNEL_REGISTER_EVENT_TYPE_NONE"), (1, "CHANNEL_REGISTER_EVENT_TYPE_REGISTER"), (2, "CHANNEL_REGISTER_EVENT_TYPE_RENEW"), (3, "CHANNEL_REGISTER_EVENT_TYPE_TRANSFER")];
const IDREG: &[(i32, &str)] = &[(0, "None"), (1, "Register"), (2, "Transfer"), (3, "ChangeRecovery")];
const TIERS: &[(i32, &str)] = &[(0, "None"), (1, "Pro")];
const UNITS: &[(i32, &str)] = &[(0, "UnitTypeLegacy"), (1, "UnitType2024"), (2, "UnitType2025")];
const SOURCES: &[(i32, &str)] = &[(0, "SIGNER_SOURCE_NONE"), (1, "SIGNER_SOURCE_ONCHAIN"), (2, "SIGNER_SOURCE_OFFCHAIN")];
const HUB: &[(i32, &str)] = &[(0, "HUB_EVENT_TYPE_NONE"), (1, "HUB_EVENT_TYPE_MERGE_MESSAGE"), (2, "HUB_EVENT_TYPE_PRUNE_MESSAGE"), (3, "HUB_EVENT_TYPE_REVOKE_MESSAGE"), (6, "HUB_EVENT_TYPE_MERGE_USERNAME_PROOF"), (9, "HUB_EVENT_TYPE_MERGE_ON_CHAIN_EVENT"), (10, "HUB_EVENT_TYPE_MERGE_FAILURE"), (11, "HUB_EVENT_TYPE_BLOCK_CONFIRMED"), (12, "HUB_EVENT_TYPE_CHANNEL_OWNER_CHANGE_HINT")];
const CAUSES: &[(i32, &str)] = &[(0, "CHANNEL_OWNER_CHANGE_CAUSE_NONE"), (1, "CHANNEL_OWNER_CHANGE_CAUSE_REGISTER"), (2, "CHANNEL_OWNER_CHANGE_CAUSE_TRANSFER"), (3, "CHANNEL_OWNER_CHANGE_CAUSE_VERIFICATION_ADD"), (4, "CHANNEL_OWNER_CHANGE_CAUSE_VERIFICATION_REMOVE")];

fn name(t: &[(i32, &str)], x: i32) -> V { t.iter().find(|y| y.0 == x).map(|y| json!(y.1)) }
fn name0(t: &[(i32, &str)], x: i32) -> Value { name(t, x).unwrap_or_else(|| json!(t[0].1)) }
fn hx(b: &[u8]) -> Value { let mut s = String::from("0x"); for x in b { s.push_str(&format!("{:02x}", x)); } json!(s) }
fn b64(b: &[u8]) -> Value {
    let a: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".chars().collect();
    let mut s = String::new();
    for g in b.chunks(3) {
        let n = (g[0] as usize) * 65536 + (*g.get(1).unwrap_or(&0) as usize) * 256 + *g.get(2).unwrap_or(&0) as usize;
        s.push(a[n / 262144]); s.push(a[n / 4096 % 64]);
        s.push(if g.len() > 1 { a[n / 64 % 64] } else { '=' }); s.push(if g.len() > 2 { a[n % 64] } else { '=' });
    }
    json!(s)
}
fn b58(b: &[u8]) -> Value {
    let a: Vec<char> = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".chars().collect();
    let mut d: Vec<u32> = vec![];
    for x in b { let mut k = *x as u32; for y in d.iter_mut() { k += *y * 256; *y = k % 58; k /= 58; } while k > 0 { d.push(k % 58); k /= 58; } }
    let mut s: String = b.iter().take_while(|x| **x == 0).map(|_| '1').collect();
    for y in d.iter().rev() { s.push(a[*y as usize]); }
    json!(s)
}
fn opt(m: &mut Map<String, Value>, k: &str, v: V) { if let Some(v) = v { m.insert(k.to_string(), v); } }
fn obj(v: Value) -> Map<String, Value> { v.as_object().unwrap().clone() }
fn cid(c: &p::CastId) -> Value { json!({"fid": c.fid, "hash": hx(&c.hash)}) }

fn body(b: &p::message_data::Body) -> Option<(&'static str, Value)> {
    use p::message_data::Body as B;
    Some(match b {
        B::CastAddBody(x) => ("castAddBody", json!({
            "embedsDeprecated": x.embeds_deprecated, "mentions": x.mentions, "text": x.text, "mentionsPositions": x.mentions_positions, "type": name(CASTS, x.r#type)?,
            "parentCastId": match &x.parent { Some(p::cast_add_body::Parent::ParentCastId(c)) => cid(c), _ => Value::Null },
            "parentUrl": match &x.parent { Some(p::cast_add_body::Parent::ParentUrl(u)) => json!(u), _ => Value::Null },
            "embeds": x.embeds.iter().map(|e| match &e.embed { Some(p::embed::Embed::CastId(c)) => json!({"castId": cid(c)}), Some(p::embed::Embed::Url(u)) => json!({"url": u}), None => json!({"url": ""}) }).collect::<Vec<_>>(),
        })),
        B::CastRemoveBody(x) => ("castRemoveBody", json!({"targetHash": b64(&x.target_hash)})),
        B::ReactionBody(x) => ("reactionBody", { let mut m = obj(json!({"type": name(REACTS, x.r#type)?})); match &x.target { Some(p::reaction_body::Target::TargetCastId(c)) => { m.insert("targetCastId".into(), cid(c)); } Some(p::reaction_body::Target::TargetUrl(u)) => { m.insert("targetUrl".into(), json!(u)); } None => {} } Value::Object(m) }),
        B::VerificationAddAddressBody(x) => ("verificationAddAddressBody", json!({"address": if x.protocol == 0 { hx(&x.address) } else { b58(&x.address) }, "claimSignature": b64(&x.claim_signature), "blockHash": if x.protocol == 0 { hx(&x.block_hash) } else { b58(&x.block_hash) }, "type": x.verification_type, "chainId": x.chain_id, "protocol": name(PROTOCOLS, x.protocol)?})),
        B::VerificationRemoveBody(x) => ("verificationRemoveBody", json!({"address": if x.protocol == 0 { hx(&x.address) } else { b58(&x.address) }, "protocol": name(PROTOCOLS, x.protocol)?})),
        B::UserDataBody(x) => ("userDataBody", json!({"type": name(DATA, x.r#type)?, "value": x.value})),
        B::LinkBody(x) => ("linkBody", json!({"type": x.r#type, "displayTimestamp": x.display_timestamp, "targetFid": match &x.target { Some(p::link_body::Target::TargetFid(f)) => f, None => return None }})),
        B::UsernameProofBody(x) => ("usernameProofBody", proof(x)?),
        B::FrameActionBody(x) => ("frameActionBody", { let mut m = obj(json!({"url": b64(&x.url), "buttonIndex": x.button_index, "inputText": b64(&x.input_text), "state": b64(&x.state), "transactionId": b64(&x.transaction_id), "address": hx(&x.address)})); opt(&mut m, "castId", x.cast_id.as_ref().map(cid)); Value::Object(m) }),
        B::LinkCompactStateBody(x) => ("linkCompactStateBody", json!({"type": x.r#type, "targetFids": x.target_fids})),
        B::LendStorageBody(x) => ("lendStorageBody", json!({"toFid": x.to_fid, "numUnits": x.num_units, "unitType": name0(UNITS, x.unit_type)})),
        B::KeyAddBody(x) => ("keyAddBody", json!({"key": hx(&x.key), "keyType": x.key_type, "custodySignature": hx(&x.custody_signature), "deadline": x.deadline, "nonce": x.nonce, "metadata": hx(&x.metadata), "metadataType": x.metadata_type, "registrationTxHash": hx(&x.registration_tx_hash), "scopes": scopes(&x.scopes), "ttl": x.ttl})),
        B::KeyRemoveBody(x) => ("keyRemoveBody", json!({"key": hx(&x.key), "signature": hx(&x.signature), "signatureType": x.signature_type, "deadline": x.deadline, "nonce": x.nonce})),
        B::ChannelUpdateBody(x) => ("channelUpdateBody", {
            let mut m = obj(json!({"channelId": hx(&x.channel_id)}));
            for (k, v) in [("name", &x.name), ("description", &x.description), ("imageUrl", &x.image_url), ("header", &x.header), ("rules", &x.rules)] { opt(&mut m, k, v.as_ref().map(|s| json!(s))); }
            if let Some(n) = x.casting_mode { m.insert("castingMode".into(), name(CMODES, n)?); }
            if let Some(n) = x.membership_mode { m.insert("membershipMode".into(), name(MMODES, n)?); }
            Value::Object(m)
        }),
        B::ChannelMemberBody(x) => ("channelMemberBody", json!({"channelId": hx(&x.channel_id), "fid": x.fid, "action": name(MACTS, x.action)?})),
        B::ChannelPinBody(x) => ("channelPinBody", json!({"channelId": hx(&x.channel_id), "castHash": hx(&x.cast_hash)})),
        B::ChannelModerateBody(x) => ("channelModerateBody", json!({"channelId": hx(&x.channel_id), "castHash": hx(&x.cast_hash), "action": name(HIDES, x.action)?})),
    })
}
fn scopes(s: &[i32]) -> Vec<Value> { s.iter().filter_map(|i| name(TYPES, *i)).collect() }
fn proof(x: &p::UserNameProof) -> V { Some(json!({"timestamp": x.timestamp, "name": String::from_utf8(x.name.clone()).ok()?, "owner": hx(&x.owner), "signature": b64(&x.signature), "fid": x.fid, "type": name(NAMES, x.r#type)?})) }
pub fn shown(m: &p::Message) -> V {
    let d = m.data.as_ref()?;
    let (k, v) = body(d.body.as_ref()?)?;
    let mut o = obj(json!({"type": name(TYPES, d.r#type)?, "fid": d.fid, "timestamp": d.timestamp, "network": name(NETS, d.network)?}));
    o.insert(k.to_string(), v);
    Some(json!({"data": o, "hash": hx(&m.hash), "hashScheme": name(HASHES, m.hash_scheme)?, "signature": b64(&m.signature), "signatureScheme": name(SIGS, m.signature_scheme)?, "signer": hx(&m.signer)}))
}
pub fn chain(e: &p::OnChainEvent) -> Value {
    use p::on_chain_event::Body as B;
    let mut o = obj(json!({"type": name0(EVENTS, e.r#type), "chainId": e.chain_id, "blockNumber": e.block_number, "blockHash": hx(&e.block_hash), "blockTimestamp": e.block_timestamp, "transactionHash": hx(&e.transaction_hash), "logIndex": e.log_index, "fid": e.fid, "txIndex": e.tx_index, "version": e.version, "tier_purchase_event_body": null}));
    if let Some(b) = &e.body { let (k, v) = match b {
        B::SignerEventBody(x) => ("signerEventBody", json!({"key": hx(&x.key), "keyType": x.key_type, "eventType": name0(SIGNER, x.event_type), "metadata": b64(&x.metadata), "metadataType": x.metadata_type})),
        B::SignerMigratedEventBody(x) => ("signerMigratedEventBody", json!({"migratedAt": x.migrated_at})),
        B::IdRegisterEventBody(x) => ("idRegisterEventBody", json!({"to": hx(&x.to), "eventType": name0(IDREG, x.event_type), "from": hx(&x.from), "recoveryAddress": hx(&x.recovery_address)})),
        B::StorageRentEventBody(x) => ("storageRentEventBody", json!({"payer": hx(&x.payer), "units": x.units, "expiry": x.expiry})),
        B::TierPurchaseEventBody(x) => ("tier_purchase_event_body", json!({"payer": hx(&x.payer), "for_days": x.for_days, "tier_type": name0(TIERS, x.tier_type)})),
        B::ChannelRegisterEventBody(x) => ("channelRegisterEventBody", json!({"channelKey": x.channel_key, "expiry": x.expiry, "ownerAddress": hx(&x.owner_address), "eventType": name0(REG, x.event_type), "label": hx(&x.label)})),
    }; o.insert(k.to_string(), v); }
    Value::Object(o)
}
pub fn signer(s: &p::Signer) -> Value {
    let mut o = obj(json!({"source": name0(SOURCES, s.source), "key": hx(&s.key), "keyType": s.key_type, "fid": s.fid}));
    opt(&mut o, "addedAt", s.added_at.map(|x| json!(x))); opt(&mut o, "lastUsedAt", s.last_used_at.map(|x| json!(x))); opt(&mut o, "ttl", s.ttl.map(|x| json!(x))); opt(&mut o, "expiresAt", s.expires_at.map(|x| json!(x)));
    opt(&mut o, "requestFid", s.request_fid.map(|x| json!(x))); opt(&mut o, "nonce", s.nonce.map(|x| json!(x))); opt(&mut o, "onChainEvent", s.onchain_event.as_ref().map(chain));
    let n = scopes(&s.scopes); if !n.is_empty() { o.insert("scopes".into(), json!(n)); }
    Value::Object(o)
}
pub fn hub(e: &p::HubEvent) -> V {
    use p::hub_event::Body as B;
    let mut o = obj(json!({"type": name(HUB, e.r#type)?, "id": e.id, "blockNumber": e.block_number, "shardIndex": e.shard_index}));
    match e.body.as_ref() {
        None => {}
        Some(B::MergeMessageBody(b)) => if let Some(m) = &b.message { o.insert("mergeMessageBody".into(), json!({"message": shown(m)?, "deletedMessages": b.deleted_messages.iter().map(|m| shown(m).unwrap()).collect::<Vec<_>>()})); },
        Some(B::PruneMessageBody(b)) => if let Some(m) = &b.message { o.insert("pruneMessageBody".into(), json!({"message": shown(m)?})); },
        Some(B::RevokeMessageBody(b)) => if let Some(m) = &b.message { o.insert("revokeMessageBody".into(), json!({"message": shown(m)?})); },
        Some(B::MergeUsernameProofBody(b)) => {
            let mut m = Map::new();
            opt(&mut m, "usernameProof", b.username_proof.as_ref().map(|x| proof(x).unwrap())); opt(&mut m, "deletedUsernameProof", b.deleted_username_proof.as_ref().map(|x| proof(x).unwrap()));
            opt(&mut m, "usernameProofMessage", b.username_proof_message.as_ref().map(|x| shown(x).unwrap())); opt(&mut m, "deletedUsernameProofMessage", b.deleted_username_proof_message.as_ref().map(|x| shown(x).unwrap()));
            o.insert("mergeUsernameProofBody".into(), Value::Object(m));
        }
        Some(B::MergeOnChainEventBody(b)) => if let Some(x) = &b.on_chain_event { o.insert("mergeOnChainEventBody".into(), json!({"onChainEvent": chain(x)})); },
        Some(B::MergeFailure(b)) => if let Some(m) = &b.message { o.insert("mergeFailureBody".into(), json!({"message": shown(m)?, "code": b.code, "reason": b.reason})); },
        Some(B::BlockConfirmedBody(b)) => { o.insert("blockConfirmedBody".into(), json!({"blockNumber": b.block_number, "shardIndex": b.shard_index, "timestamp": b.timestamp, "blockHash": hx(&b.block_hash), "totalEvents": b.total_events})); }
        Some(B::ChannelOwnerChangeHintBody(b)) => { o.insert("channelOwnerChangeHintBody".into(), json!({"channelKey": b.channel_key, "ownerAddress": hx(&b.owner_address), "cause": name0(CAUSES, b.cause)})); }
    }
    Some(Value::Object(o))
}

// ---- generators
fn num(c: &mut Ctx, t: &[(i32, &str)], sane: bool) -> i32 {
    if sane || !c.p(1, 12) { c.pick(t).0 } else { match c.below(4) { 0 => t[t.len() - 1].0 + 1, 1 => -1, 2 => c.i32(), _ => t[t.len() - 1].0 + 1 + c.below(300) as i32 } }
}
fn loose(c: &mut Ctx, t: &[(i32, &str)]) -> i32 { if c.p(1, 5) { c.i32() } else { c.pick(t).0 } }
fn blob(c: &mut Ctx) -> Vec<u8> { let n = c.pick(&[0usize, 1, 2, 3, 4, 20, 20, 31, 32, 32, 33, 64, 65]); let mut b = c.bytes(n); if c.p(1, 8) { let z = c.below(4) as usize; for x in b.iter_mut().take(z) { *x = 0; } } b }
fn word(c: &mut Ctx) -> String { let n = c.below(12) as usize; c.text(n) }
fn oword(c: &mut Ctx) -> Option<String> { if c.p(2, 3) { Some(word(c)) } else { None } }
fn gcid(c: &mut Ctx) -> p::CastId { p::CastId { fid: c.int(), hash: blob(c) } }
fn gproof(c: &mut Ctx, sane: bool) -> p::UserNameProof { p::UserNameProof { timestamp: c.int(), name: if sane || !c.p(1, 10) { word(c).into_bytes() } else { blob(c) }, owner: blob(c), signature: blob(c), fid: c.int(), r#type: num(c, NAMES, sane) } }
fn list<T>(c: &mut Ctx, n: u64, f: impl Fn(&mut Ctx) -> T) -> Vec<T> { let k = c.below(n + 1); (0..k).map(|_| f(c)).collect() }
fn gbody(c: &mut Ctx, k: u64, sane: bool) -> p::message_data::Body {
    use p::message_data::Body as B;
    match k {
        0 => B::CastAddBody(p::CastAddBody { embeds_deprecated: list(c, 3, word), mentions: list(c, 3, |c| c.int()), mentions_positions: list(c, 3, |c| c.u32()), text: word(c),
            parent: match c.below(3) { 0 => None, 1 => Some(p::cast_add_body::Parent::ParentCastId(gcid(c))), _ => Some(p::cast_add_body::Parent::ParentUrl(word(c))) },
            embeds: list(c, 4, |c| p::Embed { embed: if c.p(1, 2) { Some(p::embed::Embed::CastId(gcid(c))) } else { Some(p::embed::Embed::Url(word(c))) } }), r#type: num(c, CASTS, sane) }),
        1 => B::CastRemoveBody(p::CastRemoveBody { target_hash: blob(c) }),
        2 => B::ReactionBody(p::ReactionBody { r#type: num(c, REACTS, sane), target: match c.below(3) { 0 => None, 1 => Some(p::reaction_body::Target::TargetCastId(gcid(c))), _ => Some(p::reaction_body::Target::TargetUrl(word(c))) } }),
        3 => B::VerificationAddAddressBody(p::VerificationAddAddressBody { address: blob(c), claim_signature: blob(c), block_hash: blob(c), verification_type: c.u32(), chain_id: c.u32(), protocol: num(c, PROTOCOLS, sane) }),
        4 => B::VerificationRemoveBody(p::VerificationRemoveBody { address: blob(c), protocol: num(c, PROTOCOLS, sane) }),
        5 => B::UserDataBody(p::UserDataBody { r#type: num(c, DATA, sane), value: word(c) }),
        6 => B::LinkBody(p::LinkBody { r#type: word(c), display_timestamp: if c.p(1, 2) { Some(c.u32()) } else { None }, target: if !sane && c.p(1, 15) { None } else { Some(p::link_body::Target::TargetFid(c.int())) } }),
        7 => B::UsernameProofBody(gproof(c, sane)),
        8 => B::FrameActionBody(p::FrameActionBody { url: blob(c), button_index: c.u32(), cast_id: if c.p(1, 2) { Some(gcid(c)) } else { None }, input_text: blob(c), state: blob(c), transaction_id: blob(c), address: blob(c) }),
        9 => B::LinkCompactStateBody(p::LinkCompactStateBody { r#type: word(c), target_fids: list(c, 4, |c| c.int()) }),
        10 => B::LendStorageBody(p::LendStorageBody { to_fid: c.int(), num_units: c.int(), unit_type: loose(c, UNITS) }),
        11 => B::KeyAddBody(p::KeyAddBody { key: blob(c), key_type: c.u32(), custody_signature: blob(c), deadline: c.u32(), nonce: c.u32(), metadata: blob(c), metadata_type: c.u32(), registration_tx_hash: blob(c), scopes: list(c, 5, |c| loose(c, TYPES)), ttl: c.u32() }),
        12 => B::KeyRemoveBody(p::KeyRemoveBody { key: blob(c), signature: blob(c), signature_type: c.u32(), deadline: c.u32(), nonce: c.u32() }),
        13 => B::ChannelUpdateBody(p::ChannelUpdateBody { channel_id: blob(c), name: oword(c), description: oword(c), image_url: oword(c), header: oword(c), rules: oword(c), casting_mode: if c.p(2, 3) { Some(num(c, CMODES, sane)) } else { None }, membership_mode: if c.p(2, 3) { Some(num(c, MMODES, sane)) } else { None } }),
        14 => B::ChannelMemberBody(p::ChannelMemberBody { channel_id: blob(c), fid: c.int(), action: num(c, MACTS, sane) }),
        15 => B::ChannelPinBody(p::ChannelPinBody { channel_id: blob(c), cast_hash: blob(c) }),
        _ => B::ChannelModerateBody(p::ChannelModerateBody { channel_id: blob(c), cast_hash: blob(c), action: num(c, HIDES, sane) }),
    }
}
fn gmsg(c: &mut Ctx, sane: bool) -> p::Message {
    let k = c.below(17);
    p::Message {
        data: if !sane && c.p(1, 30) { None } else { Some(p::MessageData { r#type: num(c, TYPES, sane), fid: c.int(), timestamp: c.u32(), network: num(c, NETS, sane), body: if !sane && c.p(1, 30) { None } else { Some(gbody(c, k, sane)) } }) },
        hash: blob(c), hash_scheme: num(c, HASHES, sane), signature: blob(c), signature_scheme: num(c, SIGS, sane), signer: blob(c), data_bytes: if c.p(1, 3) { Some(blob(c)) } else { None },
    }
}
fn gchain(c: &mut Ctx) -> p::OnChainEvent {
    use p::on_chain_event::Body as B;
    let body = match c.below(7) {
        0 => None,
        1 => Some(B::SignerEventBody(p::SignerEventBody { key: blob(c), key_type: c.u32(), event_type: loose(c, SIGNER), metadata: blob(c), metadata_type: c.u32() })),
        2 => Some(B::SignerMigratedEventBody(p::SignerMigratedEventBody { migrated_at: c.u32() })),
        3 => Some(B::IdRegisterEventBody(p::IdRegisterEventBody { to: blob(c), event_type: loose(c, IDREG), from: blob(c), recovery_address: blob(c) })),
        4 => Some(B::StorageRentEventBody(p::StorageRentEventBody { payer: blob(c), units: c.u32(), expiry: c.u32() })),
        5 => Some(B::TierPurchaseEventBody(p::TierPurchaseBody { tier_type: loose(c, TIERS), for_days: c.int(), payer: blob(c) })),
        _ => Some(B::ChannelRegisterEventBody(p::ChannelRegisterBody { channel_key: word(c), expiry: c.int(), owner_address: blob(c), event_type: loose(c, REG), label: blob(c) })),
    };
    p::OnChainEvent { r#type: loose(c, EVENTS), chain_id: c.u32(), block_number: c.u32(), block_hash: blob(c), block_timestamp: c.int(), transaction_hash: blob(c), log_index: c.u32(), fid: c.int(), body, tx_index: c.u32(), version: c.u32() }
}
fn gsigner(c: &mut Ctx) -> p::Signer {
    let o64 = |c: &mut Ctx| if c.p(1, 2) { Some(c.int()) } else { None };
    let o32 = |c: &mut Ctx| if c.p(1, 2) { Some(c.u32()) } else { None };
    p::Signer { source: loose(c, SOURCES), key: blob(c), key_type: c.u32(), fid: c.int(), added_at: o64(c), last_used_at: o64(c), ttl: o32(c), expires_at: o64(c), scopes: list(c, 4, |c| loose(c, TYPES)), request_fid: o64(c), nonce: o32(c), onchain_event: if c.p(1, 2) { Some(gchain(c)) } else { None } }
}
fn ghub(c: &mut Ctx) -> p::HubEvent {
    use p::hub_event::Body as B;
    let om = |c: &mut Ctx| if c.p(4, 5) { Some(gmsg(c, true)) } else { None };
    let op = |c: &mut Ctx| if c.p(1, 2) { Some(gproof(c, true)) } else { None };
    let body = match c.below(10) {
        0 => None,
        1 | 2 => Some(B::MergeMessageBody(p::MergeMessageBody { message: om(c), deleted_messages: list(c, 3, |c| gmsg(c, true)) })),
        3 => Some(B::PruneMessageBody(p::PruneMessageBody { message: om(c) })),
        4 => Some(B::RevokeMessageBody(p::RevokeMessageBody { message: om(c) })),
        5 => Some(B::MergeUsernameProofBody(p::MergeUserNameProofBody { username_proof: op(c), deleted_username_proof: op(c), username_proof_message: om(c), deleted_username_proof_message: om(c) })),
        6 => Some(B::MergeOnChainEventBody(p::MergeOnChainEventBody { on_chain_event: if c.p(4, 5) { Some(gchain(c)) } else { None } })),
        7 => Some(B::MergeFailure(p::MergeFailureBody { message: om(c), code: word(c), reason: word(c) })),
        8 => Some(B::BlockConfirmedBody(p::BlockConfirmedBody { block_number: c.int(), shard_index: c.u32(), timestamp: c.int(), block_hash: blob(c), total_events: c.int(), ..Default::default() })),
        _ => Some(B::ChannelOwnerChangeHintBody(p::ChannelOwnerChangeHintBody { channel_key: word(c), owner_address: blob(c), cause: loose(c, CAUSES) })),
    };
    p::HubEvent { r#type: num(c, HUB, false), id: c.int(), body, block_number: c.int(), shard_index: c.u32(), timestamp: c.int() }
}
fn val<T: serde::Serialize>(r: Result<T, ErrorResponse>) -> V { r.ok().map(|x| serde_json::to_value(&x).unwrap()) }

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(6000) {
        if c.enough() { return; }
        let m = gmsg(c, false);
        let w = shown(&m);
        c.case("map_proto_message_to_json_message", format!("{:?}", m), || same("JSON form of the message (null when refused)", val(map_proto_message_to_json_message(m.clone())), w));
    }
    for _ in 0..c.rounds(2500) {
        if c.enough() { return; }
        let e = gchain(c); let w = Some(chain(&e));
        c.case("map_proto_on_chain_event_to_json_on_chain_event", format!("{:?}", e), || same("JSON form of the on-chain event", val(map_proto_on_chain_event_to_json_on_chain_event(e.clone())), w));
        let s = gsigner(c); let w = Some(signer(&s));
        c.case("map_proto_signer_to_json_signer", format!("{:?}", s), || same("JSON form of the signer", val(map_proto_signer_to_json_signer(s.clone())), w));
        let e = ghub(c); let w = hub(&e);
        c.case("map_proto_hub_event_to_json_hub_event", format!("{:?}", e), || same("JSON form of the hub event", val(map_proto_hub_event_to_json_hub_event(e.clone())), w));
    }
    for _ in 0..c.rounds(600) {
        if c.enough() { return; }
        let ms = p::MessagesResponse { messages: list(c, 4, |c| gmsg(c, true)), next_page_token: if c.p(1, 2) { Some(blob(c)) } else { None } };
        let w = Some(json!({"messages": ms.messages.iter().map(|m| shown(m).unwrap()).collect::<Vec<_>>(), "nextPageToken": ms.next_page_token.as_ref().map(|t| b64(t)).unwrap_or_else(|| json!(""))}));
        c.case("map_proto_messages_response_to_json_paged_response", format!("{:?}", ms), || same("JSON form of the page", val(map_proto_messages_response_to_json_paged_response(ms.clone())), w));
        let i = p::GetInfoResponse { version: word(c), db_stats: if c.p(2, 3) { Some(p::DbStats { num_messages: c.int(), num_fid_registrations: c.int(), approx_size: c.int() }) } else { None }, peer_id: word(c), num_shards: c.u32(), next_engine_version_timestamp: c.int(),
            shard_infos: list(c, 3, |c| p::ShardInfo { shard_id: c.u32(), max_height: c.int(), num_messages: c.int(), num_fid_registrations: c.int(), approx_size: c.int(), block_delay: c.int(), mempool_size: c.int(), num_onchain_events: c.int() }) };
        let mut o = obj(json!({"numShards": i.num_shards, "version": i.version, "peer_id": i.peer_id, "nextEngineVersionTimestamp": i.next_engine_version_timestamp,
            "shardInfos": i.shard_infos.iter().map(|s| json!({"shardId": s.shard_id, "maxHeight": s.max_height, "numMessages": s.num_messages, "numFidRegistrations": s.num_fid_registrations, "approxSize": s.approx_size, "blockDelay": s.block_delay, "mempoolSize": s.mempool_size})).collect::<Vec<_>>()}));
        opt(&mut o, "dbStats", i.db_stats.as_ref().map(|d| json!({"numMessages": d.num_messages, "numFidRegistrations": d.num_fid_registrations, "approxSize": d.approx_size})));
        c.case("map_get_info_response_to_json_info_response", format!("{:?}", i), || same("JSON form of the node info", val(map_get_info_response_to_json_info_response(i.clone())), Some(Value::Object(o))));
    }
    answers(c);
}

fn tok(t: &Option<Vec<u8>>) -> V { t.as_ref().map(|t| b64(t)) }
fn gtok(c: &mut Ctx) -> Option<Vec<u8>> { if c.p(1, 2) { Some(blob(c)) } else { None } }
const STATES: &[(i32, &str)] = &[(0, "CHANNEL_MEMBER_STATE_NONE"), (1, "CHANNEL_MEMBER_STATE_MEMBER"), (2, "CHANNEL_MEMBER_STATE_MODERATOR"), (3, "CHANNEL_MEMBER_STATE_REMOVED"), (4, "CHANNEL_MEMBER_STATE_BANNED")];
const STORES: &[(i32, &str)] = &[(0, "None"), (1, "Casts"), (2, "Links"), (3, "Reactions"), (4, "UserData"), (5, "Verifications"), (6, "UsernameProofs")];
fn all(v: Vec<V>) -> Option<Vec<Value>> { v.into_iter().collect() }
fn listed(k: &str, v: Option<Vec<Value>>, t: &Option<Vec<u8>>) -> V { let mut o = Map::new(); o.insert(k.to_string(), json!(v?)); opt(&mut o, "nextPageToken", tok(t)); Some(Value::Object(o)) }
fn sproof(x: &p::UserNameProof) -> V { Some(json!({"timestamp": x.timestamp, "name": String::from_utf8(x.name.clone()).ok()?, "owner": hx(&x.owner), "signature": b64(&x.signature), "fid": x.fid, "type": name0(NAMES, x.r#type)})) }

// what each endpoint shows of the node's answer
fn answers(c: &mut Ctx) {
    let node = std::sync::Arc::new(Node::new());
    let svc = HubHttpServiceImpl { service: node.clone() };
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    macro_rules! go { ($c:expr, $f:ident, $q:expr, $a:expr, $want:expr) => {{
        let a = $a; let want: V = $want(&a);
        let (s, n) = (&svc, &node); let rt = &rt;
        $c.case(stringify!($f), format!("{:?}", a), || { n.reply(a.clone()); let q = serde_qs::from_str($q).map_err(|e| format!("request not read: {}", e))?; let r = rt.block_on(s.$f(q)); n.asked(); same("JSON form of the answer (null when refused)", val(r), want) });
    }} }
    for _ in 0..c.rounds(400) {
        if c.enough() { return; }
        go!(c, get_fids, "shard_id=1", p::FidsResponse { fids: list(c, 4, |c| c.int()), next_page_token: gtok(c) }, |a: &p::FidsResponse| listed("fids", Some(a.fids.iter().map(|f| json!(f)).collect()), &a.next_page_token));
        go!(c, get_storage_limits_by_fid, "fid=1", p::StorageLimitsResponse { limits: list(c, 4, |c| p::StorageLimit { store_type: loose(c, STORES), name: word(c), limit: c.int(), used: c.int(), earliest_timestamp: c.int(), earliest_hash: blob(c) }), units: c.u32(), unit_details: list(c, 4, |c| p::StorageUnitDetails { unit_type: loose(c, UNITS), unit_size: c.u32(), ..Default::default() }), tier_subscriptions: list(c, 3, |c| p::TierDetails { tier_type: loose(c, TIERS), expires_at: c.int(), ..Default::default() }) },
            |a: &p::StorageLimitsResponse| Some(json!({"limits": a.limits.iter().map(|l| json!({"storeType": name0(STORES, l.store_type), "name": l.name, "limit": l.limit, "used": l.used, "earliestTimestamp": l.earliest_timestamp, "earliestHash": l.earliest_hash})).collect::<Vec<_>>(), "units": a.units,
                "unitDetails": a.unit_details.iter().map(|u| json!({"unitType": name0(UNITS, u.unit_type), "unitSize": u.unit_size})).collect::<Vec<_>>(), "tier_subscriptions": a.tier_subscriptions.iter().map(|t| json!({"tier_type": name0(TIERS, t.tier_type), "expires_at": t.expires_at})).collect::<Vec<_>>()})));
        go!(c, get_user_name_proof_by_name, "name=alice", { let mut x = gproof(c, true); x.r#type = loose(c, NAMES); x }, sproof);
        go!(c, get_user_name_proofs_by_fid, "fid=1", p::UsernameProofsResponse { proofs: list(c, 4, |c| gproof(c, true)) }, |a: &p::UsernameProofsResponse| Some(json!({"proofs": all(a.proofs.iter().map(sproof).collect())?})));
        go!(c, get_on_chain_signers_by_fid, "fid=1", p::OnChainEventResponse { events: list(c, 3, gchain), next_page_token: gtok(c) }, |a: &p::OnChainEventResponse| listed("events", Some(a.events.iter().map(chain).collect()), &a.next_page_token));
        go!(c, get_on_chain_events_by_fid, "fid=1&event_type=EVENT_TYPE_SIGNER", p::OnChainEventResponse { events: list(c, 3, gchain), next_page_token: gtok(c) }, |a: &p::OnChainEventResponse| listed("events", Some(a.events.iter().map(chain).collect()), &a.next_page_token));
        go!(c, get_signer, "fid=1&signer=0x01", p::SignerResponse { signer: if c.p(5, 6) { Some(gsigner(c)) } else { None } }, |a: &p::SignerResponse| a.signer.as_ref().map(|s| json!({"signer": signer(s)})));
        go!(c, get_signers_by_fid, "fid=1", p::SignersByFidResponse { signers: list(c, 3, gsigner), next_page_token: gtok(c), gasless_signer_count: c.u32(), gasless_signer_limit: c.u32(), current_user_nonce: c.u32(), requester_fid_nonces: list(c, 3, |c| (c.int(), c.u32())).into_iter().collect(), ..Default::default() },
            |a: &p::SignersByFidResponse| { let mut o = obj(json!({"signers": a.signers.iter().map(signer).collect::<Vec<_>>(), "gaslessSignerCount": a.gasless_signer_count, "gaslessSignerLimit": a.gasless_signer_limit, "currentUserNonce": a.current_user_nonce})); opt(&mut o, "nextPageToken", tok(&a.next_page_token));
                if !a.requester_fid_nonces.is_empty() { o.insert("requesterFidNonces".into(), Value::Object(a.requester_fid_nonces.iter().map(|(k, v)| (k.to_string(), json!(v))).collect())); } Some(Value::Object(o)) });
        go!(c, get_channel_owner, "channelKey=a&channel_key=a", p::ChannelOwnerResponse { fid: c.int(), owner_address: blob(c), expiry: c.int() }, |a: &p::ChannelOwnerResponse| Some(json!({"fid": a.fid, "ownerAddress": hx(&a.owner_address), "expiry": a.expiry})));
        let gchan = |c: &mut Ctx| p::ChannelsResponse { channels: list(c, 3, |c| p::ChannelInfo { channel_key: word(c), fid: c.int(), owner_address: blob(c), expiry: c.int() }), next_page_token: gtok(c) };
        let schan = |a: &p::ChannelsResponse| listed("channels", Some(a.channels.iter().map(|x| json!({"channelKey": x.channel_key, "fid": x.fid, "ownerAddress": hx(&x.owner_address), "expiry": x.expiry})).collect()), &a.next_page_token);
        go!(c, get_channels_by_fid, "fid=1", gchan(c), schan);
        go!(c, get_channels_by_address, "address=0x01", gchan(c), schan);
        let ch = "channelId=0x01&channel_id=0x01";
        go!(c, get_channel_member, "channelId=0x01&channel_id=0x01&fid=1", p::ChannelMemberResponse { state: num(c, STATES, false), last_action_ts: if c.p(1, 2) { Some(c.u32()) } else { None } }, |a: &p::ChannelMemberResponse| { let mut o = obj(json!({"state": name(STATES, a.state)?})); opt(&mut o, "lastActionTs", a.last_action_ts.map(|x| json!(x))); Some(Value::Object(o)) });
        go!(c, get_channel_members, ch, p::ChannelMembersResponse { members: list(c, 3, |c| p::ChannelMember { fid: c.int(), state: num(c, STATES, false), ..Default::default() }), next_page_token: gtok(c) }, |a: &p::ChannelMembersResponse| listed("members", all(a.members.iter().map(|m| Some(json!({"fid": m.fid, "state": name(STATES, m.state)?}))).collect()), &a.next_page_token));
        go!(c, get_channel_pin, ch, p::ChannelPinResponse { pin: if c.p(3, 4) { Some(p::ChannelPin { cast_hash: blob(c), author_fid: c.int() }) } else { None } }, |a: &p::ChannelPinResponse| Some(json!({"pin": a.pin.as_ref().map(|x| json!({"castHash": hx(&x.cast_hash), "authorFid": x.author_fid}))})));
        go!(c, get_channel_moderations, ch, p::ChannelModerationsResponse { moderations: list(c, 3, |c| p::ChannelModeration { cast_hash: blob(c), action: num(c, HIDES, false), author_fid: c.int() }), next_page_token: gtok(c) }, |a: &p::ChannelModerationsResponse| listed("moderations", all(a.moderations.iter().map(|m| Some(json!({"castHash": hx(&m.cast_hash), "action": name(HIDES, m.action)?, "authorFid": m.author_fid}))).collect()), &a.next_page_token));
        go!(c, get_channel_metadata, ch, p::ChannelMetadataResponse { name: oword(c), description: oword(c), image_url: oword(c), header: oword(c), rules: oword(c), casting_mode: num(c, CMODES, false), membership_mode: num(c, MMODES, false) },
            |a: &p::ChannelMetadataResponse| Some(json!({"name": a.name, "description": a.description, "imageUrl": a.image_url, "header": a.header, "rules": a.rules, "castingMode": name(CMODES, a.casting_mode)?, "membershipMode": name(MMODES, a.membership_mode)?})));
        go!(c, get_channel_memberships_by_fid, "fid=1", p::ChannelMembershipsResponse { memberships: list(c, 3, |c| p::ChannelMembership { channel_id: blob(c), state: num(c, STATES, false) }), next_page_token: gtok(c) }, |a: &p::ChannelMembershipsResponse| listed("memberships", all(a.memberships.iter().map(|m| Some(json!({"channelId": hx(&m.channel_id), "state": name(STATES, m.state)?}))).collect()), &a.next_page_token));
        go!(c, get_channel_followers, ch, p::ChannelFollowersResponse { followers: list(c, 3, |c| p::ChannelFollower { fid: c.int(), followed_at: c.u32() }), next_page_token: gtok(c) }, |a: &p::ChannelFollowersResponse| listed("followers", Some(a.followers.iter().map(|m| json!({"fid": m.fid, "followedAt": m.followed_at})).collect()), &a.next_page_token));
        go!(c, get_channel_follower_count, ch, p::ChannelFollowerCountResponse { count: c.int() }, |a: &p::ChannelFollowerCountResponse| Some(json!({"count": a.count})));
        go!(c, get_channel_follows, "fid=1", p::ChannelFollowsResponse { follows: list(c, 3, |c| p::ChannelFollow { channel_id: blob(c), followed_at: c.u32() }), next_page_token: gtok(c) }, |a: &p::ChannelFollowsResponse| listed("follows", Some(a.follows.iter().map(|m| json!({"channelId": hx(&m.channel_id), "followedAt": m.followed_at})).collect()), &a.next_page_token));
        go!(c, is_following_channel, "fid=1&channelId=0x01&channel_id=0x01", p::IsFollowingChannelResponse { following: c.p(1, 2), followed_at: if c.p(1, 2) { Some(c.u32()) } else { None } }, |a: &p::IsFollowingChannelResponse| { let mut o = obj(json!({"following": a.following})); opt(&mut o, "followedAt", a.followed_at.map(|x| json!(x))); Some(Value::Object(o)) });
        go!(c, get_fid_address_type, "fid=1&address=0x01", p::FidAddressTypeResponse { is_custody: c.p(1, 2), is_auth: c.p(1, 2), is_verified: c.p(1, 2) }, |a: &p::FidAddressTypeResponse| Some(json!({"is_custody": a.is_custody, "is_auth": a.is_auth, "is_verified": a.is_verified})));
        go!(c, get_cast_by_id, "fid=1&hash=0x01", gmsg(c, false), shown);
        { let a = p::ValidationResponse { valid: c.p(1, 2), message: Some(gmsg(c, false)) }; let w = shown(a.message.as_ref().unwrap()).map(|m| json!({"valid": a.valid, "message": m}));
          let (s, n, rt) = (&svc, &node, &rt); c.case("validate_message", format!("{:?}", a), || { n.reply(a.clone()); let r = rt.block_on(s.validate_message(p::Message::default())); n.asked(); same("JSON form of the answer (null when refused)", val(r), w) }); }
        { use p::bulk_message_response::Response as R;
          let a = p::SubmitBulkMessagesResponse { messages: list(c, 3, |c| p::BulkMessageResponse { response: if c.p(1, 2) { Some(R::Message(gmsg(c, true))) } else if c.p(1, 8) { None } else { Some(R::MessageError(p::MessageError { hash: blob(c), err_code: word(c), message: word(c) })) } }) };
          let w = all(a.messages.iter().map(|m| match &m.response { Some(R::Message(m)) => shown(m), Some(R::MessageError(e)) => Some(json!({"hash": hx(&e.hash), "errCode": e.err_code, "message": e.message})), None => None }).collect()).map(|v| json!({"messages": v}));
          let (s, n, rt) = (&svc, &node, &rt); c.case("submit_bulk_messages", format!("{:?}", a), || { n.reply(a.clone()); let r = rt.block_on(s.submit_bulk_messages(p::SubmitBulkMessagesRequest::default(), HeaderMap::new())); n.asked(); same("JSON form of the answer (null when refused)", val(r), w) }); }
        { let gpeer = |c: &mut Ctx| { let mut k = vec![0u8, 36, 8, 1, 18, 32]; k.extend(c.bytes(32)); k };
          let ginfo = |c: &mut Ctx| p::ContactInfoBody { gossip_address: word(c), peer_id: gpeer(c), snapchain_version: word(c), network: c.below(4) as i32, timestamp: c.int(), announce_rpc_address: word(c) };
          let a = p::GetConnectedPeersResponse { contacts: list(c, 2, ginfo), peers: list(c, 2, |c| p::ConnectedPeer { source: loose(c, &[(0, ""), (1, ""), (2, "")]), contact_info: if c.p(1, 2) { Some(ginfo(c)) } else { None }, peer_id: if c.p(1, 2) { gpeer(c) } else { c.bytes(5) }, observed_address: word(c) }) };
          let sp = |k: &[u8]| -> Value { b58(k) };
          let net = |n: i32| ["None", "Mainnet", "Testnet", "Devnet"][n as usize];
          let si = |i: &p::ContactInfoBody| json!({"gossip_address": i.gossip_address, "announce_rpc_address": i.announce_rpc_address, "peer_id": sp(&i.peer_id), "snapchain_version": i.snapchain_version, "network": net(i.network), "timestamp": i.timestamp});
          let w = Some(json!({"contacts": a.contacts.iter().map(si).collect::<Vec<_>>(), "peers": a.peers.iter().map(|x| { let mut o = obj(json!({"source": match x.source { s if s == p::ContactSource::Collected as i32 => "collected", s if s == p::ContactSource::Derived as i32 => "derived", _ => "unknown" }, "peer_id": if x.peer_id.len() == 38 { sp(&x.peer_id) } else { json!(x.peer_id.iter().map(|b| format!("{:02x}", b)).collect::<String>()) }, "observed_address": x.observed_address})); opt(&mut o, "contact_info", x.contact_info.as_ref().map(si)); Value::Object(o) }).collect::<Vec<_>>()}));
          go!(c, get_connected_peers, "", a.clone(), |_: &p::GetConnectedPeersResponse| w.clone()); }
    }
}
