use super::support::*;
use crate::network::http_server::*;
use crate::proto::{self, casts_by_parent_request, link_request, links_by_target_request, reaction_request, reactions_by_target_request};
use base64::prelude::*;
use std::sync::Arc;
use node::Node;

mod node {
use crate::proto::{hub_service_server::HubService, *};
use std::any::Any;
use std::sync::Mutex;
use tokio_stream::wrappers::ReceiverStream;
use tonic::{async_trait, Request, Response, Status};

// stands for the node behind the gateway: records each RPC with its request, and answers what it was told to
pub struct Node { asked: Mutex<Vec<(String, String)>>, reply: Mutex<Option<Box<dyn Any + Send>>> }
impl Node {
    pub fn new() -> Self { Node { asked: Mutex::new(vec![]), reply: Mutex::new(None) } }
    fn note(&self, m: &str, r: String) { self.asked.lock().unwrap().push((m.to_string(), r)); }
    fn give<A: 'static>(&self) -> Result<Response<A>, Status> {
        match self.reply.lock().unwrap().take().and_then(|b| b.downcast::<A>().ok()) { Some(a) => Ok(Response::new(*a)), None => Err(Status::not_found("nothing")) }
    }
    pub fn asked(&self) -> Vec<(String, String)> { std::mem::take(&mut *self.asked.lock().unwrap()) }
    pub fn reply<A: Send + 'static>(&self, a: A) { *self.reply.lock().unwrap() = Some(Box::new(a)); }
}
fn seen<T: std::fmt::Debug>(r: &Request<T>) -> String { match r.metadata().get("authorization") { Some(a) => format!("{:?} as {:?}", r.get_ref(), a.to_str().unwrap_or("?")), None => format!("{:?}", r.get_ref()) } }
macro_rules! node { ($($m:ident $q:ident $a:ident;)*) => {
#[async_trait]
impl HubService for Node {
    type GetBlocksStream = ReceiverStream<Result<Block, Status>>;
    async fn get_blocks(&self, r: Request<BlocksRequest>) -> Result<Response<Self::GetBlocksStream>, Status> { self.note("get_blocks", format!("{:?}", r.get_ref())); Err(Status::unavailable("no stream")) }
    type SubscribeStream = ReceiverStream<Result<HubEvent, Status>>;
    async fn subscribe(&self, r: Request<SubscribeRequest>) -> Result<Response<Self::SubscribeStream>, Status> { self.note("subscribe", format!("{:?}", r.get_ref())); Err(Status::unavailable("no stream")) }
    $( async fn $m(&self, r: Request<$q>) -> Result<Response<$a>, Status> { self.note(stringify!($m), seen(&r)); self.give() } )*
}
} }
node! {
    submit_message Message Message;
    submit_bulk_messages SubmitBulkMessagesRequest SubmitBulkMessagesResponse;
    validate_message Message ValidationResponse;
    get_shard_chunks ShardChunksRequest ShardChunksResponse;
    get_info GetInfoRequest GetInfoResponse;
    get_fids FidsRequest FidsResponse;
    get_connected_peers GetConnectedPeersRequest GetConnectedPeersResponse;
    get_mesh_view GetMeshViewRequest MeshView;
    get_mesh_topology GetMeshViewRequest MeshTopology;
    get_event EventRequest HubEvent;
    get_events EventsRequest EventsResponse;
    get_cast CastId Message;
    get_casts_by_fid FidRequest MessagesResponse;
    get_casts_by_parent CastsByParentRequest MessagesResponse;
    get_casts_by_mention FidRequest MessagesResponse;
    get_reaction ReactionRequest Message;
    get_reactions_by_fid ReactionsByFidRequest MessagesResponse;
    get_reactions_by_cast ReactionsByTargetRequest MessagesResponse;
    get_reactions_by_target ReactionsByTargetRequest MessagesResponse;
    get_user_data UserDataRequest Message;
    get_user_data_by_fid FidRequest MessagesResponse;
    get_username_proof UsernameProofRequest UserNameProof;
    get_user_name_proofs_by_fid FidRequest UsernameProofsResponse;
    get_verification VerificationRequest Message;
    get_verifications_by_fid FidRequest MessagesResponse;
    get_on_chain_signer SignerRequest OnChainEvent;
    get_on_chain_signers_by_fid FidRequest OnChainEventResponse;
    get_signer SignerRequest SignerResponse;
    get_signers_by_fid SignersByFidRequest SignersByFidResponse;
    get_on_chain_events OnChainEventRequest OnChainEventResponse;
    get_channel_owner ChannelOwnerRequest ChannelOwnerResponse;
    get_channels_by_address ChannelsByAddressRequest ChannelsResponse;
    get_channels_by_fid ChannelsByFidRequest ChannelsResponse;
    get_channel_member ChannelMemberRequest ChannelMemberResponse;
    get_channel_members ChannelMembersRequest ChannelMembersResponse;
    get_channel_pin ChannelRequest ChannelPinResponse;
    get_channel_moderations ChannelModerationsRequest ChannelModerationsResponse;
    get_channel_metadata ChannelRequest ChannelMetadataResponse;
    get_channel_memberships_by_fid ChannelMembershipsByFidRequest ChannelMembershipsResponse;
    get_channel_followers ChannelFollowersRequest ChannelFollowersResponse;
    get_channel_follower_count ChannelFollowerCountRequest ChannelFollowerCountResponse;
    get_channel_follows ChannelFollowsRequest ChannelFollowsResponse;
    is_following_channel IsFollowingChannelRequest IsFollowingChannelResponse;
    get_id_registry_on_chain_event FidRequest OnChainEvent;
    get_id_registry_on_chain_event_by_address IdRegistryEventByAddressRequest OnChainEvent;
    get_current_storage_limits_by_fid FidRequest StorageLimitsResponse;
    get_fid_address_type FidAddressTypeRequest FidAddressTypeResponse;
    get_link LinkRequest Message;
    get_links_by_fid LinksByFidRequest MessagesResponse;
    get_links_by_target LinksByTargetRequest MessagesResponse;
    get_link_compact_state_message_by_fid FidRequest MessagesResponse;
    get_all_cast_messages_by_fid FidTimestampRequest MessagesResponse;
    get_all_reaction_messages_by_fid FidTimestampRequest MessagesResponse;
    get_all_verification_messages_by_fid FidTimestampRequest MessagesResponse;
    get_all_user_data_messages_by_fid FidTimestampRequest MessagesResponse;
    get_all_link_messages_by_fid FidTimestampRequest MessagesResponse;
    get_all_lend_storage_messages_by_fid FidTimestampRequest MessagesResponse;
    get_trie_metadata_by_prefix TrieNodeMetadataRequest TrieNodeMetadataResponse;
}
}

struct Page { q: Vec<String>, size: Option<u32>, token: Option<Vec<u8>>, rev: Option<bool> }
fn enc(t: &[u8], plain: bool) -> String {
    let s = BASE64_STANDARD.encode(t);
    if plain { s } else { s.replace('+', "%2B").replace('/', "%2F").replace('=', "%3D") }
}
fn page(c: &mut Ctx, with_rev: bool) -> Page {
    let mut p = Page { q: vec![], size: None, token: None, rev: None };
    if c.p(1, 2) { let n = c.u32(); p.size = Some(n); p.q.push(format!("{}={}", c.pick(&["page_size", "pageSize"]), n)); }
    if c.p(1, 2) {
        let k = c.int_in(1, 40) as usize; let t = c.bytes(k);
        let e = enc(&t, c.p(1, 3));
        p.q.push(format!("{}={}", c.pick(&["page_token", "pageToken"]), e)); p.token = Some(t);
    } else if c.p(1, 4) { p.q.push("pageToken=".to_string()); }
    if with_rev && c.p(1, 2) { let b = c.p(1, 2); p.rev = Some(b); p.q.push(format!("reverse={}", b)); }
    p
}
fn query(c: &mut Ctx, mut parts: Vec<String>) -> String {
    for i in (1..parts.len()).rev() { let j = c.below(i as u64 + 1) as usize; parts.swap(i, j); }
    parts.join("&")
}
// lower or upper case, with or without the mark
fn hexed(c: &mut Ctx, b: &[u8]) -> String {
    let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    let h = if c.p(1, 4) { h.to_uppercase() } else { h };
    if h.is_empty() { return "0x".to_string(); }
    if c.p(2, 3) { format!("0x{}", h) } else { h }
}
fn bad_hex(c: &mut Ctx) -> String { c.pick(&["0x1", "abc", "zz", "0x12g4", "12 4", "0x12345"]).to_string() }
fn some_hash(c: &mut Ctx) -> Vec<u8> { let n = c.pick(&[20usize, 20, 20, 32, 1, 0]); c.bytes(n) }
fn word(c: &mut Ctx) -> String { let n = c.int_in(1, 12) as usize; c.alpha("abcdefghijklmnopqrstuvwxyz0123456789-.", n) }
fn link(c: &mut Ctx) -> (String, String) { let w = word(c); let s = c.pick(&["https://example.org/", "chain://eip155:1/erc721:0x"]); (format!("{}{}", s, w), format!("{}{}", s, w).replace(':', "%3A").replace('/', "%2F")) }


pub fn run(c: &mut Ctx) {
    let node = Arc::new(Node::new());
    let svc = HubHttpServiceImpl { service: node.clone() };
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    macro_rules! go { ($c:expr, $f:ident, $t:ty, $q:expr, $rpc:expr, $want:expr) => {{
        let q: String = $q;
        let want: Option<String> = $want;
        let (s, n) = (&svc, &node); let rt = &rt;
        $c.case(stringify!($f), q.clone(), || {
            let req: Result<$t, _> = serde_qs::from_str(&q);
            let res = match req { Ok(r) => Some(rt.block_on(s.$f(r)).map(|_| ())), Err(_) => None };
            let asked = n.asked();
            match &want {
                Some(w) => same("RPC asked for", asked, vec![($rpc.to_string(), w.clone())]),
                None => { same("RPC asked for a malformed request", asked, vec![])?; holds("a malformed request is refused", !matches!(res, Some(Ok(_)))) }
            }
        });
    }} }
    for _ in 0..c.rounds(700) {
        { // get_fids
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "shard_id";
            let f0 = c.u32(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::FidsRequest { shard_id: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_fids, crate::network::http_server::GetFidsRequest, q, "get_fids", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_casts_by_mention
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::FidRequest { fid: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_casts_by_mention, crate::network::http_server::FidRequest, q, "get_casts_by_mention", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_user_data_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::FidRequest { fid: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_user_data_by_fid, crate::network::http_server::FidRequest, q, "get_user_data_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_storage_limits_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::FidRequest { fid: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_storage_limits_by_fid, crate::network::http_server::FidRequest, q, "get_current_storage_limits_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_user_name_proofs_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::FidRequest { fid: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_user_name_proofs_by_fid, crate::network::http_server::FidRequest, q, "get_user_name_proofs_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_verifications_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::FidRequest { fid: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_verifications_by_fid, crate::network::http_server::FidRequest, q, "get_verifications_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_on_chain_signers_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::FidRequest { fid: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_on_chain_signers_by_fid, crate::network::http_server::FidRequest, q, "get_on_chain_signers_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_casts_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let k = c.pick(&["start_timestamp", "startTimestamp"]);
            let f1 = if c.p(2, 3) { Some(c.int()) } else { None }; if let Some(x) = f1 { q.push(format!("{}={}", k, x)); }
            let k = c.pick(&["stop_timestamp", "stopTimestamp"]);
            let f2 = if c.p(2, 3) { Some(c.int()) } else { None }; if let Some(x) = f2 { q.push(format!("{}={}", k, x)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::FidTimestampRequest { fid: f0, start_timestamp: f1, stop_timestamp: f2, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_casts_by_fid, crate::network::http_server::FidTimestampRequest, q, "get_all_cast_messages_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_reactions_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let k = "reaction_type";
            let f1 = c.pick(&[("Like", 1), ("Recast", 2)]); q.push(format!("{}={}", k, f1.0));
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::ReactionsByFidRequest { fid: f0, reaction_type: Some(f1.1), page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_reactions_by_fid, crate::network::http_server::ReactionsByFidRequest, q, "get_reactions_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_links_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let k = "link_type";
            let f1 = if c.p(2, 3) { Some(word(c)) } else { None }; if let Some(x) = &f1 { q.push(format!("{}={}", k, x)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::LinksByFidRequest { fid: f0, link_type: f1, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_links_by_fid, crate::network::http_server::LinksByFidRequest, q, "get_links_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_signer
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let k = "signer";
            let f1 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f1))); }
            let want = proto::SignerRequest { fid: f0, signer: f1 };
            let q = query(c, q);
            go!(c, get_signer, crate::network::http_server::SignerHttpRequest, q, "get_signer", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_signers_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let k = c.pick(&["requester_fids", "requesterFids"]);
            let f1: Vec<u64> = (0..c.below(4)).map(|_| c.int()).collect(); for (i, x) in f1.iter().enumerate() { q.push(format!("{}[{}]={}", k, i, x)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::SignersByFidRequest { fid: f0, requester_fids: f1, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_signers_by_fid, crate::network::http_server::SignersByFidHttpRequest, q, "get_signers_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_on_chain_events_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let k = "event_type";
            let f1 = c.pick(&[("EVENT_TYPE_SIGNER", 1), ("EVENT_TYPE_SIGNER_MIGRATED", 2), ("EVENT_TYPE_ID_REGISTER", 3), ("EVENT_TYPE_STORAGE_RENT", 4), ("EVENT_TYPE_TIER_PURCHASE", 5), ("EVENT_TYPE_CHANNEL_REGISTER", 6)]); q.push(format!("{}={}", k, f1.0));
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::OnChainEventRequest { fid: f0, event_type: f1.1, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_on_chain_events_by_fid, crate::network::http_server::OnChainEventRequest, q, "get_on_chain_events", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channel_owner
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "channel_key";
            let f0 = word(c); q.push(format!("{}={}", k, f0));
            let want = proto::ChannelOwnerRequest { channel_key: f0 };
            let q = query(c, q);
            go!(c, get_channel_owner, crate::network::http_server::ChannelOwnerRequest, q, "get_channel_owner", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channels_by_address
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "address";
            let f0 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f0))); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::ChannelsByAddressRequest { owner_address: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_channels_by_address, crate::network::http_server::ChannelsByAddressRequest, q, "get_channels_by_address", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channels_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let p = page(c, false); q.extend(p.q.clone());
            let want = proto::ChannelsByFidRequest { fid: f0, page_size: p.size, page_token: p.token };
            let q = query(c, q);
            go!(c, get_channels_by_fid, crate::network::http_server::ChannelsByFidRequest, q, "get_channels_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channel_member
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "channelId";
            let f0 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f0))); }
            let k = "fid";
            let f1 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f1)); }
            let want = proto::ChannelMemberRequest { channel_id: f0, fid: f1 };
            let q = query(c, q);
            go!(c, get_channel_member, crate::network::http_server::ChannelMemberRequest, q, "get_channel_member", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channel_members
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "channelId";
            let f0 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f0))); }
            let k = c.pick(&["stateFilter", "state_filter"]);
            let f1 = c.pick(&[None, None, Some(("MEMBER", 1)), Some(("MODERATOR", 2)), Some(("REMOVED", 3)), Some(("BANNED", 4))]); if let Some(x) = f1 { q.push(format!("{}=CHANNEL_MEMBER_STATE_{}", k, x.0)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::ChannelMembersRequest { channel_id: f0, state_filter: f1.map(|x| x.1), page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_channel_members, crate::network::http_server::ChannelMembersRequest, q, "get_channel_members", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channel_pin
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "channelId";
            let f0 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f0))); }
            let want = proto::ChannelRequest { channel_id: f0 };
            let q = query(c, q);
            go!(c, get_channel_pin, crate::network::http_server::ChannelIdRequest, q, "get_channel_pin", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channel_metadata
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "channelId";
            let f0 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f0))); }
            let want = proto::ChannelRequest { channel_id: f0 };
            let q = query(c, q);
            go!(c, get_channel_metadata, crate::network::http_server::ChannelIdRequest, q, "get_channel_metadata", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channel_moderations
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "channelId";
            let f0 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f0))); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::ChannelModerationsRequest { channel_id: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_channel_moderations, crate::network::http_server::ChannelModerationsRequest, q, "get_channel_moderations", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channel_memberships_by_fid
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::ChannelMembershipsByFidRequest { fid: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_channel_memberships_by_fid, crate::network::http_server::ChannelMembershipsByFidRequest, q, "get_channel_memberships_by_fid", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channel_followers
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "channelId";
            let f0 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f0))); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::ChannelFollowersRequest { channel_id: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_channel_followers, crate::network::http_server::ChannelFollowersRequest, q, "get_channel_followers", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channel_follower_count
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "channelId";
            let f0 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f0))); }
            let want = proto::ChannelFollowerCountRequest { channel_id: f0 };
            let q = query(c, q);
            go!(c, get_channel_follower_count, crate::network::http_server::ChannelFollowerCountRequest, q, "get_channel_follower_count", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_channel_follows
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::ChannelFollowsRequest { fid: f0, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_channel_follows, crate::network::http_server::ChannelFollowsRequest, q, "get_channel_follows", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // is_following_channel
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let k = "channelId";
            let f1 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f1))); }
            let want = proto::IsFollowingChannelRequest { fid: f0, channel_id: f1 };
            let q = query(c, q);
            go!(c, is_following_channel, crate::network::http_server::IsFollowingChannelRequest, q, "is_following_channel", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_events
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "from_event_id";
            let f0 = if c.p(2, 3) { Some(c.int()) } else { None }; if let Some(x) = f0 { q.push(format!("{}={}", k, x)); }
            let k = "shard_index";
            let f1 = if c.p(2, 3) { Some(c.u32()) } else { None }; if let Some(x) = f1 { q.push(format!("{}={}", k, x)); }
            let k = "stop_id";
            let f2 = if c.p(2, 3) { Some(c.int()) } else { None }; if let Some(x) = f2 { q.push(format!("{}={}", k, x)); }
            let p = page(c, true); q.extend(p.q.clone());
            let want = proto::EventsRequest { start_id: f0.unwrap_or(0), shard_index: f1, stop_id: f2, page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_events, crate::network::http_server::EventsRequest, q, "get_events", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_event_by_id
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "event_id";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let k = "shard_index";
            let f1 = c.u32(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f1)); }
            let want = proto::EventRequest { id: f0, shard_index: f1 };
            let q = query(c, q);
            go!(c, get_event_by_id, crate::network::http_server::EventRequest, q, "get_event", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_id_registry_on_chain_event_by_address
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "address";
            let f0 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f0))); }
            let want = proto::IdRegistryEventByAddressRequest { address: f0 };
            let q = query(c, q);
            go!(c, get_id_registry_on_chain_event_by_address, crate::network::http_server::IdRegistryEventByAddressRequest, q, "get_id_registry_on_chain_event_by_address", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_fid_address_type
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "fid";
            let f0 = c.int(); if c.p(1, 60) { bad = true; q.push(format!("{}={}", k, c.pick(&["x", "-1", "1.5", "0x10", "99999999999999999999999"]))); } else { q.push(format!("{}={}", k, f0)); }
            let k = "address";
            let f1 = some_hash(c); if c.p(1, 40) { bad = true; q.push(format!("{}={}", k, bad_hex(c).replace(" ", "%20"))); } else { q.push(format!("{}={}", k, hexed(c, &f1))); }
            let want = proto::FidAddressTypeRequest { fid: f0, address: f1 };
            let q = query(c, q);
            go!(c, get_fid_address_type, crate::network::http_server::FidAddressTypeRequest, q, "get_fid_address_type", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // get_user_name_proof_by_name
            let mut q: Vec<String> = vec![]; let mut bad = false;
            let k = "name";
            let f0 = word(c); q.push(format!("{}={}", k, f0));
            let want = proto::UsernameProofRequest { name: f0.into_bytes() };
            let q = query(c, q);
            go!(c, get_user_name_proof_by_name, crate::network::http_server::UsernameProofRequest, q, "get_username_proof", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // a cast by author and hash
            let fid = c.int(); let h = some_hash(c);
            let (a, bad1) = if c.p(1, 30) { (c.pick(&["", "abc", "-5", "0x1", "1e3"]).to_string(), true) } else { (fid.to_string(), false) };
            let (b, bad2) = if c.p(1, 30) { (bad_hex(c).replace(" ", "%20"), true) } else { (hexed(c, &h), false) };
            let q = query(c, vec![format!("fid={}", a), format!("hash={}", b)]);
            let want = proto::CastId { fid, hash: h };
            go!(c, get_cast_by_id, IdRequest, q, "get_cast", if bad1 || bad2 { None } else { Some(format!("{:?}", want)) });
        }
        { // casts below a cast or a URL
            let p = page(c, true); let mut q = p.q.clone();
            let (fid, h, (u, ue)) = (c.int(), some_hash(c), link(c));
            let (wf, wh, wu) = (c.p(2, 3), c.p(2, 3), c.p(1, 2));
            if wf { q.push(format!("fid={}", fid)); }
            let bad = wh && c.p(1, 20);
            if wh { let t = if bad { bad_hex(c).replace(" ", "%20") } else { hexed(c, &h) }; q.push(format!("hash={}", t)); }
            if wu { q.push(format!("url={}", ue)); }
            let parent = if wf && wh { if bad { None } else { Some(casts_by_parent_request::Parent::ParentCastId(proto::CastId { fid, hash: h })) } } else if wu { Some(casts_by_parent_request::Parent::ParentUrl(u)) } else { None };
            let want = parent.map(|x| format!("{:?}", proto::CastsByParentRequest { parent: Some(x), page_size: p.size, page_token: p.token, reverse: p.rev }));
            let q = query(c, q);
            go!(c, get_casts_by_parent, crate::network::http_server::CastsByParentRequest, q, "get_casts_by_parent", want);
        }
        { // one reaction
            let (fid, tf, h, (u, ue)) = (c.int(), c.int(), some_hash(c), link(c));
            let rt = c.pick(&[("Like", 1), ("Recast", 2)]);
            let mut q = vec![format!("fid={}", fid), format!("reaction_type={}", rt.0)];
            let (wf, wu) = (c.p(1, 2), c.p(1, 2)); let bad = wf && c.p(1, 20);
            if wf { q.push(format!("target_fid={}", tf)); let t = if bad { bad_hex(c).replace(" ", "%20") } else { hexed(c, &h) }; q.push(format!("target_hash={}", t)); }
            if wu { q.push(format!("target_url={}", ue)); }
            let target = if wf { if bad { None } else { Some(reaction_request::Target::TargetCastId(proto::CastId { fid: tf, hash: h })) } } else if wu { Some(reaction_request::Target::TargetUrl(u)) } else { None };
            let want = target.map(|x| format!("{:?}", proto::ReactionRequest { fid, reaction_type: rt.1, target: Some(x) }));
            let q = query(c, q);
            go!(c, get_reaction_by_id, crate::network::http_server::ReactionRequest, q, "get_reaction", want);
        }
        { // reactions to a cast
            let p = page(c, true); let mut q = p.q.clone();
            let (tf, h) = (c.int(), some_hash(c)); let bad = c.p(1, 20);
            let t = if bad { bad_hex(c).replace(" ", "%20") } else { hexed(c, &h) };
            q.push(format!("target_fid={}", tf)); q.push(format!("target_hash={}", t));
            let rt = c.pick(&[None, Some(("Like", 1)), Some(("Recast", 2))]);
            if let Some(x) = rt { q.push(format!("reaction_type={}", x.0)); }
            let want = proto::ReactionsByTargetRequest { target: Some(reactions_by_target_request::Target::TargetCastId(proto::CastId { fid: tf, hash: h })), reaction_type: rt.map(|x| x.1), page_size: p.size, page_token: p.token, reverse: p.rev };
            let q = query(c, q);
            go!(c, get_reactions_by_cast, ReactionsByCastRequest, q, "get_reactions_by_target", if bad { None } else { Some(format!("{:?}", want)) });
        }
        { // reactions to a cast or a URL
            let p = page(c, true); let mut q = p.q.clone();
            let (tf, h, (u, ue)) = (c.int(), some_hash(c), link(c));
            let (wf, wu) = (c.p(1, 2), c.p(1, 2)); let bad = wf && c.p(1, 20);
            let t = if bad { bad_hex(c).replace(" ", "%20") } else { hexed(c, &h) };
            let rt = c.pick(&[None, Some(("Like", 1)), Some(("Recast", 2))]);
            if let Some(x) = rt { q.push(format!("reaction_type={}", x.0)); }
            if wu { q.push(format!("url={}", ue)); }
            let mut q = vec![query(c, q)]; q.retain(|x| !x.is_empty());
            if wf { q.push(format!("target_cast_id[fid]={}&target_cast_id[hash]={}", tf, t)); }
            let target = if wf { if bad { None } else { Some(reactions_by_target_request::Target::TargetCastId(proto::CastId { fid: tf, hash: h })) } } else if wu { Some(reactions_by_target_request::Target::TargetUrl(u)) } else { None };
            let want = target.map(|x| format!("{:?}", proto::ReactionsByTargetRequest { target: Some(x), reaction_type: rt.map(|x| x.1), page_size: p.size, page_token: p.token, reverse: p.rev }));
            go!(c, get_reactions_by_target, crate::network::http_server::ReactionsByTargetRequest, q.join("&"), "get_reactions_by_target", want);
        }
        { // one link
            let (fid, w) = (c.int(), word(c)); let tf = if c.p(4, 5) { Some(c.int()) } else { None };
            let mut q = vec![format!("fid={}", fid), format!("link_type={}", w)];
            if let Some(t) = tf { q.push(format!("target_fid={}", t)); }
            let want = tf.map(|t| format!("{:?}", proto::LinkRequest { fid, link_type: w, target: Some(link_request::Target::TargetFid(t)) }));
            let q = query(c, q);
            go!(c, get_link_by_id, crate::network::http_server::LinkRequest, q, "get_link", want);
        }
        { // links to a user
            let p = page(c, true); let mut q = p.q.clone();
            let tf = if c.p(4, 5) { Some(c.int()) } else { None }; let lt = if c.p(2, 3) { Some(word(c)) } else { None };
            if let Some(t) = tf { q.push(format!("target_fid={}", t)); }
            if let Some(t) = &lt { q.push(format!("link_type={}", t)); }
            let want = tf.map(|t| format!("{:?}", proto::LinksByTargetRequest { target: Some(links_by_target_request::Target::TargetFid(t)), link_type: lt, page_size: p.size, page_token: p.token, reverse: p.rev }));
            let q = query(c, q);
            go!(c, get_links_by_target_fid, crate::network::http_server::LinksByTargetRequest, q, "get_links_by_target", want);
        }
        { go!(c, get_info, InfoRequest, String::new(), "get_info", Some(format!("{:?}", proto::GetInfoRequest {}))); }
        { go!(c, get_connected_peers, proto::GetConnectedPeersRequest, String::new(), "get_connected_peers", Some(format!("{:?}", proto::GetConnectedPeersRequest {}))); }
        { // submitted messages go through as they are, with the caller's credentials
            let n = c.int_in(0, 60) as usize;
            let m = proto::Message { hash: c.bytes(20), signer: c.bytes(32), signature: c.bytes(64), data_bytes: if c.p(1, 2) { Some(c.bytes(n)) } else { None }, hash_scheme: c.i32(), signature_scheme: c.i32(), data: if c.p(1, 2) { Some(proto::MessageData { fid: c.int(), timestamp: c.u32(), ..Default::default() }) } else { None } };
            let k = c.below(3);
            let mut headers = hyper::HeaderMap::new();
            let auth = if c.p(1, 2) { let w = word(c); Some(format!("Basic {}", w)) } else { None };
            if let Some(a) = &auth { headers.insert("authorization", a.parse().unwrap()); }
            let bulk = proto::SubmitBulkMessagesRequest { messages: (0..c.below(4)).map(|i| { let mut x = m.clone(); x.hash.push(i as u8); x }).collect() };
            let (rpc, want) = match k { 0 => ("submit_message", format!("{:?}", m)), 1 => ("submit_bulk_messages", format!("{:?}", bulk)), _ => ("validate_message", format!("{:?}", m)) };
            let want = if k < 2 { if let Some(a) = &auth { format!("{} as {:?}", want, a) } else { want } } else { want };
            let (s, n) = (&svc, &node); let rt = &rt;
            c.case(rpc, format!("{} headers {:?}", want, headers), || {
                match k { 0 => { let _ = rt.block_on(s.submit_message(m, headers)); } 1 => { let _ = rt.block_on(s.submit_bulk_messages(bulk, headers)); } _ => { let _ = rt.block_on(s.validate_message(m)); } }
                same("RPC asked for", n.asked(), vec![(rpc.to_string(), want)])
            });
        }
    }
}
