// The REST gateway forwards each request to the RPC of the same meaning, and to no other, and answers from its response.
//@include prelude.vrs
global size_of usize == 8;
//@include strings.vrs
//@include maps.vrs

//@proto CastId CastsByParentRequest ChannelFollowerCountRequest ChannelFollowerCountResponse ChannelFollowersRequest ChannelFollowersResponse ChannelFollowsRequest ChannelFollowsResponse ChannelMemberRequest ChannelMemberResponse ChannelMembersRequest ChannelMembersResponse ChannelMembershipsByFidRequest ChannelMembershipsResponse ChannelMetadataResponse ChannelModerationsRequest ChannelModerationsResponse ChannelOwnerRequest ChannelOwnerResponse ChannelPinResponse ChannelRequest ChannelsByAddressRequest ChannelsByFidRequest ChannelsResponse EventRequest EventsRequest EventsResponse FidAddressTypeRequest FidAddressTypeResponse FidRequest FidTimestampRequest FidsRequest FidsResponse GetConnectedPeersRequest GetConnectedPeersResponse GetInfoRequest GetInfoResponse HubEvent IdRegistryEventByAddressRequest IsFollowingChannelRequest IsFollowingChannelResponse LinkRequest LinksByFidRequest LinksByTargetRequest Message MessagesResponse OnChainEvent OnChainEventRequest OnChainEventResponse ReactionRequest ReactionsByFidRequest ReactionsByTargetRequest SignerRequest SignerResponse SignersByFidRequest SignersByFidResponse StorageLimitsResponse SubmitBulkMessagesRequest SubmitBulkMessagesResponse UserNameProof UsernameProofRequest UsernameProofsResponse ValidationResponse
use proto::{ReactionType, casts_by_parent_request, reaction_request, reactions_by_target_request, link_request, links_by_target_request};
pub struct StatusCode { pub n: u16 }
//@item src/network/http_server.rs::CastId
//@item src/network/http_server.rs::CastsByParentRequest
//@item src/network/http_server.rs::ChannelFollowerCountRequest
//@item src/network/http_server.rs::ChannelFollowersRequest
//@item src/network/http_server.rs::ChannelFollowsRequest
//@item src/network/http_server.rs::ChannelIdRequest
//@item src/network/http_server.rs::ChannelMemberRequest
//@item src/network/http_server.rs::ChannelMemberState
//@item src/network/http_server.rs::ChannelMembersRequest
//@item src/network/http_server.rs::ChannelMembershipsByFidRequest
//@item src/network/http_server.rs::ChannelModerationsRequest
//@item src/network/http_server.rs::ChannelOwnerRequest
//@item src/network/http_server.rs::ChannelsByAddressRequest
//@item src/network/http_server.rs::ChannelsByFidRequest
//@item src/network/http_server.rs::ErrorResponse
//@item src/network/http_server.rs::EventRequest
//@item src/network/http_server.rs::EventsRequest
//@item src/network/http_server.rs::FidAddressTypeRequest
//@item src/network/http_server.rs::FidRequest
//@item src/network/http_server.rs::FidTimestampRequest
//@item src/network/http_server.rs::GetFidsRequest
//@item src/network/http_server.rs::IdRegistryEventByAddressRequest
//@item src/network/http_server.rs::IdRequest
//@item src/network/http_server.rs::InfoRequest
//@item src/network/http_server.rs::IsFollowingChannelRequest
//@item src/network/http_server.rs::LinkRequest
//@item src/network/http_server.rs::LinksByFidRequest
//@item src/network/http_server.rs::LinksByTargetRequest
//@item src/network/http_server.rs::OnChainEventRequest
//@item src/network/http_server.rs::OnChainEventType
//@item src/network/http_server.rs::ReactionRequest
//@item src/network/http_server.rs::ReactionsByCastRequest
//@item src/network/http_server.rs::ReactionsByFidRequest
//@item src/network/http_server.rs::ReactionsByTargetRequest
//@item src/network/http_server.rs::SignerHttpRequest
//@item src/network/http_server.rs::SignersByFidHttpRequest
//@item src/network/http_server.rs::UsernameProofRequest

pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: core::marker::Destruct ensures r == or_(a, b);
pub open spec fn or_<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
pub open spec fn opt_num<E>(a: Option<E>, f: spec_fn(E) -> i32) -> Option<i32> { match a { Some(x) => Some(f(x)), None => None } }

pub open spec fn rpc_GetFidsRequest(q: GetFidsRequest) -> proto::FidsRequest { proto::FidsRequest { shard_id: q.shard_id, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse } }
impl GetFidsRequest {
//@fn src/network/http_server.rs::GetFidsRequest::to_proto -> r
    ensures r == rpc_GetFidsRequest(self)
//@endfn
}
pub open spec fn rpc_FidRequest(q: FidRequest) -> proto::FidRequest { proto::FidRequest { fid: q.fid, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse } }
impl FidRequest {
//@fn src/network/http_server.rs::FidRequest::to_proto -> r
    ensures r == rpc_FidRequest(self)
//@endfn
}
pub open spec fn rpc_FidTimestampRequest(q: FidTimestampRequest) -> proto::FidTimestampRequest { proto::FidTimestampRequest { fid: q.fid, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse, start_timestamp: or_(q.start_timestamp, q.startTimestamp), stop_timestamp: or_(q.stop_timestamp, q.stopTimestamp) } }
impl FidTimestampRequest {
//@fn src/network/http_server.rs::FidTimestampRequest::to_proto -> r
    ensures r == rpc_FidTimestampRequest(self)
//@endfn
}
pub open spec fn rpc_ReactionsByFidRequest(q: ReactionsByFidRequest) -> proto::ReactionsByFidRequest { proto::ReactionsByFidRequest { fid: q.fid, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse, reaction_type: Some(q.reaction_type as i32) } }
impl ReactionsByFidRequest {
//@fn src/network/http_server.rs::ReactionsByFidRequest::to_proto -> r
    ensures r == rpc_ReactionsByFidRequest(self)
//@endfn
}
pub open spec fn rpc_LinksByFidRequest(q: LinksByFidRequest) -> proto::LinksByFidRequest { proto::LinksByFidRequest { fid: q.fid, link_type: q.link_type, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse } }
impl LinksByFidRequest {
//@fn src/network/http_server.rs::LinksByFidRequest::to_proto -> r
    ensures r == rpc_LinksByFidRequest(self)
//@endfn
}
pub open spec fn rpc_SignersByFidHttpRequest(q: SignersByFidHttpRequest) -> proto::SignersByFidRequest { proto::SignersByFidRequest { fid: q.fid, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse, requester_fids: if q.requester_fids@.len() == 0 { q.requesterFids } else { q.requester_fids } } }
impl SignersByFidHttpRequest {
//@fn src/network/http_server.rs::SignersByFidHttpRequest::to_proto -> r
    ensures r == rpc_SignersByFidHttpRequest(self)
//@endfn
}
pub open spec fn rpc_SignerHttpRequest(q: SignerHttpRequest) -> proto::SignerRequest { proto::SignerRequest { fid: q.fid, signer: q.signer } }
impl SignerHttpRequest {
//@fn src/network/http_server.rs::SignerHttpRequest::to_proto -> r
    ensures r == rpc_SignerHttpRequest(self)
//@endfn
}
pub open spec fn rpc_FidAddressTypeRequest(q: FidAddressTypeRequest) -> proto::FidAddressTypeRequest { proto::FidAddressTypeRequest { fid: q.fid, address: q.address } }
impl FidAddressTypeRequest {
//@fn src/network/http_server.rs::FidAddressTypeRequest::to_proto -> r
    ensures r == rpc_FidAddressTypeRequest(self)
//@endfn
}
pub open spec fn rpc_OnChainEventRequest(q: OnChainEventRequest) -> proto::OnChainEventRequest { proto::OnChainEventRequest { fid: q.fid, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse, event_type: q.event_type as i32 } }
impl OnChainEventRequest {
//@fn src/network/http_server.rs::OnChainEventRequest::to_proto -> r
    ensures r == rpc_OnChainEventRequest(self)
//@endfn
}
pub open spec fn rpc_ChannelOwnerRequest(q: ChannelOwnerRequest) -> proto::ChannelOwnerRequest { proto::ChannelOwnerRequest { channel_key: q.channel_key } }
impl ChannelOwnerRequest {
//@fn src/network/http_server.rs::ChannelOwnerRequest::to_proto -> r
    ensures r == rpc_ChannelOwnerRequest(self)
//@endfn
}
pub open spec fn rpc_ChannelsByAddressRequest(q: ChannelsByAddressRequest) -> proto::ChannelsByAddressRequest { proto::ChannelsByAddressRequest { owner_address: q.owner_address, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse } }
impl ChannelsByAddressRequest {
//@fn src/network/http_server.rs::ChannelsByAddressRequest::to_proto -> r
    ensures r == rpc_ChannelsByAddressRequest(self)
//@endfn
}
pub open spec fn rpc_ChannelsByFidRequest(q: ChannelsByFidRequest) -> proto::ChannelsByFidRequest { proto::ChannelsByFidRequest { fid: q.fid, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken) } }
impl ChannelsByFidRequest {
//@fn src/network/http_server.rs::ChannelsByFidRequest::to_proto -> r
    ensures r == rpc_ChannelsByFidRequest(self)
//@endfn
}
pub open spec fn rpc_ChannelIdRequest(q: ChannelIdRequest) -> proto::ChannelRequest { proto::ChannelRequest { channel_id: q.channel_id } }
impl ChannelIdRequest {
//@fn src/network/http_server.rs::ChannelIdRequest::to_proto -> r
    ensures r == rpc_ChannelIdRequest(self)
//@endfn
}
pub open spec fn rpc_ChannelMemberRequest(q: ChannelMemberRequest) -> proto::ChannelMemberRequest { proto::ChannelMemberRequest { channel_id: q.channel_id, fid: q.fid } }
impl ChannelMemberRequest {
//@fn src/network/http_server.rs::ChannelMemberRequest::to_proto -> r
    ensures r == rpc_ChannelMemberRequest(self)
//@endfn
}
pub open spec fn rpc_ChannelMembersRequest(q: ChannelMembersRequest) -> proto::ChannelMembersRequest { proto::ChannelMembersRequest { channel_id: q.channel_id, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse, state_filter: opt_num(q.state_filter, |s: ChannelMemberState| s as i32) } }
impl ChannelMembersRequest {
//@fn src/network/http_server.rs::ChannelMembersRequest::to_proto -> r
    ensures r == rpc_ChannelMembersRequest(self)
//@closure 0 |vx_p: ChannelMemberState| -> (k: i32) ensures k == vx_p as i32
//@endfn
}
pub open spec fn rpc_ChannelFollowersRequest(q: ChannelFollowersRequest) -> proto::ChannelFollowersRequest { proto::ChannelFollowersRequest { channel_id: q.channel_id, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse } }
impl ChannelFollowersRequest {
//@fn src/network/http_server.rs::ChannelFollowersRequest::to_proto -> r
    ensures r == rpc_ChannelFollowersRequest(self)
//@endfn
}
pub open spec fn rpc_ChannelFollowerCountRequest(q: ChannelFollowerCountRequest) -> proto::ChannelFollowerCountRequest { proto::ChannelFollowerCountRequest { channel_id: q.channel_id } }
impl ChannelFollowerCountRequest {
//@fn src/network/http_server.rs::ChannelFollowerCountRequest::to_proto -> r
    ensures r == rpc_ChannelFollowerCountRequest(self)
//@endfn
}
pub open spec fn rpc_ChannelFollowsRequest(q: ChannelFollowsRequest) -> proto::ChannelFollowsRequest { proto::ChannelFollowsRequest { fid: q.fid, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse } }
impl ChannelFollowsRequest {
//@fn src/network/http_server.rs::ChannelFollowsRequest::to_proto -> r
    ensures r == rpc_ChannelFollowsRequest(self)
//@endfn
}
pub open spec fn rpc_IsFollowingChannelRequest(q: IsFollowingChannelRequest) -> proto::IsFollowingChannelRequest { proto::IsFollowingChannelRequest { fid: q.fid, channel_id: q.channel_id } }
impl IsFollowingChannelRequest {
//@fn src/network/http_server.rs::IsFollowingChannelRequest::to_proto -> r
    ensures r == rpc_IsFollowingChannelRequest(self)
//@endfn
}
pub open spec fn rpc_ChannelModerationsRequest(q: ChannelModerationsRequest) -> proto::ChannelModerationsRequest { proto::ChannelModerationsRequest { channel_id: q.channel_id, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse } }
impl ChannelModerationsRequest {
//@fn src/network/http_server.rs::ChannelModerationsRequest::to_proto -> r
    ensures r == rpc_ChannelModerationsRequest(self)
//@endfn
}
pub open spec fn rpc_ChannelMembershipsByFidRequest(q: ChannelMembershipsByFidRequest) -> proto::ChannelMembershipsByFidRequest { proto::ChannelMembershipsByFidRequest { fid: q.fid, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse } }
impl ChannelMembershipsByFidRequest {
//@fn src/network/http_server.rs::ChannelMembershipsByFidRequest::to_proto -> r
    ensures r == rpc_ChannelMembershipsByFidRequest(self)
//@endfn
}
pub open spec fn rpc_EventsRequest(q: EventsRequest) -> proto::EventsRequest { proto::EventsRequest { start_id: q.start_id, shard_index: q.shard_index, stop_id: q.stop_id, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse } }
impl EventsRequest {
//@fn src/network/http_server.rs::EventsRequest::to_proto -> r
    ensures r == rpc_EventsRequest(self)
//@endfn
}
pub open spec fn rpc_EventRequest(q: EventRequest) -> proto::EventRequest { proto::EventRequest { shard_index: q.shard_index, id: q.event_id } }
impl EventRequest {
//@fn src/network/http_server.rs::EventRequest::to_proto -> r
    ensures r == rpc_EventRequest(self)
//@endfn
}
pub open spec fn rpc_IdRegistryEventByAddressRequest(q: IdRegistryEventByAddressRequest) -> proto::IdRegistryEventByAddressRequest { proto::IdRegistryEventByAddressRequest { address: q.address } }
impl IdRegistryEventByAddressRequest {
//@fn src/network/http_server.rs::IdRegistryEventByAddressRequest::to_proto -> r
    ensures r == rpc_IdRegistryEventByAddressRequest(self)
//@endfn
}
pub open spec fn rpc_CastsByParentRequest(q: CastsByParentRequest, target: Option<casts_by_parent_request::Parent>) -> proto::CastsByParentRequest { proto::CastsByParentRequest { page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse, parent: target } }
impl CastsByParentRequest {
//@fn src/network/http_server.rs::CastsByParentRequest::to_proto -> r
    ensures r == rpc_CastsByParentRequest(self, parent)
//@endfn
}
pub open spec fn rpc_ReactionsByCastRequest(q: ReactionsByCastRequest, target: reactions_by_target_request::Target) -> proto::ReactionsByTargetRequest { proto::ReactionsByTargetRequest { page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse, reaction_type: opt_num(q.reaction_type, |s: ReactionType| s as i32), target: Some(target) } }
impl ReactionsByCastRequest {
//@fn src/network/http_server.rs::ReactionsByCastRequest::to_proto -> r
    ensures r == rpc_ReactionsByCastRequest(self, target)
//@closure 0 |vx_p: ReactionType| -> (k: i32) ensures k == vx_p as i32
//@endfn
}
pub open spec fn rpc_ReactionsByTargetRequest(q: ReactionsByTargetRequest, target: reactions_by_target_request::Target) -> proto::ReactionsByTargetRequest { proto::ReactionsByTargetRequest { page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse, reaction_type: opt_num(q.reaction_type, |s: ReactionType| s as i32), target: Some(target) } }
impl ReactionsByTargetRequest {
//@fn src/network/http_server.rs::ReactionsByTargetRequest::to_proto -> r
    ensures r == rpc_ReactionsByTargetRequest(self, target)
//@closure 0 |vx_p: ReactionType| -> (k: i32) ensures k == vx_p as i32
//@endfn
}
pub open spec fn rpc_LinksByTargetRequest(q: LinksByTargetRequest, target: links_by_target_request::Target) -> proto::LinksByTargetRequest { proto::LinksByTargetRequest { link_type: q.link_type, page_size: or_(q.page_size, q.pageSize), page_token: or_(q.page_token, q.pageToken), reverse: q.reverse, target: Some(target) } }
impl LinksByTargetRequest {
//@fn src/network/http_server.rs::LinksByTargetRequest::to_proto -> r
    ensures r == rpc_LinksByTargetRequest(self, target)
//@endfn
}

//@item src/network/http_server.rs::GetFidsResponse noclone
//@item src/network/http_server.rs::ChannelOwnerResponse noclone
//@item src/network/http_server.rs::ChannelMemberResponse noclone
//@item src/network/http_server.rs::ChannelFollowerCountResponse noclone
//@item src/network/http_server.rs::IsFollowingChannelResponse noclone
//@item src/network/http_server.rs::FidAddressTypeResponse noclone
//@item src/network/http_server.rs::ChannelsResponse noclone
//@item src/network/http_server.rs::ChannelInfo noclone
//@item src/network/http_server.rs::ChannelMembersResponse noclone
//@item src/network/http_server.rs::ChannelMember noclone
//@item src/network/http_server.rs::ChannelPinResponse noclone
//@item src/network/http_server.rs::ChannelPin noclone
//@item src/network/http_server.rs::ChannelModerationsResponse noclone
//@item src/network/http_server.rs::ChannelModeration noclone
//@item src/network/http_server.rs::ChannelModerateAction noclone
//@item src/network/http_server.rs::ChannelMetadataResponse noclone
//@item src/network/http_server.rs::CastingMode noclone
//@item src/network/http_server.rs::MembershipMode noclone
//@item src/network/http_server.rs::ChannelMembershipsResponse noclone
//@item src/network/http_server.rs::ChannelMembership noclone
//@item src/network/http_server.rs::ChannelFollowersResponse noclone
//@item src/network/http_server.rs::ChannelFollower noclone
//@item src/network/http_server.rs::ChannelFollowsResponse noclone
//@item src/network/http_server.rs::ChannelFollow noclone
//@item src/network/http_server.rs::StorageLimitsResponse noclone
//@item src/network/http_server.rs::StorageLimit noclone
//@item src/network/http_server.rs::StorageUnitDetails noclone
//@item src/network/http_server.rs::TierDetails noclone
//@item src/network/http_server.rs::TierType noclone
//@item src/network/http_server.rs::StorageUnitType noclone
//@item src/network/http_server.rs::StoreType noclone
//@item src/network/http_server.rs::UserNameProof noclone
//@item src/network/http_server.rs::UsernameProofsResponse noclone
//@item src/network/http_server.rs::OnChainEventResponse noclone
//@item src/network/http_server.rs::SignerResponse noclone
//@item src/network/http_server.rs::SignersByFidResponse noclone
//@item src/network/http_server.rs::EventsResponse noclone
//@item src/network/http_server.rs::ValidationResult noclone
//@item src/network/http_server.rs::SubmitBulkMessagesResponse noclone
//@item src/network/http_server.rs::BulkMessageResponse noclone
//@item src/network/http_server.rs::MessageError noclone
pub struct Message { pub k: u64 }
pub struct PagedResponse { pub k: u64 }
pub struct OnChainEvent { pub k: u64 }
pub struct Signer { pub k: u64 }
pub struct HubEvent { pub k: u64 }
pub struct InfoResponse { pub k: u64 }

use std::sync::Arc;
impl StatusCode { pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode { n: 500 }; }
// ---- the RPC interface: which calls a handler may make, and what the node answered
pub mod tonic {
    use vstd::prelude::*;
    pub struct MetadataMap { pub v: Vec<(String, super::MetadataValue)> }
    impl MetadataMap { #[verifier::external_body] pub fn append(&mut self, k: &str, v: super::MetadataValue) ensures final(self).pairs() == old(self).pairs().push((k@, v.s@)) { unimplemented!() }
        pub open spec fn pairs(self) -> Seq<(Seq<char>, Seq<char>)> { self.v@.map_values(|p: (String, super::MetadataValue)| (p.0@, p.1.s@)) } }
    pub struct Request<T> { pub msg: T, pub md: MetadataMap }
    impl<T> Request<T> {
        pub fn new(m: T) -> (r: Self) ensures r.msg == m, r.md.pairs() =~= Seq::empty() { Request { msg: m, md: MetadataMap { v: Vec::new() } } }
        pub fn metadata_mut(&mut self) -> (r: &mut MetadataMap) ensures *r == old(self).md, *final(r) == final(self).md, final(self).msg == old(self).msg { &mut self.md }
    }
    pub struct Response<T> { pub msg: T }
    impl<T> Response<T> { pub fn into_inner(self) -> (r: T) ensures r == self.msg { self.msg } }
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum Code { Ok, Cancelled, Unknown, InvalidArgument, DeadlineExceeded, NotFound, AlreadyExists, PermissionDenied, ResourceExhausted, FailedPrecondition, Aborted, OutOfRange, Unimplemented, Internal, Unavailable, DataLoss, Unauthenticated }
    pub struct Status { pub code: Code }
    impl Status {
        #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() }
        pub fn code(&self) -> (r: Code) ensures r == self.code { self.code }
    }
}
pub struct MetadataValue { pub s: String }
pub uninterp spec fn visible(s: Seq<char>) -> bool;
pub struct HeaderValue { pub s: String }
#[derive(Debug)] pub struct ToStrError { pub k: u8 }
impl ToStrError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
// a header value reads as text exactly when it is visible ASCII, and such a text is a metadata value
impl HeaderValue { #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str, ToStrError>) ensures (r is Ok) == visible(self.s@), r is Ok ==> r->Ok_0@ == self.s@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_metadata(s: &str) -> (r: Result<MetadataValue, ()>) ensures (r is Ok) == visible(s@), r is Ok ==> r->Ok_0.s@ == s@ { unimplemented!() }
pub struct HeaderMap<V> { pub v: Vec<V> }
pub uninterp spec fn header(h: HeaderMap<HeaderValue>, k: Seq<char>) -> Option<HeaderValue>;
impl HeaderMap<HeaderValue> { #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&HeaderValue>) ensures (r is Some) == (header(*self, k@) is Some), r is Some ==> *r->Some_0 == header(*self, k@)->Some_0 { unimplemented!() } }
pub open spec fn md_of(h: HeaderMap<HeaderValue>) -> Seq<(Seq<char>, Seq<char>)> { match header(h, "authorization"@) { Some(v) => seq![("authorization"@, v.s@)], None => Seq::empty() } }
pub open spec fn readable(h: HeaderMap<HeaderValue>) -> bool { header(h, "authorization"@) matches Some(v) ==> visible(v.s@) }
pub enum Call {
    get_info(proto::GetInfoRequest),
    get_fids(proto::FidsRequest),
    get_cast(proto::CastId),
    get_all_cast_messages_by_fid(proto::FidTimestampRequest),
    get_casts_by_mention(proto::FidRequest),
    get_casts_by_parent(proto::CastsByParentRequest),
    get_reaction(proto::ReactionRequest),
    get_reactions_by_fid(proto::ReactionsByFidRequest),
    get_reactions_by_target(proto::ReactionsByTargetRequest),
    get_link(proto::LinkRequest),
    get_links_by_fid(proto::LinksByFidRequest),
    get_links_by_target(proto::LinksByTargetRequest),
    get_user_data_by_fid(proto::FidRequest),
    get_current_storage_limits_by_fid(proto::FidRequest),
    get_username_proof(proto::UsernameProofRequest),
    get_user_name_proofs_by_fid(proto::FidRequest),
    get_verifications_by_fid(proto::FidRequest),
    get_on_chain_signers_by_fid(proto::FidRequest),
    get_signer(proto::SignerRequest),
    get_signers_by_fid(proto::SignersByFidRequest),
    get_on_chain_events(proto::OnChainEventRequest),
    get_channel_owner(proto::ChannelOwnerRequest),
    get_channels_by_address(proto::ChannelsByAddressRequest),
    get_channels_by_fid(proto::ChannelsByFidRequest),
    get_channel_member(proto::ChannelMemberRequest),
    get_channel_members(proto::ChannelMembersRequest),
    get_channel_pin(proto::ChannelRequest),
    get_channel_moderations(proto::ChannelModerationsRequest),
    get_channel_metadata(proto::ChannelRequest),
    get_channel_memberships_by_fid(proto::ChannelMembershipsByFidRequest),
    get_channel_followers(proto::ChannelFollowersRequest),
    get_channel_follower_count(proto::ChannelFollowerCountRequest),
    get_channel_follows(proto::ChannelFollowsRequest),
    is_following_channel(proto::IsFollowingChannelRequest),
    get_events(proto::EventsRequest),
    get_event(proto::EventRequest),
    get_id_registry_on_chain_event_by_address(proto::IdRegistryEventByAddressRequest),
    get_fid_address_type(proto::FidAddressTypeRequest),
    submit_message(proto::Message),
    submit_bulk_messages(proto::SubmitBulkMessagesRequest),
    validate_message(proto::Message),
    get_connected_peers(proto::GetConnectedPeersRequest),
}
pub trait HubService: Sized {
    spec fn may(&self, c: Call, md: Seq<(Seq<char>, Seq<char>)>) -> bool;
    spec fn ans_get_info(&self, q: proto::GetInfoRequest, a: proto::GetInfoResponse) -> bool;
    fn get_info(&self, request: tonic::Request<proto::GetInfoRequest>) -> (r: Result<tonic::Response<proto::GetInfoResponse>, tonic::Status>)
        requires self.may(Call::get_info(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_info(request.msg, x.msg);
    spec fn ans_get_fids(&self, q: proto::FidsRequest, a: proto::FidsResponse) -> bool;
    fn get_fids(&self, request: tonic::Request<proto::FidsRequest>) -> (r: Result<tonic::Response<proto::FidsResponse>, tonic::Status>)
        requires self.may(Call::get_fids(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_fids(request.msg, x.msg);
    spec fn ans_get_cast(&self, q: proto::CastId, a: proto::Message) -> bool;
    fn get_cast(&self, request: tonic::Request<proto::CastId>) -> (r: Result<tonic::Response<proto::Message>, tonic::Status>)
        requires self.may(Call::get_cast(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_cast(request.msg, x.msg);
    spec fn ans_get_all_cast_messages_by_fid(&self, q: proto::FidTimestampRequest, a: proto::MessagesResponse) -> bool;
    fn get_all_cast_messages_by_fid(&self, request: tonic::Request<proto::FidTimestampRequest>) -> (r: Result<tonic::Response<proto::MessagesResponse>, tonic::Status>)
        requires self.may(Call::get_all_cast_messages_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_all_cast_messages_by_fid(request.msg, x.msg);
    spec fn ans_get_casts_by_mention(&self, q: proto::FidRequest, a: proto::MessagesResponse) -> bool;
    fn get_casts_by_mention(&self, request: tonic::Request<proto::FidRequest>) -> (r: Result<tonic::Response<proto::MessagesResponse>, tonic::Status>)
        requires self.may(Call::get_casts_by_mention(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_casts_by_mention(request.msg, x.msg);
    spec fn ans_get_casts_by_parent(&self, q: proto::CastsByParentRequest, a: proto::MessagesResponse) -> bool;
    fn get_casts_by_parent(&self, request: tonic::Request<proto::CastsByParentRequest>) -> (r: Result<tonic::Response<proto::MessagesResponse>, tonic::Status>)
        requires self.may(Call::get_casts_by_parent(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_casts_by_parent(request.msg, x.msg);
    spec fn ans_get_reaction(&self, q: proto::ReactionRequest, a: proto::Message) -> bool;
    fn get_reaction(&self, request: tonic::Request<proto::ReactionRequest>) -> (r: Result<tonic::Response<proto::Message>, tonic::Status>)
        requires self.may(Call::get_reaction(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_reaction(request.msg, x.msg);
    spec fn ans_get_reactions_by_fid(&self, q: proto::ReactionsByFidRequest, a: proto::MessagesResponse) -> bool;
    fn get_reactions_by_fid(&self, request: tonic::Request<proto::ReactionsByFidRequest>) -> (r: Result<tonic::Response<proto::MessagesResponse>, tonic::Status>)
        requires self.may(Call::get_reactions_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_reactions_by_fid(request.msg, x.msg);
    spec fn ans_get_reactions_by_target(&self, q: proto::ReactionsByTargetRequest, a: proto::MessagesResponse) -> bool;
    fn get_reactions_by_target(&self, request: tonic::Request<proto::ReactionsByTargetRequest>) -> (r: Result<tonic::Response<proto::MessagesResponse>, tonic::Status>)
        requires self.may(Call::get_reactions_by_target(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_reactions_by_target(request.msg, x.msg);
    spec fn ans_get_link(&self, q: proto::LinkRequest, a: proto::Message) -> bool;
    fn get_link(&self, request: tonic::Request<proto::LinkRequest>) -> (r: Result<tonic::Response<proto::Message>, tonic::Status>)
        requires self.may(Call::get_link(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_link(request.msg, x.msg);
    spec fn ans_get_links_by_fid(&self, q: proto::LinksByFidRequest, a: proto::MessagesResponse) -> bool;
    fn get_links_by_fid(&self, request: tonic::Request<proto::LinksByFidRequest>) -> (r: Result<tonic::Response<proto::MessagesResponse>, tonic::Status>)
        requires self.may(Call::get_links_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_links_by_fid(request.msg, x.msg);
    spec fn ans_get_links_by_target(&self, q: proto::LinksByTargetRequest, a: proto::MessagesResponse) -> bool;
    fn get_links_by_target(&self, request: tonic::Request<proto::LinksByTargetRequest>) -> (r: Result<tonic::Response<proto::MessagesResponse>, tonic::Status>)
        requires self.may(Call::get_links_by_target(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_links_by_target(request.msg, x.msg);
    spec fn ans_get_user_data_by_fid(&self, q: proto::FidRequest, a: proto::MessagesResponse) -> bool;
    fn get_user_data_by_fid(&self, request: tonic::Request<proto::FidRequest>) -> (r: Result<tonic::Response<proto::MessagesResponse>, tonic::Status>)
        requires self.may(Call::get_user_data_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_user_data_by_fid(request.msg, x.msg);
    spec fn ans_get_current_storage_limits_by_fid(&self, q: proto::FidRequest, a: proto::StorageLimitsResponse) -> bool;
    fn get_current_storage_limits_by_fid(&self, request: tonic::Request<proto::FidRequest>) -> (r: Result<tonic::Response<proto::StorageLimitsResponse>, tonic::Status>)
        requires self.may(Call::get_current_storage_limits_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_current_storage_limits_by_fid(request.msg, x.msg);
    spec fn ans_get_username_proof(&self, q: proto::UsernameProofRequest, a: proto::UserNameProof) -> bool;
    fn get_username_proof(&self, request: tonic::Request<proto::UsernameProofRequest>) -> (r: Result<tonic::Response<proto::UserNameProof>, tonic::Status>)
        requires self.may(Call::get_username_proof(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_username_proof(request.msg, x.msg);
    spec fn ans_get_user_name_proofs_by_fid(&self, q: proto::FidRequest, a: proto::UsernameProofsResponse) -> bool;
    fn get_user_name_proofs_by_fid(&self, request: tonic::Request<proto::FidRequest>) -> (r: Result<tonic::Response<proto::UsernameProofsResponse>, tonic::Status>)
        requires self.may(Call::get_user_name_proofs_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_user_name_proofs_by_fid(request.msg, x.msg);
    spec fn ans_get_verifications_by_fid(&self, q: proto::FidRequest, a: proto::MessagesResponse) -> bool;
    fn get_verifications_by_fid(&self, request: tonic::Request<proto::FidRequest>) -> (r: Result<tonic::Response<proto::MessagesResponse>, tonic::Status>)
        requires self.may(Call::get_verifications_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_verifications_by_fid(request.msg, x.msg);
    spec fn ans_get_on_chain_signers_by_fid(&self, q: proto::FidRequest, a: proto::OnChainEventResponse) -> bool;
    fn get_on_chain_signers_by_fid(&self, request: tonic::Request<proto::FidRequest>) -> (r: Result<tonic::Response<proto::OnChainEventResponse>, tonic::Status>)
        requires self.may(Call::get_on_chain_signers_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_on_chain_signers_by_fid(request.msg, x.msg);
    spec fn ans_get_signer(&self, q: proto::SignerRequest, a: proto::SignerResponse) -> bool;
    fn get_signer(&self, request: tonic::Request<proto::SignerRequest>) -> (r: Result<tonic::Response<proto::SignerResponse>, tonic::Status>)
        requires self.may(Call::get_signer(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_signer(request.msg, x.msg);
    spec fn ans_get_signers_by_fid(&self, q: proto::SignersByFidRequest, a: proto::SignersByFidResponse) -> bool;
    fn get_signers_by_fid(&self, request: tonic::Request<proto::SignersByFidRequest>) -> (r: Result<tonic::Response<proto::SignersByFidResponse>, tonic::Status>)
        requires self.may(Call::get_signers_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_signers_by_fid(request.msg, x.msg);
    spec fn ans_get_on_chain_events(&self, q: proto::OnChainEventRequest, a: proto::OnChainEventResponse) -> bool;
    fn get_on_chain_events(&self, request: tonic::Request<proto::OnChainEventRequest>) -> (r: Result<tonic::Response<proto::OnChainEventResponse>, tonic::Status>)
        requires self.may(Call::get_on_chain_events(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_on_chain_events(request.msg, x.msg);
    spec fn ans_get_channel_owner(&self, q: proto::ChannelOwnerRequest, a: proto::ChannelOwnerResponse) -> bool;
    fn get_channel_owner(&self, request: tonic::Request<proto::ChannelOwnerRequest>) -> (r: Result<tonic::Response<proto::ChannelOwnerResponse>, tonic::Status>)
        requires self.may(Call::get_channel_owner(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channel_owner(request.msg, x.msg);
    spec fn ans_get_channels_by_address(&self, q: proto::ChannelsByAddressRequest, a: proto::ChannelsResponse) -> bool;
    fn get_channels_by_address(&self, request: tonic::Request<proto::ChannelsByAddressRequest>) -> (r: Result<tonic::Response<proto::ChannelsResponse>, tonic::Status>)
        requires self.may(Call::get_channels_by_address(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channels_by_address(request.msg, x.msg);
    spec fn ans_get_channels_by_fid(&self, q: proto::ChannelsByFidRequest, a: proto::ChannelsResponse) -> bool;
    fn get_channels_by_fid(&self, request: tonic::Request<proto::ChannelsByFidRequest>) -> (r: Result<tonic::Response<proto::ChannelsResponse>, tonic::Status>)
        requires self.may(Call::get_channels_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channels_by_fid(request.msg, x.msg);
    spec fn ans_get_channel_member(&self, q: proto::ChannelMemberRequest, a: proto::ChannelMemberResponse) -> bool;
    fn get_channel_member(&self, request: tonic::Request<proto::ChannelMemberRequest>) -> (r: Result<tonic::Response<proto::ChannelMemberResponse>, tonic::Status>)
        requires self.may(Call::get_channel_member(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channel_member(request.msg, x.msg);
    spec fn ans_get_channel_members(&self, q: proto::ChannelMembersRequest, a: proto::ChannelMembersResponse) -> bool;
    fn get_channel_members(&self, request: tonic::Request<proto::ChannelMembersRequest>) -> (r: Result<tonic::Response<proto::ChannelMembersResponse>, tonic::Status>)
        requires self.may(Call::get_channel_members(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channel_members(request.msg, x.msg);
    spec fn ans_get_channel_pin(&self, q: proto::ChannelRequest, a: proto::ChannelPinResponse) -> bool;
    fn get_channel_pin(&self, request: tonic::Request<proto::ChannelRequest>) -> (r: Result<tonic::Response<proto::ChannelPinResponse>, tonic::Status>)
        requires self.may(Call::get_channel_pin(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channel_pin(request.msg, x.msg);
    spec fn ans_get_channel_moderations(&self, q: proto::ChannelModerationsRequest, a: proto::ChannelModerationsResponse) -> bool;
    fn get_channel_moderations(&self, request: tonic::Request<proto::ChannelModerationsRequest>) -> (r: Result<tonic::Response<proto::ChannelModerationsResponse>, tonic::Status>)
        requires self.may(Call::get_channel_moderations(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channel_moderations(request.msg, x.msg);
    spec fn ans_get_channel_metadata(&self, q: proto::ChannelRequest, a: proto::ChannelMetadataResponse) -> bool;
    fn get_channel_metadata(&self, request: tonic::Request<proto::ChannelRequest>) -> (r: Result<tonic::Response<proto::ChannelMetadataResponse>, tonic::Status>)
        requires self.may(Call::get_channel_metadata(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channel_metadata(request.msg, x.msg);
    spec fn ans_get_channel_memberships_by_fid(&self, q: proto::ChannelMembershipsByFidRequest, a: proto::ChannelMembershipsResponse) -> bool;
    fn get_channel_memberships_by_fid(&self, request: tonic::Request<proto::ChannelMembershipsByFidRequest>) -> (r: Result<tonic::Response<proto::ChannelMembershipsResponse>, tonic::Status>)
        requires self.may(Call::get_channel_memberships_by_fid(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channel_memberships_by_fid(request.msg, x.msg);
    spec fn ans_get_channel_followers(&self, q: proto::ChannelFollowersRequest, a: proto::ChannelFollowersResponse) -> bool;
    fn get_channel_followers(&self, request: tonic::Request<proto::ChannelFollowersRequest>) -> (r: Result<tonic::Response<proto::ChannelFollowersResponse>, tonic::Status>)
        requires self.may(Call::get_channel_followers(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channel_followers(request.msg, x.msg);
    spec fn ans_get_channel_follower_count(&self, q: proto::ChannelFollowerCountRequest, a: proto::ChannelFollowerCountResponse) -> bool;
    fn get_channel_follower_count(&self, request: tonic::Request<proto::ChannelFollowerCountRequest>) -> (r: Result<tonic::Response<proto::ChannelFollowerCountResponse>, tonic::Status>)
        requires self.may(Call::get_channel_follower_count(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channel_follower_count(request.msg, x.msg);
    spec fn ans_get_channel_follows(&self, q: proto::ChannelFollowsRequest, a: proto::ChannelFollowsResponse) -> bool;
    fn get_channel_follows(&self, request: tonic::Request<proto::ChannelFollowsRequest>) -> (r: Result<tonic::Response<proto::ChannelFollowsResponse>, tonic::Status>)
        requires self.may(Call::get_channel_follows(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_channel_follows(request.msg, x.msg);
    spec fn ans_is_following_channel(&self, q: proto::IsFollowingChannelRequest, a: proto::IsFollowingChannelResponse) -> bool;
    fn is_following_channel(&self, request: tonic::Request<proto::IsFollowingChannelRequest>) -> (r: Result<tonic::Response<proto::IsFollowingChannelResponse>, tonic::Status>)
        requires self.may(Call::is_following_channel(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_is_following_channel(request.msg, x.msg);
    spec fn ans_get_events(&self, q: proto::EventsRequest, a: proto::EventsResponse) -> bool;
    fn get_events(&self, request: tonic::Request<proto::EventsRequest>) -> (r: Result<tonic::Response<proto::EventsResponse>, tonic::Status>)
        requires self.may(Call::get_events(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_events(request.msg, x.msg);
    spec fn ans_get_event(&self, q: proto::EventRequest, a: proto::HubEvent) -> bool;
    fn get_event(&self, request: tonic::Request<proto::EventRequest>) -> (r: Result<tonic::Response<proto::HubEvent>, tonic::Status>)
        requires self.may(Call::get_event(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_event(request.msg, x.msg);
    spec fn ans_get_id_registry_on_chain_event_by_address(&self, q: proto::IdRegistryEventByAddressRequest, a: proto::OnChainEvent) -> bool;
    fn get_id_registry_on_chain_event_by_address(&self, request: tonic::Request<proto::IdRegistryEventByAddressRequest>) -> (r: Result<tonic::Response<proto::OnChainEvent>, tonic::Status>)
        requires self.may(Call::get_id_registry_on_chain_event_by_address(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_id_registry_on_chain_event_by_address(request.msg, x.msg);
    spec fn ans_get_fid_address_type(&self, q: proto::FidAddressTypeRequest, a: proto::FidAddressTypeResponse) -> bool;
    fn get_fid_address_type(&self, request: tonic::Request<proto::FidAddressTypeRequest>) -> (r: Result<tonic::Response<proto::FidAddressTypeResponse>, tonic::Status>)
        requires self.may(Call::get_fid_address_type(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_fid_address_type(request.msg, x.msg);
    spec fn ans_submit_message(&self, q: proto::Message, a: proto::Message) -> bool;
    fn submit_message(&self, request: tonic::Request<proto::Message>) -> (r: Result<tonic::Response<proto::Message>, tonic::Status>)
        requires self.may(Call::submit_message(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_submit_message(request.msg, x.msg);
    spec fn ans_submit_bulk_messages(&self, q: proto::SubmitBulkMessagesRequest, a: proto::SubmitBulkMessagesResponse) -> bool;
    fn submit_bulk_messages(&self, request: tonic::Request<proto::SubmitBulkMessagesRequest>) -> (r: Result<tonic::Response<proto::SubmitBulkMessagesResponse>, tonic::Status>)
        requires self.may(Call::submit_bulk_messages(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_submit_bulk_messages(request.msg, x.msg);
    spec fn ans_validate_message(&self, q: proto::Message, a: proto::ValidationResponse) -> bool;
    fn validate_message(&self, request: tonic::Request<proto::Message>) -> (r: Result<tonic::Response<proto::ValidationResponse>, tonic::Status>)
        requires self.may(Call::validate_message(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_validate_message(request.msg, x.msg);
    spec fn ans_get_connected_peers(&self, q: proto::GetConnectedPeersRequest, a: proto::GetConnectedPeersResponse) -> bool;
    fn get_connected_peers(&self, request: tonic::Request<proto::GetConnectedPeersRequest>) -> (r: Result<tonic::Response<proto::GetConnectedPeersResponse>, tonic::Status>)
        requires self.may(Call::get_connected_peers(request.msg), request.md.pairs()) ensures r matches Ok(x) ==> self.ans_get_connected_peers(request.msg, x.msg);
}
pub type Md = Seq<(Seq<char>, Seq<char>)>;
pub open spec fn only<T: HubService>(s: &HubHttpServiceImpl<T>, c: Call) -> bool { forall|x: Call, m: Md| #[trigger] s.service.may(x, m) <==> x == c && m =~= Seq::empty() }
// ---- text codings
#[derive(Debug)] pub struct ParseIntError { pub k: u8 }
impl ParseIntError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
#[derive(Debug)] pub struct FromHexError { pub k: u8 }
impl FromHexError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
// the number a decimal text denotes; the bytes of a hexadecimal text with its 0x mark dropped
pub uninterp spec fn dec64(s: Seq<char>) -> Option<u64>;
pub uninterp spec fn unhex(s: Seq<char>) -> Option<Seq<u8>>;
#[verifier::external_body] pub fn vx_parse64(s: &String) -> (r: Result<u64, ParseIntError>) ensures (r is Ok) == (dec64(s@) is Some), r is Ok ==> r->Ok_0 == dec64(s@)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_unhex(s: &str) -> (r: Result<Vec<u8>, FromHexError>) ensures (r is Ok) == (unhex(s@) is Some), r is Ok ==> r->Ok_0@ == unhex(s@)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_copy_of(s: &String) -> (r: String) ensures r == *s { unimplemented!() }
#[verifier::external_body] pub fn vx_text_bytes(s: String) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_deref(s: &Option<String>) -> (r: Option<&str>) ensures (r is Some) == (*s is Some), r is Some ==> r->Some_0@ == (*s)->Some_0@ { unimplemented!() }
#[verifier::external_body] pub fn vx_err(x: Result<Vec<u8>, FromHexError>) -> (r: FromHexError) requires x is Err { unimplemented!() }
pub uninterp spec fn b64(s: Seq<u8>) -> Seq<char>;
#[verifier::external_body] pub fn vx_b64(s: Vec<u8>) -> (r: String) ensures r@ == b64(s@) { unimplemented!() }
pub open spec fn token(t: Option<Vec<u8>>, o: Option<String>) -> bool { match t { Some(x) => o matches Some(y) && y@ == b64(x@), None => o is None } }
#[verifier::external_body] pub fn vx_same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
// iterator chains over a vector, element by element
pub trait VxMap<T>: Sized {
    spec fn vx_seq(self) -> Seq<T>;
    fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> f.requires((#[trigger] self.vx_seq()[i],))
        ensures r@.len() == self.vx_seq().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.vx_seq()[i],), #[trigger] r@[i]);
    fn vx_map_try<U, E, F: Fn(T) -> Result<U, E>>(self, f: F) -> (r: Result<Vec<U>, E>)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> f.requires((#[trigger] self.vx_seq()[i],))
        ensures r matches Ok(v) ==> v@.len() == self.vx_seq().len() && forall|i: int| 0 <= i < v@.len() ==> f.ensures((self.vx_seq()[i],), Ok(#[trigger] v@[i]));
}
impl<T> VxMap<T> for Vec<T> {
    open spec fn vx_seq(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_map_try<U, E, F: Fn(T) -> Result<U, E>>(self, f: F) -> (r: Result<Vec<U>, E>) { unimplemented!() }
}
pub trait VxMapRef<T>: Sized {
    spec fn vx_refs(&self) -> Seq<T>;
    fn vx_map_ref<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_refs().len() ==> f.requires((&#[trigger] self.vx_refs()[i],))
        ensures r@.len() == self.vx_refs().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self.vx_refs()[i],), #[trigger] r@[i]);
}
impl<T> VxMapRef<T> for Vec<T> {
    open spec fn vx_refs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_map_ref<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>) { unimplemented!() }
}
// ---- the rendering of stored records is C37's business
pub uninterp spec fn shown_msg(m: proto::Message) -> Result<Message, ErrorResponse>;
pub uninterp spec fn shown_page(m: proto::MessagesResponse) -> Result<PagedResponse, ErrorResponse>;
pub uninterp spec fn shown_event(m: proto::OnChainEvent) -> Result<OnChainEvent, ErrorResponse>;
pub uninterp spec fn shown_hub_event(m: proto::HubEvent) -> Result<HubEvent, ErrorResponse>;
pub uninterp spec fn shown_signer(m: proto::Signer) -> Result<Signer, ErrorResponse>;
pub uninterp spec fn shown_info(m: proto::GetInfoResponse) -> Result<InfoResponse, ErrorResponse>;

//@known src/network/http_server.rs::map_proto_message_to_json_message
#[verifier::external_body] pub fn map_proto_message_to_json_message(m: proto::Message) -> (r: Result<Message, ErrorResponse>) ensures r == shown_msg(m) { unimplemented!() }
//@known src/network/http_server.rs::map_proto_messages_response_to_json_paged_response
#[verifier::external_body] pub fn map_proto_messages_response_to_json_paged_response(m: proto::MessagesResponse) -> (r: Result<PagedResponse, ErrorResponse>) ensures r == shown_page(m) { unimplemented!() }
//@known src/network/http_server.rs::map_proto_on_chain_event_to_json_on_chain_event
#[verifier::external_body] pub fn map_proto_on_chain_event_to_json_on_chain_event(m: proto::OnChainEvent) -> (r: Result<OnChainEvent, ErrorResponse>) ensures r == shown_event(m) { unimplemented!() }
//@known src/network/http_server.rs::map_proto_hub_event_to_json_hub_event
#[verifier::external_body] pub fn map_proto_hub_event_to_json_hub_event(m: proto::HubEvent) -> (r: Result<HubEvent, ErrorResponse>) ensures r == shown_hub_event(m) { unimplemented!() }
//@known src/network/http_server.rs::map_proto_signer_to_json_signer
#[verifier::external_body] pub fn map_proto_signer_to_json_signer(m: proto::Signer) -> (r: Result<Signer, ErrorResponse>) ensures r == shown_signer(m) { unimplemented!() }
//@known src/network/http_server.rs::map_get_info_response_to_json_info_response
#[verifier::external_body] pub fn map_get_info_response_to_json_info_response(m: proto::GetInfoResponse) -> (r: Result<InfoResponse, ErrorResponse>) ensures r == shown_info(m) { unimplemented!() }

#[verifier::external_body] pub fn vx_event(e: &proto::OnChainEvent) -> (r: OnChainEvent) ensures shown_event(*e) == Ok::<OnChainEvent, ErrorResponse>(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_hub_event(e: &proto::HubEvent) -> (r: HubEvent) ensures shown_hub_event(*e) == Ok::<HubEvent, ErrorResponse>(r) { unimplemented!() }
pub uninterp spec fn name_of(t: proto::UserNameType) -> Seq<char>;
#[verifier::external_body] pub fn vx_name_type(t: proto::UserNameType) -> (r: String) ensures r@ == name_of(t) { unimplemented!() }
pub uninterp spec fn hex0(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] pub fn vx_hex(b: &Vec<u8>) -> (r: String) ensures r@ == hex0(b@) { unimplemented!() }
pub uninterp spec fn text_of(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] pub fn vx_text(b: &Vec<u8>) -> (r: String) ensures r@ == text_of(b@) { unimplemented!() }
pub open spec fn limit_shown(p: proto::StorageLimit, k: StorageLimit) -> bool { true }
pub open spec fn unit_shown(p: proto::StorageUnitDetails, k: StorageUnitDetails) -> bool { true }
pub open spec fn tier_shown(p: proto::TierDetails, k: TierDetails) -> bool { true }
pub open spec fn proof_shown(p: proto::UserNameProof, k: UserNameProof) -> bool { true }
pub open spec fn member_shown(p: proto::ChannelMember, k: ChannelMember) -> bool { true }
pub open spec fn moderation_shown(p: proto::ChannelModeration, k: ChannelModeration) -> bool { true }
pub open spec fn membership_shown(p: proto::ChannelMembership, k: ChannelMembership) -> bool { true }
pub open spec fn bulk_shown(p: proto::BulkMessageResponse, k: BulkMessageResponse) -> bool { true }

//@known src/network/http_server.rs::map_proto_casting_mode_to_json_casting_mode
#[verifier::external_body] pub fn map_proto_casting_mode_to_json_casting_mode(m: i32) -> (r: Result<CastingMode, ErrorResponse>) { unimplemented!() }
//@known src/network/http_server.rs::map_proto_membership_mode_to_json_membership_mode
#[verifier::external_body] pub fn map_proto_membership_mode_to_json_membership_mode(m: i32) -> (r: Result<MembershipMode, ErrorResponse>) { unimplemented!() }
//@known src/network/http_server.rs::map_proto_channel_moderate_action_to_json_channel_moderate_action
#[verifier::external_body] pub fn map_proto_channel_moderate_action_to_json_channel_moderate_action(m: i32) -> (r: Result<ChannelModerateAction, ErrorResponse>) { unimplemented!() }
//@known src/network/http_server.rs::channel_member_state_from_proto
#[verifier::external_body] pub fn channel_member_state_from_proto(m: i32) -> (r: Result<ChannelMemberState, ErrorResponse>) { unimplemented!() }
#[verifier::external_body] pub fn channels_from(m: proto::ChannelsResponse) -> (r: ChannelsResponse) { unimplemented!() }

impl ErrorResponse {
//@fn src/network/http_server.rs::ErrorResponse::from_status -> r
    ensures r.status == (if err.code == tonic::Code::Internal || err.code == tonic::Code::DataLoss || err.code == tonic::Code::Unknown { Some(StatusCode { n: 500 }) } else { None })
//@endfn
}
//@item src/network/http_server.rs::HubHttpServiceImpl
pub open spec fn parent_ok(q: CastsByParentRequest, p: Option<casts_by_parent_request::Parent>) -> bool {
    if q.hash is Some && q.fid is Some { p matches Some(casts_by_parent_request::Parent::ParentCastId(c)) && Some(c.fid) == q.fid && unhex(q.hash->Some_0@) == Some(c.hash@) }
    else { q.url is Some && p == Some(casts_by_parent_request::Parent::ParentUrl(q.url->Some_0)) }
}
// an absent hash stands for the empty one
pub open spec fn hash_ok(t: Option<String>, h: Vec<u8>) -> bool { match t { Some(s) => unhex(s@) == Some(h@), None => h@ =~= Seq::empty() } }
pub open spec fn reaction_ok(q: ReactionRequest, c: proto::ReactionRequest) -> bool {
    &&& c.fid == q.fid && c.reaction_type == q.reaction_type as i32
    &&& if q.target_fid is Some { c.target matches Some(reaction_request::Target::TargetCastId(x)) && x.fid == q.target_fid->Some_0 && hash_ok(q.target_hash, x.hash) }
        else { q.target_url is Some && c.target == Some(reaction_request::Target::TargetUrl(q.target_url->Some_0)) }
}
pub open spec fn by_cast_ok(q: ReactionsByCastRequest, t: reactions_by_target_request::Target) -> bool { t matches reactions_by_target_request::Target::TargetCastId(x) && x.fid == q.target_fid && hash_ok(q.target_hash, x.hash) }
pub open spec fn by_target_ok(q: ReactionsByTargetRequest, t: reactions_by_target_request::Target) -> bool {
    if q.target_cast_id is Some { t matches reactions_by_target_request::Target::TargetCastId(x) && x.fid == q.target_cast_id->Some_0.fid && unhex(q.target_cast_id->Some_0.hash@) == Some(x.hash@) }
    else { q.target_url is Some && t == reactions_by_target_request::Target::TargetUrl(q.target_url->Some_0) }
}
impl<T: HubService> HubHttpServiceImpl<T> {
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_info -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> m =~= Seq::empty() && (x matches Call::get_info(c) && true)
    ensures r is Ok ==> exists|c: proto::GetInfoRequest, a: proto::GetInfoResponse| #[trigger] self.service.ans_get_info(c, a) && true
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_fids -> r
    requires only(self, Call::get_fids(rpc_GetFidsRequest(request)))
    ensures r is Ok ==> exists|a: proto::FidsResponse| #[trigger] self.service.ans_get_fids(rpc_GetFidsRequest(request), a)
//@closure 1 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@rw `BASE64_STANDARD.encode(t)` => `vx_b64(t)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_cast_by_id -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> m =~= Seq::empty() && (x matches Call::get_cast(c) && dec64(req.fid@) == Some(c.fid) && unhex(req.hash@) == Some(c.hash@))
    ensures r is Ok ==> exists|c: proto::CastId, a: proto::Message| #[trigger] self.service.ans_get_cast(c, a) && dec64(req.fid@) == Some(c.fid) && unhex(req.hash@) == Some(c.hash@)
//@rw `req.fid.parse::<u64>()` => `vx_parse64(&req.fid)`
//@rw `hex::decode(&req.hash.replace("0x", ""))` => `vx_unhex(req.hash.as_str())`
//@rw `hash.into()` => `hash`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_casts_by_fid -> r
    requires only(self, Call::get_all_cast_messages_by_fid(rpc_FidTimestampRequest(req)))
    ensures r is Ok ==> exists|a: proto::MessagesResponse| #[trigger] self.service.ans_get_all_cast_messages_by_fid(rpc_FidTimestampRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_casts_by_mention -> r
    requires only(self, Call::get_casts_by_mention(rpc_FidRequest(req)))
    ensures r is Ok ==> exists|a: proto::MessagesResponse| #[trigger] self.service.ans_get_casts_by_mention(rpc_FidRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_casts_by_parent -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> m =~= Seq::empty() && (x matches Call::get_casts_by_parent(c) && parent_ok(req, c.parent) && c == rpc_CastsByParentRequest(req, c.parent))
    ensures r is Ok ==> exists|c: proto::CastsByParentRequest, a: proto::MessagesResponse| #[trigger] self.service.ans_get_casts_by_parent(c, a) && parent_ok(req, c.parent) && c == rpc_CastsByParentRequest(req, c.parent)
//@rw `hex::decode(req.hash.clone().unwrap().replace("0x", ""))` => `vx_unhex(req.hash.clone().unwrap().as_str())`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_reaction_by_id -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> m =~= Seq::empty() && (x matches Call::get_reaction(c) && reaction_ok(req, c))
    ensures r is Ok ==> exists|c: proto::ReactionRequest, a: proto::Message| #[trigger] self.service.ans_get_reaction(c, a) && reaction_ok(req, c)
//@rw `req.target_hash.as_deref()` => `vx_deref(&req.target_hash)`
//@rw `hex::decode(hash_str.trim_start_matches("0x"))` => `vx_unhex(hash_str)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_reactions_by_fid -> r
    requires only(self, Call::get_reactions_by_fid(rpc_ReactionsByFidRequest(req)))
    ensures r is Ok ==> exists|a: proto::MessagesResponse| #[trigger] self.service.ans_get_reactions_by_fid(rpc_ReactionsByFidRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_reactions_by_cast -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> m =~= Seq::empty() && (x matches Call::get_reactions_by_target(c) && c.target is Some && by_cast_ok(req, c.target->Some_0) && c == rpc_ReactionsByCastRequest(req, c.target->Some_0))
    ensures r is Ok ==> exists|c: proto::ReactionsByTargetRequest, a: proto::MessagesResponse| #[trigger] self.service.ans_get_reactions_by_target(c, a) && c.target is Some && by_cast_ok(req, c.target->Some_0) && c == rpc_ReactionsByCastRequest(req, c.target->Some_0)
//@rw `req.target_hash.as_deref()` => `vx_deref(&req.target_hash)`
//@rw `hex::decode(hash_str.trim_start_matches("0x"))` => `vx_unhex(hash_str)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_reactions_by_target -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> m =~= Seq::empty() && (x matches Call::get_reactions_by_target(c) && c.target is Some && by_target_ok(req, c.target->Some_0) && c == rpc_ReactionsByTargetRequest(req, c.target->Some_0))
    ensures r is Ok ==> exists|c: proto::ReactionsByTargetRequest, a: proto::MessagesResponse| #[trigger] self.service.ans_get_reactions_by_target(c, a) && c.target is Some && by_target_ok(req, c.target->Some_0) && c == rpc_ReactionsByTargetRequest(req, c.target->Some_0)
//@rw `hex::decode(cast_id.hash.replace("0x", ""))` => `vx_unhex(cast_id.hash.as_str())`
//@rw `hash.unwrap_err()` => `vx_err(hash)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_link_by_id -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> m =~= Seq::empty() && (x matches Call::get_link(c) && req.target_fid is Some && c.fid == req.fid && c.link_type == req.link_type && c.target == Some(link_request::Target::TargetFid(req.target_fid->Some_0)))
    ensures r is Ok ==> exists|c: proto::LinkRequest, a: proto::Message| #[trigger] self.service.ans_get_link(c, a) && req.target_fid is Some && c.fid == req.fid && c.link_type == req.link_type && c.target == Some(link_request::Target::TargetFid(req.target_fid->Some_0))
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_links_by_fid -> r
    requires only(self, Call::get_links_by_fid(rpc_LinksByFidRequest(req)))
    ensures r is Ok ==> exists|a: proto::MessagesResponse| #[trigger] self.service.ans_get_links_by_fid(rpc_LinksByFidRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_links_by_target_fid -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> m =~= Seq::empty() && (x matches Call::get_links_by_target(c) && req.target_fid is Some && c == rpc_LinksByTargetRequest(req, links_by_target_request::Target::TargetFid(req.target_fid->Some_0)))
    ensures r is Ok ==> exists|c: proto::LinksByTargetRequest, a: proto::MessagesResponse| #[trigger] self.service.ans_get_links_by_target(c, a) && req.target_fid is Some && c == rpc_LinksByTargetRequest(req, links_by_target_request::Target::TargetFid(req.target_fid->Some_0))
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_user_data_by_fid -> r
    requires only(self, Call::get_user_data_by_fid(rpc_FidRequest(req)))
    ensures r is Ok ==> exists|a: proto::MessagesResponse| #[trigger] self.service.ans_get_user_data_by_fid(rpc_FidRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_storage_limits_by_fid -> r
    requires only(self, Call::get_current_storage_limits_by_fid(rpc_FidRequest(req)))
    ensures r is Ok ==> exists|a: proto::StorageLimitsResponse| #[trigger] self.service.ans_get_current_storage_limits_by_fid(rpc_FidRequest(req), a)
//@rw `.collect()` => ``
//@rw `.iter().map` => `.vx_map_ref`
//@closure 1 |vx_p: &proto::StorageLimit| -> (k: StorageLimit) ensures limit_shown(*vx_p, k)
//@closure 2 |vx_p: &proto::StorageUnitDetails| -> (k: StorageUnitDetails) ensures unit_shown(*vx_p, k)
//@closure 3 |vx_p: &proto::TierDetails| -> (k: TierDetails) ensures tier_shown(*vx_p, k)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_user_name_proof_by_name -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> m =~= Seq::empty() && (x matches Call::get_username_proof(c) && c.name@ == encode_utf8(req.name@))
    ensures r is Ok ==> exists|c: proto::UsernameProofRequest, a: proto::UserNameProof| #[trigger] self.service.ans_get_username_proof(c, a) && c.name@ == encode_utf8(req.name@)
//@rw `req.name.into()` => `vx_text_bytes(req.name)`
//@rw `std::str::from_utf8(&proof.name.as_slice()).unwrap().to_string()` => `vx_text(&proof.name)`
//@rw `proof.r#type().as_str_name().to_owned()` => `vx_name_type(proof.r#type())`
//@rw `format!("0x{}", hex::encode(&proof.owner))` => `vx_hex(&proof.owner)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_user_name_proofs_by_fid -> r
    requires only(self, Call::get_user_name_proofs_by_fid(rpc_FidRequest(req)))
    ensures r is Ok ==> exists|a: proto::UsernameProofsResponse| #[trigger] self.service.ans_get_user_name_proofs_by_fid(rpc_FidRequest(req), a)
//@rw `.collect()` => ``
//@rw `.iter().map` => `.vx_map_ref`
//@closure 1 |vx_p: &proto::UserNameProof| -> (k: UserNameProof) ensures proof_shown(*vx_p, k)
//@rw `std::str::from_utf8(&p.name.as_slice()).unwrap().to_string()` => `vx_text(&p.name)`
//@rw `p.r#type().as_str_name().to_owned()` => `vx_name_type(p.r#type())`
//@rw `format!("0x{}", hex::encode(&p.owner))` => `vx_hex(&p.owner)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_verifications_by_fid -> r
    requires only(self, Call::get_verifications_by_fid(rpc_FidRequest(req)))
    ensures r is Ok ==> exists|a: proto::MessagesResponse| #[trigger] self.service.ans_get_verifications_by_fid(rpc_FidRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_on_chain_signers_by_fid -> r
    requires only(self, Call::get_on_chain_signers_by_fid(rpc_FidRequest(req)))
    ensures r is Ok ==> exists|a: proto::OnChainEventResponse| #[trigger] self.service.ans_get_on_chain_signers_by_fid(rpc_FidRequest(req), a)
//@rw `map_proto_on_chain_event_to_json_on_chain_event(e.clone()).unwrap()` => `vx_event(e)`
//@rw `.collect()` => ``
//@rw `.iter().map` => `.vx_map_ref`
//@closure 1 |vx_p: &proto::OnChainEvent| -> (k: OnChainEvent) ensures shown_event(*vx_p) == Ok::<OnChainEvent, ErrorResponse>(k)
//@closure 2 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@rw `BASE64_STANDARD.encode(t)` => `vx_b64(t)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_signer -> r
    requires only(self, Call::get_signer(rpc_SignerHttpRequest(req)))
    ensures r is Ok ==> exists|a: proto::SignerResponse| #[trigger] self.service.ans_get_signer(rpc_SignerHttpRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_signers_by_fid -> r
    requires only(self, Call::get_signers_by_fid(rpc_SignersByFidHttpRequest(req)))
    ensures r is Ok ==> exists|a: proto::SignersByFidResponse| #[trigger] self.service.ans_get_signers_by_fid(rpc_SignersByFidHttpRequest(req), a)
//@rw `.collect::<Result<Vec<_>, _>>()` => ``
//@rw `.into_iter().map(map_proto_signer_to_json_signer)` => `.vx_map_try(|p: proto::Signer| -> (k: Result<Signer, ErrorResponse>) ensures k == shown_signer(p) { map_proto_signer_to_json_signer(p) })`
//@closure 1 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@rw `BASE64_STANDARD.encode(t)` => `vx_b64(t)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_on_chain_events_by_fid -> r
    requires only(self, Call::get_on_chain_events(rpc_OnChainEventRequest(req)))
    ensures r is Ok ==> exists|a: proto::OnChainEventResponse| #[trigger] self.service.ans_get_on_chain_events(rpc_OnChainEventRequest(req), a)
//@rw `map_proto_on_chain_event_to_json_on_chain_event(e.clone()).unwrap()` => `vx_event(e)`
//@rw `.collect()` => ``
//@rw `.iter().map` => `.vx_map_ref`
//@closure 1 |vx_p: &proto::OnChainEvent| -> (k: OnChainEvent) ensures shown_event(*vx_p) == Ok::<OnChainEvent, ErrorResponse>(k)
//@closure 2 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@rw `BASE64_STANDARD.encode(t)` => `vx_b64(t)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channel_owner -> r
    requires only(self, Call::get_channel_owner(rpc_ChannelOwnerRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelOwnerResponse| #[trigger] self.service.ans_get_channel_owner(rpc_ChannelOwnerRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channels_by_address -> r
    requires only(self, Call::get_channels_by_address(rpc_ChannelsByAddressRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelsResponse| #[trigger] self.service.ans_get_channels_by_address(rpc_ChannelsByAddressRequest(req), a)
//@rw `response.into_inner().into()` => `channels_from(response.into_inner())`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channels_by_fid -> r
    requires only(self, Call::get_channels_by_fid(rpc_ChannelsByFidRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelsResponse| #[trigger] self.service.ans_get_channels_by_fid(rpc_ChannelsByFidRequest(req), a)
//@rw `response.into_inner().into()` => `channels_from(response.into_inner())`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channel_member -> r
    requires only(self, Call::get_channel_member(rpc_ChannelMemberRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelMemberResponse| #[trigger] self.service.ans_get_channel_member(rpc_ChannelMemberRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channel_members -> r
    requires only(self, Call::get_channel_members(rpc_ChannelMembersRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelMembersResponse| #[trigger] self.service.ans_get_channel_members(rpc_ChannelMembersRequest(req), a)
//@rw `.collect::<Result<Vec<_>, ErrorResponse>>()` => ``
//@rw `.into_iter().map` => `.vx_map_try`
//@closure 1 |vx_p: proto::ChannelMember| -> (k: Result<ChannelMember, ErrorResponse>) ensures k matches Ok(x) ==> member_shown(vx_p, x)
//@closure 2 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@rw `BASE64_STANDARD.encode(token)` => `vx_b64(token)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channel_pin -> r
    requires only(self, Call::get_channel_pin(rpc_ChannelIdRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelPinResponse| #[trigger] self.service.ans_get_channel_pin(rpc_ChannelIdRequest(req), a)
//@closure 1 |vx_p: proto::ChannelPin| -> (k: ChannelPin) ensures k.cast_hash == vx_p.cast_hash && k.author_fid == vx_p.author_fid
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channel_moderations -> r
    requires only(self, Call::get_channel_moderations(rpc_ChannelModerationsRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelModerationsResponse| #[trigger] self.service.ans_get_channel_moderations(rpc_ChannelModerationsRequest(req), a)
//@rw `.collect::<Result<Vec<_>, ErrorResponse>>()` => ``
//@rw `.into_iter().map` => `.vx_map_try`
//@closure 1 |vx_p: proto::ChannelModeration| -> (k: Result<ChannelModeration, ErrorResponse>) ensures k matches Ok(x) ==> moderation_shown(vx_p, x)
//@closure 2 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@rw `BASE64_STANDARD.encode(token)` => `vx_b64(token)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channel_metadata -> r
    requires only(self, Call::get_channel_metadata(rpc_ChannelIdRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelMetadataResponse| #[trigger] self.service.ans_get_channel_metadata(rpc_ChannelIdRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channel_memberships_by_fid -> r
    requires only(self, Call::get_channel_memberships_by_fid(rpc_ChannelMembershipsByFidRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelMembershipsResponse| #[trigger] self.service.ans_get_channel_memberships_by_fid(rpc_ChannelMembershipsByFidRequest(req), a)
//@rw `.collect::<Result<Vec<_>, ErrorResponse>>()` => ``
//@rw `.into_iter().map` => `.vx_map_try`
//@closure 1 |vx_p: proto::ChannelMembership| -> (k: Result<ChannelMembership, ErrorResponse>) ensures k matches Ok(x) ==> membership_shown(vx_p, x)
//@closure 2 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@rw `BASE64_STANDARD.encode(token)` => `vx_b64(token)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channel_followers -> r
    requires only(self, Call::get_channel_followers(rpc_ChannelFollowersRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelFollowersResponse| #[trigger] self.service.ans_get_channel_followers(rpc_ChannelFollowersRequest(req), a)
//@rw `.collect()` => ``
//@rw `.into_iter().map` => `.vx_map`
//@closure 1 |vx_p: proto::ChannelFollower| -> (k: ChannelFollower) ensures k.fid == vx_p.fid && k.followed_at == vx_p.followed_at
//@closure 2 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@rw `BASE64_STANDARD.encode(token)` => `vx_b64(token)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channel_follower_count -> r
    requires only(self, Call::get_channel_follower_count(rpc_ChannelFollowerCountRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelFollowerCountResponse| #[trigger] self.service.ans_get_channel_follower_count(rpc_ChannelFollowerCountRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_channel_follows -> r
    requires only(self, Call::get_channel_follows(rpc_ChannelFollowsRequest(req)))
    ensures r is Ok ==> exists|a: proto::ChannelFollowsResponse| #[trigger] self.service.ans_get_channel_follows(rpc_ChannelFollowsRequest(req), a)
//@rw `.collect()` => ``
//@rw `.into_iter().map` => `.vx_map`
//@closure 1 |vx_p: proto::ChannelFollow| -> (k: ChannelFollow) ensures k.channel_id == vx_p.channel_id && k.followed_at == vx_p.followed_at
//@closure 2 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@rw `BASE64_STANDARD.encode(token)` => `vx_b64(token)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::is_following_channel -> r
    requires only(self, Call::is_following_channel(rpc_IsFollowingChannelRequest(req)))
    ensures r is Ok ==> exists|a: proto::IsFollowingChannelResponse| #[trigger] self.service.ans_is_following_channel(rpc_IsFollowingChannelRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_events -> r
    requires only(self, Call::get_events(rpc_EventsRequest(req)))
    ensures r is Ok ==> exists|a: proto::EventsResponse| #[trigger] self.service.ans_get_events(rpc_EventsRequest(req), a)
//@rw `.collect()` => ``
//@rw `.iter().map` => `.vx_map_ref`
//@rw `map_proto_hub_event_to_json_hub_event(e.clone()).unwrap()` => `vx_hub_event(e)`
//@closure 1 |vx_p: &proto::HubEvent| -> (k: HubEvent) ensures shown_hub_event(*vx_p) == Ok::<HubEvent, ErrorResponse>(k)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_event_by_id -> r
    requires only(self, Call::get_event(rpc_EventRequest(req)))
    ensures r is Ok ==> exists|a: proto::HubEvent| #[trigger] self.service.ans_get_event(rpc_EventRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_id_registry_on_chain_event_by_address -> r
    requires only(self, Call::get_id_registry_on_chain_event_by_address(rpc_IdRegistryEventByAddressRequest(req)))
    ensures r is Ok ==> exists|a: proto::OnChainEvent| #[trigger] self.service.ans_get_id_registry_on_chain_event_by_address(rpc_IdRegistryEventByAddressRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::get_fid_address_type -> r
    requires only(self, Call::get_fid_address_type(rpc_FidAddressTypeRequest(req)))
    ensures r is Ok ==> exists|a: proto::FidAddressTypeResponse| #[trigger] self.service.ans_get_fid_address_type(rpc_FidAddressTypeRequest(req), a)
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::submit_message -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> x == Call::submit_message(req) && readable(headers) && m =~= md_of(headers)
    ensures r is Ok ==> exists|a: proto::Message| #[trigger] self.service.ans_submit_message(req, a)
//@rw `MetadataValue::from_str(auth)` => `vx_metadata(auth)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::submit_bulk_messages -> r
    requires forall|x: Call, m: Md| #[trigger] self.service.may(x, m) <==> x == Call::submit_bulk_messages(req) && readable(headers) && m =~= md_of(headers)
    ensures r is Ok ==> exists|a: proto::SubmitBulkMessagesResponse| #[trigger] self.service.ans_submit_bulk_messages(req, a)
//@rw `.collect::<Result<Vec<BulkMessageResponse>, _>>()` => ``
//@rw `.into_iter().map` => `.vx_map_try`
//@closure 1 |vx_p: proto::BulkMessageResponse| -> (k: Result<BulkMessageResponse, ErrorResponse>) ensures k matches Ok(x) ==> bulk_shown(vx_p, x)
//@rw `map_proto_message_to_json_message(msg).map(BulkMessageResponse::Message)` => `map_proto_message_to_json_message(msg).map(|m: Message| -> (k: BulkMessageResponse) ensures k == BulkMessageResponse::Message(m) { BulkMessageResponse::Message(m) })`
//@rw `MetadataValue::from_str(auth)` => `vx_metadata(auth)`
//@endfn
//@fn src/network/http_server.rs::<HubHttpService for HubHttpServiceImpl<T>>::validate_message -> r
    requires only(self, Call::validate_message(req)), forall|a: proto::ValidationResponse| #[trigger] self.service.ans_validate_message(req, a) ==> a.message is Some
    ensures r is Ok ==> exists|a: proto::ValidationResponse| #[trigger] self.service.ans_validate_message(req, a)
//@endfn
}
} // verus!
fn main() {}
