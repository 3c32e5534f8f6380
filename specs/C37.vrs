// The REST gateway shows exactly what was stored or answered: every field in its own place, in its documented encoding.
//@include prelude.vrs
global size_of usize == 8;
//@include strings.vrs
//@include maps.vrs

//@proto CastId CastsByParentRequest ChannelFollowerCountRequest ChannelFollowerCountResponse ChannelFollowersRequest ChannelFollowersResponse ChannelFollowsRequest ChannelFollowsResponse ChannelMemberRequest ChannelMemberResponse ChannelMembersRequest ChannelMembersResponse ChannelMembershipsByFidRequest ChannelMembershipsResponse ChannelMetadataResponse ChannelModerationsRequest ChannelModerationsResponse ChannelOwnerRequest ChannelOwnerResponse ChannelPinResponse ChannelRequest ChannelsByAddressRequest ChannelsByFidRequest ChannelsResponse ContactSource EventRequest EventsRequest EventsResponse FidAddressTypeRequest FidAddressTypeResponse FidRequest FidTimestampRequest FidsRequest FidsResponse GetInfoRequest GetInfoResponse HubEvent IdRegistryEventByAddressRequest IsFollowingChannelRequest IsFollowingChannelResponse LinkRequest LinksByFidRequest LinksByTargetRequest Message MessageData MessagesResponse OnChainEvent OnChainEventRequest OnChainEventResponse ReactionRequest ReactionsByFidRequest ReactionsByTargetRequest Signer SignerRequest SignerResponse SignersByFidRequest SignersByFidResponse StorageLimitsResponse UserNameProof UsernameProofRequest UsernameProofsResponse
use proto::{message_data::Body, link_body::Target, embed, on_chain_event, hub_event, CastType, ReactionType, UserDataType, UserNameType, Protocol, MessageType, FarcasterNetwork, HashScheme, SignatureScheme};
#[derive(Debug)] pub struct StatusCode { pub n: u16 }
//@item src/network/http_server.rs::Message noclone
//@item src/network/http_server.rs::MessageData noclone
//@item src/network/http_server.rs::EmbedUrlOrCastId noclone
//@item src/network/http_server.rs::EmbedUrl noclone
//@item src/network/http_server.rs::EmbedCastId noclone
//@item src/network/http_server.rs::CastAddBody noclone
//@item src/network/http_server.rs::CastRemoveBody noclone
//@item src/network/http_server.rs::ReactionBody noclone
//@item src/network/http_server.rs::VerificationAddAddressBody noclone
//@item src/network/http_server.rs::VerificationRemoveBody noclone
//@item src/network/http_server.rs::UserDataBody noclone
//@item src/network/http_server.rs::LinkBody noclone
//@item src/network/http_server.rs::UsernameProofBody noclone
//@item src/network/http_server.rs::FrameActionBody noclone
//@item src/network/http_server.rs::LinkCompactStateBody noclone
//@item src/network/http_server.rs::LendStorageBody noclone
//@item src/network/http_server.rs::KeyAddBody noclone
//@item src/network/http_server.rs::KeyRemoveBody noclone
//@item src/network/http_server.rs::CastingMode noclone
//@item src/network/http_server.rs::MembershipMode noclone
//@item src/network/http_server.rs::ChannelMemberAction noclone
//@item src/network/http_server.rs::ChannelModerateAction noclone
//@item src/network/http_server.rs::ChannelUpdateBody noclone
//@item src/network/http_server.rs::ChannelMemberBody noclone
//@item src/network/http_server.rs::ChannelPinBody noclone
//@item src/network/http_server.rs::ChannelModerateBody noclone
//@item src/network/http_server.rs::CastId noclone
//@item src/network/http_server.rs::PagedResponse noclone
//@item src/network/http_server.rs::InfoResponse noclone
//@item src/network/http_server.rs::DbStats noclone
//@item src/network/http_server.rs::ShardInfo noclone
//@item src/network/http_server.rs::StorageUnitType noclone
//@item src/network/http_server.rs::OnChainEventType noclone
//@item src/network/http_server.rs::SignerEventType noclone
//@item src/network/http_server.rs::TierType noclone
//@item src/network/http_server.rs::IdRegisterEventType noclone
//@item src/network/http_server.rs::SignerEventBody noclone
//@item src/network/http_server.rs::SignerMigratedEventBody noclone
//@item src/network/http_server.rs::IdRegisterEventBody noclone
//@item src/network/http_server.rs::StorageRentEventBody noclone
//@item src/network/http_server.rs::TierPurchaseEventBody noclone
//@item src/network/http_server.rs::ChannelRegisterEventType noclone
//@item src/network/http_server.rs::ChannelRegisterEventBody noclone
//@item src/network/http_server.rs::OnChainEvent noclone
//@item src/network/http_server.rs::SignerSource noclone
//@item src/network/http_server.rs::Signer noclone
//@item src/network/http_server.rs::MergeMessageBody noclone
//@item src/network/http_server.rs::MergeFailureBody noclone
//@item src/network/http_server.rs::PruneMessageBody noclone
//@item src/network/http_server.rs::RevokeMessageBody noclone
//@item src/network/http_server.rs::MergeOnChainEventBody noclone
//@item src/network/http_server.rs::MergeUsernameProofBody noclone
//@item src/network/http_server.rs::BlockConfirmedBody noclone
//@item src/network/http_server.rs::ChannelOwnerChangeCause noclone
//@item src/network/http_server.rs::ChannelOwnerChangeHintBody noclone
//@item src/network/http_server.rs::HubEvent noclone
//@item src/network/http_server.rs::ErrorResponse noclone
//@item src/network/http_server.rs::ChannelMemberState noclone
//@item src/network/http_server.rs::ChannelInfo noclone
//@item src/network/http_server.rs::ChannelsResponse noclone

pub assume_specification<T, U, D: FnOnce() -> U, G: FnOnce(T) -> U> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: G) -> (r: U) where D: core::marker::Destruct, G: core::marker::Destruct
    requires o is None ==> d.requires(()), o is Some ==> f.requires((o->0,)) ensures o is None ==> d.ensures((), r), o is Some ==> f.ensures((o->0,), r);
// ---- text codings
pub uninterp spec fn hex0(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b58(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub trait VxRaw: Sized { spec fn raw(self) -> Seq<u8>; }
impl VxRaw for Vec<u8> { open spec fn raw(self) -> Seq<u8> { self@ } }
impl VxRaw for &Vec<u8> { open spec fn raw(self) -> Seq<u8> { self@ } }
#[verifier::external_body] pub fn vx_hex0<B: VxRaw>(b: B) -> (r: String) ensures r@ == hex0(b.raw()) { unimplemented!() }
#[verifier::external_body] pub fn vx_b58<B: VxRaw>(b: B) -> (r: String) ensures r@ == b58(b.raw()) { unimplemented!() }
#[verifier::external_body] pub fn vx_b64(b: Vec<u8>) -> (r: String) ensures r@ == b64(b@) { unimplemented!() }
#[derive(Debug)] pub struct Utf8Error { pub k: u8 }
#[verifier::external_body] pub fn vx_utf8(b: &Vec<u8>) -> (r: Result<&str, Utf8Error>) ensures (r is Ok) == (utf8(b@) is Some), r is Ok ==> r->Ok_0@ == utf8(b@)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub open spec fn both<A, B>(a: Option<A>, b: Option<B>, f: spec_fn(A, B) -> bool) -> bool { match (a, b) { (Some(x), Some(y)) => f(x, y), (None, None) => true, _ => false } }
pub open spec fn each<A, B>(a: Seq<A>, b: Seq<B>, f: spec_fn(A, B) -> bool) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> f(a[i], #[trigger] b[i]) }
// iterator chains over a vector, element by element
pub trait VxMap<T>: Sized {
    spec fn vx_seq(self) -> Seq<T>;
    fn vx_map<U, G: Fn(T) -> U>(self, f: G) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> f.requires((#[trigger] self.vx_seq()[i],))
        ensures r@.len() == self.vx_seq().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.vx_seq()[i],), #[trigger] r@[i]);
    // stops at the first refusal
    fn vx_map_try<U, E, G: Fn(T) -> Result<U, E>>(self, f: G) -> (r: Result<Vec<U>, E>)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> f.requires((#[trigger] self.vx_seq()[i],))
        ensures r matches Ok(v) ==> v@.len() == self.vx_seq().len() && forall|i: int| 0 <= i < v@.len() ==> f.ensures((self.vx_seq()[i],), Ok(#[trigger] v@[i])),
            r matches Err(e) ==> exists|i: int| 0 <= i < self.vx_seq().len() && f.ensures((#[trigger] self.vx_seq()[i],), Err(e));
}
impl<T> VxMap<T> for Vec<T> {
    open spec fn vx_seq(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_map<U, G: Fn(T) -> U>(self, f: G) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_map_try<U, E, G: Fn(T) -> Result<U, E>>(self, f: G) -> (r: Result<Vec<U>, E>) { unimplemented!() }
}
pub trait VxMapRef<T>: Sized {
    spec fn vx_refs(&self) -> Seq<T>;
    fn vx_map_ref<U, G: Fn(&T) -> U>(&self, f: G) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_refs().len() ==> f.requires((&#[trigger] self.vx_refs()[i],))
        ensures r@.len() == self.vx_refs().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self.vx_refs()[i],), #[trigger] r@[i]);
}
impl<T> VxMapRef<T> for Vec<T> {
    open spec fn vx_refs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_map_ref<U, G: Fn(&T) -> U>(&self, f: G) -> (r: Vec<U>) { unimplemented!() }
}
// the names of the scopes, in order, numbers that name no message type left out
pub open spec fn scope_names(s: Seq<i32>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let h = scope_names(s.drop_last()); match MessageType::of(s.last()) { Ok(t) => h.push(t.name()), Err(_) => h } }
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// `filter_map` over the scope numbers
#[verifier::external_body] pub fn vx_scopes<G: Fn(&i32) -> Option<String>>(s: &Vec<i32>, f: G) -> (r: Vec<String>)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)), forall|i: i32, k: Option<String>| #[trigger] f.ensures((&i,), k) ==> (match MessageType::of(i) { Ok(t) => k matches Some(n) && n@ == t.name(), Err(_) => k is None })
    ensures texts(r@) == scope_names(s@) { unimplemented!() }

pub open spec fn shows_cast_add(p: proto::CastAddBody, j: CastAddBody) -> bool {
    &&& j.embeds_deprecated == p.embeds_deprecated
    &&& j.mentions == p.mentions
    &&& j.text == p.text
    &&& j.mentions_positions == p.mentions_positions
    &&& match p.parent { Some(proto::cast_add_body::Parent::ParentCastId(c)) => j.parent_cast_id matches Some(y) && shows_cid(c, y) && j.parent_url is None, Some(proto::cast_add_body::Parent::ParentUrl(u)) => j.parent_cast_id is None && j.parent_url == Some(u), None => j.parent_cast_id is None && j.parent_url is None }
    &&& each(p.embeds@, j.embeds@, |e: proto::Embed, y: EmbedUrlOrCastId| shows_embedded(e, y))
    &&& CastType::of(p.r#type) matches Ok(t) && j.cast_type@ == t.name()
}
pub open spec fn shows_cast_add_ok(p: proto::CastAddBody) -> bool { CastType::of(p.r#type) is Ok }
pub open spec fn shows_cid(c: proto::CastId, y: CastId) -> bool { y.fid == c.fid && y.hash@ == hex0(c.hash@) }
pub open spec fn shows_embedded(e: proto::Embed, y: EmbedUrlOrCastId) -> bool { match e.embed {
    Some(embed::Embed::CastId(c)) => y matches EmbedUrlOrCastId::CastId(k) && shows_cid(c, k.cast_id), Some(embed::Embed::Url(u)) => y matches EmbedUrlOrCastId::Url(k) && k.url@ == u@, None => y matches EmbedUrlOrCastId::Url(k) && k.url@ == ""@ } }
pub open spec fn shows_cast_remove(p: proto::CastRemoveBody, j: CastRemoveBody) -> bool {
    &&& j.target_hash == p.target_hash
}
pub open spec fn shows_cast_remove_ok(p: proto::CastRemoveBody) -> bool { true }
pub open spec fn shows_reaction(p: proto::ReactionBody, j: ReactionBody) -> bool {
    &&& ReactionType::of(p.r#type) matches Ok(t) && j.reaction_type@ == t.name()
    &&& match p.target { Some(proto::reaction_body::Target::TargetCastId(c)) => j.target_cast_id matches Some(y) && shows_cid(c, y) && j.target_url is None, Some(proto::reaction_body::Target::TargetUrl(u)) => j.target_cast_id is None && j.target_url == Some(u), None => j.target_cast_id is None && j.target_url is None }
}
pub open spec fn shows_reaction_ok(p: proto::ReactionBody) -> bool { ReactionType::of(p.r#type) is Ok }
pub open spec fn shows_verification_add(p: proto::VerificationAddAddressBody, j: VerificationAddAddressBody) -> bool {
    &&& j.address@ == (if p.protocol == 0 { hex0(p.address@) } else { b58(p.address@) })
    &&& j.block_hash@ == (if p.protocol == 0 { hex0(p.block_hash@) } else { b58(p.block_hash@) })
    &&& Protocol::of(p.protocol) matches Ok(t) && j.protocol@ == t.name()
    &&& j.claim_signature == p.claim_signature
    &&& j.verification_type == p.verification_type
    &&& j.chain_id == p.chain_id
}
pub open spec fn shows_verification_add_ok(p: proto::VerificationAddAddressBody) -> bool { Protocol::of(p.protocol) is Ok }
pub open spec fn shows_verification_remove(p: proto::VerificationRemoveBody, j: VerificationRemoveBody) -> bool {
    &&& j.address@ == (if p.protocol == 0 { hex0(p.address@) } else { b58(p.address@) })
    &&& Protocol::of(p.protocol) matches Ok(t) && j.protocol@ == t.name()
}
pub open spec fn shows_verification_remove_ok(p: proto::VerificationRemoveBody) -> bool { Protocol::of(p.protocol) is Ok }
pub open spec fn shows_user_data(p: proto::UserDataBody, j: UserDataBody) -> bool {
    &&& UserDataType::of(p.r#type) matches Ok(t) && j.user_data_type@ == t.name()
    &&& j.value == p.value
}
pub open spec fn shows_user_data_ok(p: proto::UserDataBody) -> bool { UserDataType::of(p.r#type) is Ok }
pub open spec fn shows_link(p: proto::LinkBody, j: LinkBody) -> bool {
    &&& j.link_type == p.r#type
    &&& j.display_timestamp == p.display_timestamp
    &&& p.target == Some(Target::TargetFid(j.target_fid))
}
pub open spec fn shows_link_ok(p: proto::LinkBody) -> bool { p.target is Some }
pub open spec fn shows_link_compact(p: proto::LinkCompactStateBody, j: LinkCompactStateBody) -> bool {
    &&& j.link_compact_type == p.r#type
    &&& j.target_fids == p.target_fids
}
pub open spec fn shows_link_compact_ok(p: proto::LinkCompactStateBody) -> bool { true }
pub open spec fn shows_name_proof(p: proto::UserNameProof, j: UsernameProofBody) -> bool {
    &&& UserNameType::of(p.r#type) matches Ok(t) && j.username_proof_type@ == t.name()
    &&& utf8(p.name@) == Some(j.name@)
    &&& j.owner@ == hex0(p.owner@)
    &&& j.timestamp == p.timestamp
    &&& j.signature == p.signature
    &&& j.fid == p.fid
}
pub open spec fn shows_name_proof_ok(p: proto::UserNameProof) -> bool { UserNameType::of(p.r#type) is Ok && utf8(p.name@) is Some }
pub open spec fn shows_frame(p: proto::FrameActionBody, j: FrameActionBody) -> bool {
    &&& j.url == p.url
    &&& j.button_index == p.button_index
    &&& j.input_text == p.input_text
    &&& j.state == p.state
    &&& j.transaction_id == p.transaction_id
    &&& j.address == p.address
    &&& both(p.cast_id, j.cast_id, |c: proto::CastId, y: CastId| shows_cid(c, y))
}
pub open spec fn shows_frame_ok(p: proto::FrameActionBody) -> bool { true }
pub open spec fn shows_lend(p: proto::LendStorageBody, j: LendStorageBody) -> bool {
    &&& j.to_fid == p.to_fid
    &&& j.num_units == p.num_units
    &&& j.unit_type as i32 == (if p.unit_type == 1 || p.unit_type == 2 { p.unit_type } else { 0 })
}
pub open spec fn shows_lend_ok(p: proto::LendStorageBody) -> bool { true }
pub open spec fn shows_key_add(p: proto::KeyAddBody, j: KeyAddBody) -> bool {
    &&& j.key == p.key
    &&& j.key_type == p.key_type
    &&& j.custody_signature == p.custody_signature
    &&& j.deadline == p.deadline
    &&& j.nonce == p.nonce
    &&& j.metadata == p.metadata
    &&& j.metadata_type == p.metadata_type
    &&& j.registration_tx_hash == p.registration_tx_hash
    &&& j.ttl == p.ttl
    &&& texts(j.scopes@) == scope_names(p.scopes@)
}
pub open spec fn shows_key_add_ok(p: proto::KeyAddBody) -> bool { true }
pub open spec fn shows_key_remove(p: proto::KeyRemoveBody, j: KeyRemoveBody) -> bool {
    &&& j.key == p.key
    &&& j.signature == p.signature
    &&& j.signature_type == p.signature_type
    &&& j.deadline == p.deadline
    &&& j.nonce == p.nonce
}
pub open spec fn shows_key_remove_ok(p: proto::KeyRemoveBody) -> bool { true }
pub open spec fn shows_channel_update(p: proto::ChannelUpdateBody, j: ChannelUpdateBody) -> bool {
    &&& j.channel_id == p.channel_id
    &&& j.name == p.name
    &&& j.description == p.description
    &&& j.image_url == p.image_url
    &&& j.header == p.header
    &&& j.rules == p.rules
    &&& both(p.casting_mode, j.casting_mode, |n: i32, y: CastingMode| y as i32 == n)
    &&& both(p.membership_mode, j.membership_mode, |n: i32, y: MembershipMode| y as i32 == n)
}
pub open spec fn shows_channel_update_ok(p: proto::ChannelUpdateBody) -> bool { (p.casting_mode matches Some(n) ==> 0 <= n <= 3) && (p.membership_mode matches Some(n) ==> 0 <= n <= 2) }
pub open spec fn shows_channel_member(p: proto::ChannelMemberBody, j: ChannelMemberBody) -> bool {
    &&& j.channel_id == p.channel_id
    &&& j.fid == p.fid
    &&& j.action as i32 == p.action
}
pub open spec fn shows_channel_member_ok(p: proto::ChannelMemberBody) -> bool { 0 <= p.action <= 6 }
pub open spec fn shows_channel_pin(p: proto::ChannelPinBody, j: ChannelPinBody) -> bool {
    &&& j.channel_id == p.channel_id
    &&& j.cast_hash == p.cast_hash
}
pub open spec fn shows_channel_pin_ok(p: proto::ChannelPinBody) -> bool { true }
pub open spec fn shows_channel_moderate(p: proto::ChannelModerateBody, j: ChannelModerateBody) -> bool {
    &&& j.channel_id == p.channel_id
    &&& j.cast_hash == p.cast_hash
    &&& j.action as i32 == p.action
}
pub open spec fn shows_channel_moderate_ok(p: proto::ChannelModerateBody) -> bool { 0 <= p.action <= 2 }
pub open spec fn shows_header(t: i32, fid: u64, ts: u32, n: i32, j: MessageData) -> bool {
    &&& MessageType::of(t) matches Ok(k) && j.message_type@ == k.name()
    &&& FarcasterNetwork::of(n) matches Ok(k) && j.network@ == k.name()
    &&& j.fid == fid && j.timestamp == ts
}
pub open spec fn shows_header_ok(t: i32, n: i32) -> bool { MessageType::of(t) is Ok && FarcasterNetwork::of(n) is Ok }
pub open spec fn place_cast_add(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::CastAddBody(x)) => j.cast_add_body matches Some(y) && shows_cast_add(x, y), _ => j.cast_add_body is None } }
pub open spec fn place_cast_remove(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::CastRemoveBody(x)) => j.cast_remove_body matches Some(y) && shows_cast_remove(x, y), _ => j.cast_remove_body is None } }
pub open spec fn place_reaction(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::ReactionBody(x)) => j.reaction_body matches Some(y) && shows_reaction(x, y), _ => j.reaction_body is None } }
pub open spec fn place_verification_add(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::VerificationAddAddressBody(x)) => j.verification_add_address_body matches Some(y) && shows_verification_add(x, y), _ => j.verification_add_address_body is None } }
pub open spec fn place_verification_remove(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::VerificationRemoveBody(x)) => j.verification_remove_body matches Some(y) && shows_verification_remove(x, y), _ => j.verification_remove_body is None } }
pub open spec fn place_user_data(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::UserDataBody(x)) => j.user_data_body matches Some(y) && shows_user_data(x, y), _ => j.user_data_body is None } }
pub open spec fn place_link(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::LinkBody(x)) => j.link_body matches Some(y) && shows_link(x, y), _ => j.link_body is None } }
pub open spec fn place_name_proof(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::UsernameProofBody(x)) => j.username_proof_body matches Some(y) && shows_name_proof(x, y), _ => j.username_proof_body is None } }
pub open spec fn place_frame(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::FrameActionBody(x)) => j.frame_action_body matches Some(y) && shows_frame(x, y), _ => j.frame_action_body is None } }
pub open spec fn place_link_compact(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::LinkCompactStateBody(x)) => j.link_compact_state_body matches Some(y) && shows_link_compact(x, y), _ => j.link_compact_state_body is None } }
pub open spec fn place_lend(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::LendStorageBody(x)) => j.lend_storage_body matches Some(y) && shows_lend(x, y), _ => j.lend_storage_body is None } }
pub open spec fn place_key_add(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::KeyAddBody(x)) => j.key_add_body matches Some(y) && shows_key_add(x, y), _ => j.key_add_body is None } }
pub open spec fn place_key_remove(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::KeyRemoveBody(x)) => j.key_remove_body matches Some(y) && shows_key_remove(x, y), _ => j.key_remove_body is None } }
pub open spec fn place_channel_update(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::ChannelUpdateBody(x)) => j.channel_update_body matches Some(y) && shows_channel_update(x, y), _ => j.channel_update_body is None } }
pub open spec fn place_channel_member(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::ChannelMemberBody(x)) => j.channel_member_body matches Some(y) && shows_channel_member(x, y), _ => j.channel_member_body is None } }
pub open spec fn place_channel_pin(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::ChannelPinBody(x)) => j.channel_pin_body matches Some(y) && shows_channel_pin(x, y), _ => j.channel_pin_body is None } }
pub open spec fn place_channel_moderate(b: Option<Body>, j: MessageData) -> bool { match b { Some(Body::ChannelModerateBody(x)) => j.channel_moderate_body matches Some(y) && shows_channel_moderate(x, y), _ => j.channel_moderate_body is None } }
pub open spec fn shows_empty(j: MessageData) -> bool { j.cast_add_body is None && j.cast_remove_body is None && j.reaction_body is None && j.verification_add_address_body is None && j.verification_remove_body is None && j.user_data_body is None && j.link_body is None && j.username_proof_body is None && j.frame_action_body is None && j.link_compact_state_body is None && j.lend_storage_body is None && j.key_add_body is None && j.key_remove_body is None && j.channel_update_body is None && j.channel_member_body is None && j.channel_pin_body is None && j.channel_moderate_body is None }
pub open spec fn body_ok(b: Option<Body>) -> bool { match b { Some(Body::CastAddBody(x)) => shows_cast_add_ok(x), Some(Body::CastRemoveBody(x)) => shows_cast_remove_ok(x), Some(Body::ReactionBody(x)) => shows_reaction_ok(x), Some(Body::VerificationAddAddressBody(x)) => shows_verification_add_ok(x), Some(Body::VerificationRemoveBody(x)) => shows_verification_remove_ok(x), Some(Body::UserDataBody(x)) => shows_user_data_ok(x), Some(Body::LinkBody(x)) => shows_link_ok(x), Some(Body::UsernameProofBody(x)) => shows_name_proof_ok(x), Some(Body::FrameActionBody(x)) => shows_frame_ok(x), Some(Body::LinkCompactStateBody(x)) => shows_link_compact_ok(x), Some(Body::LendStorageBody(x)) => shows_lend_ok(x), Some(Body::KeyAddBody(x)) => shows_key_add_ok(x), Some(Body::KeyRemoveBody(x)) => shows_key_remove_ok(x), Some(Body::ChannelUpdateBody(x)) => shows_channel_update_ok(x), Some(Body::ChannelMemberBody(x)) => shows_channel_member_ok(x), Some(Body::ChannelPinBody(x)) => shows_channel_pin_ok(x), Some(Body::ChannelModerateBody(x)) => shows_channel_moderate_ok(x), None => false } }
pub open spec fn shows_data(p: proto::MessageData, j: MessageData) -> bool {
    &&& shows_header(p.r#type, p.fid, p.timestamp, p.network, j)
    &&& place_cast_add(p.body, j)
    &&& place_cast_remove(p.body, j)
    &&& place_reaction(p.body, j)
    &&& place_verification_add(p.body, j)
    &&& place_verification_remove(p.body, j)
    &&& place_user_data(p.body, j)
    &&& place_link(p.body, j)
    &&& place_name_proof(p.body, j)
    &&& place_frame(p.body, j)
    &&& place_link_compact(p.body, j)
    &&& place_lend(p.body, j)
    &&& place_key_add(p.body, j)
    &&& place_key_remove(p.body, j)
    &&& place_channel_update(p.body, j)
    &&& place_channel_member(p.body, j)
    &&& place_channel_pin(p.body, j)
    &&& place_channel_moderate(p.body, j)
}
pub open spec fn shows_data_ok(p: proto::MessageData) -> bool { shows_header_ok(p.r#type, p.network) && body_ok(p.body) }
pub open spec fn shows_msg(p: proto::Message, j: Message) -> bool {
    &&& p.data matches Some(d) && shows_data(d, j.data)
    &&& j.hash@ == hex0(p.hash@) && j.signer@ == hex0(p.signer@) && j.signature == p.signature
    &&& HashScheme::of(p.hash_scheme) matches Ok(t) && j.hash_scheme@ == t.name()
    &&& SignatureScheme::of(p.signature_scheme) matches Ok(t) && j.signature_scheme@ == t.name()
}
pub open spec fn shows_msg_ok(p: proto::Message) -> bool { (p.data matches Some(d) && shows_data_ok(d)) && HashScheme::of(p.hash_scheme) is Ok && SignatureScheme::of(p.signature_scheme) is Ok }
pub open spec fn shows_msgs(p: Seq<proto::Message>, j: Seq<Message>) -> bool { each(p, j, |a: proto::Message, b: Message| shows_msg(a, b)) }
pub open spec fn shows_msgs_ok(p: Seq<proto::Message>) -> bool { forall|i: int| 0 <= i < p.len() ==> shows_msg_ok(#[trigger] p[i]) }
pub open spec fn known(n: i32, top: i32) -> i32 { if 0 <= n && n <= top { n } else { 0 } }

//@fn src/network/http_server.rs::map_proto_cast_add_body_to_json_cast_add_body -> r
    ensures (r is Ok) == shows_cast_add_ok(cast_add_body), r matches Ok(j) ==> shows_cast_add(cast_add_body, j)
//@closure 0 || -> (k: Option<CastId>) ensures k is None
//@closure 1 |vx_p: proto::cast_add_body::Parent| -> (k: Option<CastId>) ensures (match vx_p { proto::cast_add_body::Parent::ParentCastId(c) => k matches Some(y) && shows_cid(c, y), proto::cast_add_body::Parent::ParentUrl(_) => k is None })
//@closure 2 || -> (k: Option<String>) ensures k is None
//@closure 3 |vx_p: proto::cast_add_body::Parent| -> (k: Option<String>) ensures (match vx_p { proto::cast_add_body::Parent::ParentCastId(_) => k is None, proto::cast_add_body::Parent::ParentUrl(u) => k == Some(u) })
//@closure 4 |vx_p: &proto::Embed| -> (k: EmbedUrlOrCastId) ensures shows_embedded(*vx_p, k)
//@closure 5 |vx_p: CastType| -> (k: String) ensures k@ == vx_p.name()
//@rw `cast_add_body.parent.clone()` => `vx_same(&cast_add_body.parent)`
//@rw `format!("0x{}", hex::encode(cast_id.hash))` => `vx_hex0(cast_id.hash)`
//@rw `format!("0x{}", hex::encode(cast_id.hash.clone()))` => `vx_hex0(&cast_id.hash)`
//@rw `.iter().map` => `.vx_map_ref`
//@rw `.collect()` => ``
//@rw `url.to_string()` => `vx_same(url)`
//@endfn
//@fn src/network/http_server.rs::map_proto_link_body_to_json_link_body -> r
    ensures (r is Ok) == shows_link_ok(link_body), r matches Ok(j) ==> shows_link(link_body, j)
//@closure 0 || -> (k: Result<u64, ErrorResponse>) ensures k is Err
//@closure 1 |vx_p: Target| -> (k: Result<u64, ErrorResponse>) ensures Ok::<Target, ErrorResponse>(vx_p) == (match k { Ok(f) => Ok::<Target, ErrorResponse>(Target::TargetFid(f)), Err(e) => Err(e) })
//@rw `link_body.r#type` => `link_body.r#type`
//@endfn
//@fn src/network/http_server.rs::map_proto_link_compact_body_to_json_link_compact_body -> r
    ensures (r is Ok) == shows_link_compact_ok(link_compact_body), r matches Ok(j) ==> shows_link_compact(link_compact_body, j)
//@endfn
//@fn src/network/http_server.rs::map_proto_reaction_body_to_json_reaction_body -> r
    ensures (r is Ok) == shows_reaction_ok(reaction_body), r matches Ok(j) ==> shows_reaction(reaction_body, j)
//@closure 1 || -> (k: Option<CastId>) ensures k is None
//@closure 2 |vx_p: proto::reaction_body::Target| -> (k: Option<CastId>) ensures (match vx_p { proto::reaction_body::Target::TargetCastId(c) => k matches Some(y) && shows_cid(c, y), proto::reaction_body::Target::TargetUrl(_) => k is None })
//@closure 3 || -> (k: Option<String>) ensures k is None
//@closure 4 |vx_p: proto::reaction_body::Target| -> (k: Option<String>) ensures (match vx_p { proto::reaction_body::Target::TargetCastId(_) => k is None, proto::reaction_body::Target::TargetUrl(u) => k == Some(u) })
//@rw `reaction_body.target.clone()` => `vx_same(&reaction_body.target)`
//@rw `format!("0x{}", hex::encode(cast_id.hash))` => `vx_hex0(cast_id.hash)`
//@endfn
//@fn src/network/http_server.rs::map_proto_user_data_body_to_json_user_data_body -> r
    ensures (r is Ok) == shows_user_data_ok(user_data_body), r matches Ok(j) ==> shows_user_data(user_data_body, j)
//@endfn
//@fn src/network/http_server.rs::map_proto_username_proof_body_to_json_username_proof_body -> r
    ensures (r is Ok) == shows_name_proof_ok(username_proof_body), r matches Ok(j) ==> shows_name_proof(username_proof_body, j)
//@rw `std::str::from_utf8(&username_proof_body.name)` => `vx_utf8(&username_proof_body.name)`
//@rw `format!("0x{}", hex::encode(username_proof_body.owner))` => `vx_hex0(username_proof_body.owner)`
//@endfn
//@fn src/network/http_server.rs::map_proto_verification_add_body_to_json_verification_add_body -> r
    ensures (r is Ok) == shows_verification_add_ok(verification_add_address_body), r matches Ok(j) ==> shows_verification_add(verification_add_address_body, j)
//@rw `format!("0x{}", hex::encode(verification_add_address_body.address))` => `vx_hex0(verification_add_address_body.address)`
//@rw `bs58::encode(verification_add_address_body.address).into_string()` => `vx_b58(verification_add_address_body.address)`
//@rw `format!("0x{}", hex::encode(verification_add_address_body.block_hash))` => `vx_hex0(verification_add_address_body.block_hash)`
//@rw `bs58::encode(verification_add_address_body.block_hash).into_string()` => `vx_b58(verification_add_address_body.block_hash)`
//@endfn
//@fn src/network/http_server.rs::map_proto_verification_remove_body_to_json_verification_remove_body -> r
    ensures (r is Ok) == shows_verification_remove_ok(verification_remove_body), r matches Ok(j) ==> shows_verification_remove(verification_remove_body, j)
//@rw `format!("0x{}", hex::encode(verification_remove_body.address))` => `vx_hex0(verification_remove_body.address)`
//@rw `bs58::encode(verification_remove_body.address).into_string()` => `vx_b58(verification_remove_body.address)`
//@endfn
//@fn src/network/http_server.rs::map_proto_lend_storage_body_to_json_lend_storage_body -> r
    ensures (r is Ok) == shows_lend_ok(lend_storage_body), r matches Ok(j) ==> shows_lend(lend_storage_body, j)
//@endfn
//@fn src/network/http_server.rs::map_proto_key_add_body_to_json_key_add_body -> r
    ensures (r is Ok) == shows_key_add_ok(key_add_body), r matches Ok(j) ==> shows_key_add(key_add_body, j)
//@rw `key_add_body.scopes.iter().filter_map(` => `vx_scopes(&key_add_body.scopes, `
//@rw `.collect()` => ``
//@closure 0 |vx_p: &i32| -> (k: Option<String>) ensures (match MessageType::of(*vx_p) { Ok(t) => k matches Some(n) && n@ == t.name(), Err(_) => k is None })
//@closure 1 |vx_p: MessageType| -> (k: String) ensures k@ == vx_p.name()
//@endfn
//@fn src/network/http_server.rs::map_proto_key_remove_body_to_json_key_remove_body -> r
    ensures (r is Ok) == shows_key_remove_ok(key_remove_body), r matches Ok(j) ==> shows_key_remove(key_remove_body, j)
//@endfn
//@fn src/network/http_server.rs::map_proto_casting_mode_to_json_casting_mode -> r
    ensures (r is Ok) == (0 <= casting_mode <= 3), r matches Ok(j) ==> j as i32 == casting_mode
//@endfn
//@fn src/network/http_server.rs::map_proto_membership_mode_to_json_membership_mode -> r
    ensures (r is Ok) == (0 <= membership_mode <= 2), r matches Ok(j) ==> j as i32 == membership_mode
//@endfn
//@fn src/network/http_server.rs::map_proto_channel_member_action_to_json_channel_member_action -> r
    ensures (r is Ok) == (0 <= action <= 6), r matches Ok(j) ==> j as i32 == action
//@endfn
//@fn src/network/http_server.rs::map_proto_channel_moderate_action_to_json_channel_moderate_action -> r
    ensures (r is Ok) == (0 <= action <= 2), r matches Ok(j) ==> j as i32 == action
//@endfn
//@fn src/network/http_server.rs::map_proto_channel_update_body_to_json_channel_update_body -> r
    ensures (r is Ok) == shows_channel_update_ok(body), r matches Ok(j) ==> shows_channel_update(body, j)
//@rw `.map(map_proto_casting_mode_to_json_casting_mode)` => `.map(|v: i32| -> (k: Result<CastingMode, ErrorResponse>) ensures (k is Ok) == (0 <= v <= 3), k matches Ok(j) ==> j as i32 == v { map_proto_casting_mode_to_json_casting_mode(v) })`
//@rw `.map(map_proto_membership_mode_to_json_membership_mode)` => `.map(|v: i32| -> (k: Result<MembershipMode, ErrorResponse>) ensures (k is Ok) == (0 <= v <= 2), k matches Ok(j) ==> j as i32 == v { map_proto_membership_mode_to_json_membership_mode(v) })`
//@endfn
//@fn src/network/http_server.rs::map_proto_channel_member_body_to_json_channel_member_body -> r
    ensures (r is Ok) == shows_channel_member_ok(body), r matches Ok(j) ==> shows_channel_member(body, j)
//@endfn
//@fn src/network/http_server.rs::map_proto_channel_pin_body_to_json_channel_pin_body -> r
    ensures shows_channel_pin(body, r)
//@endfn
//@fn src/network/http_server.rs::map_proto_channel_moderate_body_to_json_channel_moderate_body -> r
    ensures (r is Ok) == shows_channel_moderate_ok(body), r matches Ok(j) ==> shows_channel_moderate(body, j)
//@endfn
//@fn src/network/http_server.rs::map_proto_message_data_without_body -> r
    ensures (r is Ok) == shows_header_ok(message_type, network), r matches Ok(j) ==> shows_header(message_type, fid, timestamp, network, j) && shows_empty(j)
//@endfn
//@fn src/network/http_server.rs::map_proto_message_data_to_json_message_data -> r
    ensures (r is Ok) == shows_data_ok(message_data), r matches Ok(j) ==> shows_header(message_data.r#type, message_data.fid, message_data.timestamp, message_data.network, j),
        r matches Ok(j) ==> place_cast_add(message_data.body, j),
        r matches Ok(j) ==> place_cast_remove(message_data.body, j),
        r matches Ok(j) ==> place_reaction(message_data.body, j),
        r matches Ok(j) ==> place_verification_add(message_data.body, j),
        r matches Ok(j) ==> place_verification_remove(message_data.body, j),
        r matches Ok(j) ==> place_user_data(message_data.body, j),
        r matches Ok(j) ==> place_link(message_data.body, j),
        r matches Ok(j) ==> place_name_proof(message_data.body, j),
        r matches Ok(j) ==> place_frame(message_data.body, j),
        r matches Ok(j) ==> place_link_compact(message_data.body, j),
        r matches Ok(j) ==> place_lend(message_data.body, j),
        r matches Ok(j) ==> place_key_add(message_data.body, j),
        r matches Ok(j) ==> place_key_remove(message_data.body, j),
        r matches Ok(j) ==> place_channel_update(message_data.body, j),
        r matches Ok(j) ==> place_channel_member(message_data.body, j),
        r matches Ok(j) ==> place_channel_pin(message_data.body, j),
        r matches Ok(j) ==> place_channel_moderate(message_data.body, j)
//@rw `format!("0x{}", hex::encode(cast_id.hash))` => `vx_hex0(cast_id.hash)`
//@closure 6 |vx_p: proto::CastId| -> (k: CastId) ensures shows_cid(vx_p, k)
//@endfn
//@fn src/network/http_server.rs::map_proto_message_to_json_message -> r
    ensures (r is Ok) == shows_msg_ok(message), r matches Ok(j) ==> shows_msg(message, j)
//@rw `format!("0x{}", hex::encode(message.hash))` => `vx_hex0(message.hash)`
//@rw `format!("0x{}", hex::encode(message.signer))` => `vx_hex0(message.signer)`
//@endfn

pub open spec fn shows_page(p: proto::MessagesResponse, j: PagedResponse) -> bool {
    &&& shows_msgs(p.messages@, j.messages@)
    &&& j.next_page_token matches Some(t) && t@ == (match p.next_page_token { Some(b) => b64(b@), None => ""@ })
}
//@fn src/network/http_server.rs::map_proto_messages_response_to_json_paged_response -> r
    requires shows_msgs_ok(messages_response.messages@)
    ensures r matches Ok(j) && shows_page(messages_response, j)
//@rw `.iter().map` => `.vx_map_ref`
//@rw `.collect()` => ``
//@rw `m.clone()` => `vx_same(m)`
//@closure 0 |vx_p: &proto::Message| -> (k: Message) requires shows_msg_ok(*vx_p) ensures shows_msg(*vx_p, k)
//@closure 1 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@closure 2 || -> (k: String) ensures k@ == ""@
//@rw `BASE64_STANDARD.encode(t)` => `vx_b64(t)`
//@endfn
pub open spec fn chain_channel_register_event_body(p: proto::ChannelRegisterBody, j: ChannelRegisterEventBody) -> bool { j.channel_key@ == p.channel_key@ && j.expiry == p.expiry && j.owner_address@ == p.owner_address@ && j.label@ == p.label@ && j.event_type as i32 == known(p.event_type, 3) }
pub open spec fn chain_place_channel_register_event_body(b: Option<on_chain_event::Body>, j: OnChainEvent) -> bool { match b { Some(on_chain_event::Body::ChannelRegisterEventBody(x)) => j.channel_register_event_body matches Some(y) && chain_channel_register_event_body(x, y), _ => j.channel_register_event_body is None } }
pub open spec fn chain_signer_event_body(p: proto::SignerEventBody, j: SignerEventBody) -> bool { j.key@ == p.key@ && j.key_type == p.key_type && j.metadata@ == p.metadata@ && j.metadata_type == p.metadata_type && j.event_type as i32 == known(p.event_type, 3) }
pub open spec fn chain_place_signer_event_body(b: Option<on_chain_event::Body>, j: OnChainEvent) -> bool { match b { Some(on_chain_event::Body::SignerEventBody(x)) => j.signer_event_body matches Some(y) && chain_signer_event_body(x, y), _ => j.signer_event_body is None } }
pub open spec fn chain_signer_migrated_event_body(p: proto::SignerMigratedEventBody, j: SignerMigratedEventBody) -> bool { j.migrated_at == p.migrated_at }
pub open spec fn chain_place_signer_migrated_event_body(b: Option<on_chain_event::Body>, j: OnChainEvent) -> bool { match b { Some(on_chain_event::Body::SignerMigratedEventBody(x)) => j.signer_migrated_event_body matches Some(y) && chain_signer_migrated_event_body(x, y), _ => j.signer_migrated_event_body is None } }
pub open spec fn chain_id_register_event_body(p: proto::IdRegisterEventBody, j: IdRegisterEventBody) -> bool { j.to@ == p.to@ && j.from@ == p.from@ && j.recovery_address@ == p.recovery_address@ && j.event_type as i32 == known(p.event_type, 3) }
pub open spec fn chain_place_id_register_event_body(b: Option<on_chain_event::Body>, j: OnChainEvent) -> bool { match b { Some(on_chain_event::Body::IdRegisterEventBody(x)) => j.id_register_event_body matches Some(y) && chain_id_register_event_body(x, y), _ => j.id_register_event_body is None } }
pub open spec fn chain_storage_rent_event_body(p: proto::StorageRentEventBody, j: StorageRentEventBody) -> bool { j.payer@ == p.payer@ && j.units == p.units && j.expiry == p.expiry }
pub open spec fn chain_place_storage_rent_event_body(b: Option<on_chain_event::Body>, j: OnChainEvent) -> bool { match b { Some(on_chain_event::Body::StorageRentEventBody(x)) => j.storage_rent_event_body matches Some(y) && chain_storage_rent_event_body(x, y), _ => j.storage_rent_event_body is None } }
pub open spec fn chain_tier_purchase_event_body(p: proto::TierPurchaseBody, j: TierPurchaseEventBody) -> bool { j.payer@ == p.payer@ && j.for_days == p.for_days && j.tier_type as i32 == known(p.tier_type, 1) }
pub open spec fn chain_place_tier_purchase_event_body(b: Option<on_chain_event::Body>, j: OnChainEvent) -> bool { match b { Some(on_chain_event::Body::TierPurchaseEventBody(x)) => j.tier_purchase_event_body matches Some(y) && chain_tier_purchase_event_body(x, y), _ => j.tier_purchase_event_body is None } }
pub open spec fn shows_chain(p: proto::OnChainEvent, j: OnChainEvent) -> bool {
    &&& j.r#type as i32 == known(p.r#type, 6)
    &&& j.chain_id == p.chain_id
    &&& j.block_number == p.block_number
    &&& j.block_hash@ == p.block_hash@
    &&& j.block_timestamp == p.block_timestamp
    &&& j.transaction_hash@ == p.transaction_hash@
    &&& j.log_index == p.log_index
    &&& j.fid == p.fid
    &&& j.tx_index == p.tx_index
    &&& j.version == p.version
    &&& chain_place_channel_register_event_body(p.body, j)
    &&& chain_place_signer_event_body(p.body, j)
    &&& chain_place_signer_migrated_event_body(p.body, j)
    &&& chain_place_id_register_event_body(p.body, j)
    &&& chain_place_storage_rent_event_body(p.body, j)
    &&& chain_place_tier_purchase_event_body(p.body, j)
}
//@fn src/network/http_server.rs::map_proto_on_chain_event_to_json_on_chain_event -> r
    ensures r is Ok, r matches Ok(j) ==> j.r#type as i32 == known(onchain_event.r#type, 6),
        r matches Ok(j) ==> j.chain_id == onchain_event.chain_id,
        r matches Ok(j) ==> j.block_number == onchain_event.block_number,
        r matches Ok(j) ==> j.block_hash@ == onchain_event.block_hash@,
        r matches Ok(j) ==> j.block_timestamp == onchain_event.block_timestamp,
        r matches Ok(j) ==> j.transaction_hash@ == onchain_event.transaction_hash@,
        r matches Ok(j) ==> j.log_index == onchain_event.log_index,
        r matches Ok(j) ==> j.fid == onchain_event.fid,
        r matches Ok(j) ==> j.tx_index == onchain_event.tx_index,
        r matches Ok(j) ==> j.version == onchain_event.version,
        r matches Ok(j) ==> chain_place_channel_register_event_body(onchain_event.body, j),
        r matches Ok(j) ==> chain_place_signer_event_body(onchain_event.body, j),
        r matches Ok(j) ==> chain_place_signer_migrated_event_body(onchain_event.body, j),
        r matches Ok(j) ==> chain_place_id_register_event_body(onchain_event.body, j),
        r matches Ok(j) ==> chain_place_storage_rent_event_body(onchain_event.body, j),
        r matches Ok(j) ==> chain_place_tier_purchase_event_body(onchain_event.body, j)
//@rw `body.channel_key.clone()` => `vx_same(&body.channel_key)`
//@rw `body.from.clone()` => `vx_same(&body.from)`
//@rw `body.key.clone()` => `vx_same(&body.key)`
//@rw `body.label.clone()` => `vx_same(&body.label)`
//@rw `body.metadata.clone()` => `vx_same(&body.metadata)`
//@rw `body.owner_address.clone()` => `vx_same(&body.owner_address)`
//@rw `body.payer.clone()` => `vx_same(&body.payer)`
//@rw `body.recovery_address.clone()` => `vx_same(&body.recovery_address)`
//@rw `body.to.clone()` => `vx_same(&body.to)`
//@rw `onchain_event.block_hash.clone()` => `vx_same(&onchain_event.block_hash)`
//@rw `onchain_event.transaction_hash.clone()` => `vx_same(&onchain_event.transaction_hash)`
//@endfn
pub open spec fn shows_signer(p: proto::Signer, j: Signer) -> bool {
    &&& j.source as i32 == known(p.source, 2)
    &&& j.key == p.key
    &&& j.key_type == p.key_type
    &&& j.fid == p.fid
    &&& j.added_at == p.added_at
    &&& j.last_used_at == p.last_used_at
    &&& j.ttl == p.ttl
    &&& j.expires_at == p.expires_at
    &&& j.request_fid == p.request_fid
    &&& j.nonce == p.nonce
    &&& texts(j.scopes@) == scope_names(p.scopes@)
    &&& both(p.onchain_event, j.onchain_event, |a: proto::OnChainEvent, b: OnChainEvent| shows_chain(a, b))
}
pub open spec fn shows_signer_ok(p: proto::Signer) -> bool { true }
//@fn src/network/http_server.rs::map_proto_signer_to_json_signer -> r
    ensures r matches Ok(j) && shows_signer(proto_signer, j)
//@rw `proto_signer.scopes.iter().filter_map(` => `vx_scopes(&proto_signer.scopes, `
//@rw `.collect()` => ``
//@closure 0 |vx_p: &i32| -> (k: Option<String>) ensures (match MessageType::of(*vx_p) { Ok(t) => k matches Some(n) && n@ == t.name(), Err(_) => k is None })
//@closure 1 |vx_p: MessageType| -> (k: String) ensures k@ == vx_p.name()
//@endfn
pub open spec fn hub_place_merge_message_body(p: Option<hub_event::Body>, j: HubEvent) -> bool { match p { Some(hub_event::Body::MergeMessageBody(b)) => (b.message matches Some(m) ==> j.merge_message_body matches Some(y) && shows_msg(m, y.message) && shows_msgs(b.deleted_messages@, y.deleted_messages@)) && (b.message is None ==> j.merge_message_body is None), _ => j.merge_message_body is None } }
pub open spec fn hub_place_prune_message_body(p: Option<hub_event::Body>, j: HubEvent) -> bool { match p { Some(hub_event::Body::PruneMessageBody(b)) => (b.message matches Some(m) ==> j.prune_message_body matches Some(y) && shows_msg(m, y.message)) && (b.message is None ==> j.prune_message_body is None), _ => j.prune_message_body is None } }
pub open spec fn hub_place_revoke_message_body(p: Option<hub_event::Body>, j: HubEvent) -> bool { match p { Some(hub_event::Body::RevokeMessageBody(b)) => (b.message matches Some(m) ==> j.revoke_message_body matches Some(y) && shows_msg(m, y.message)) && (b.message is None ==> j.revoke_message_body is None), _ => j.revoke_message_body is None } }
pub open spec fn hub_place_merge_username_proof_body(p: Option<hub_event::Body>, j: HubEvent) -> bool { match p { Some(hub_event::Body::MergeUsernameProofBody(b)) => (j.merge_username_proof_body matches Some(y) && both(b.username_proof, y.username_proof, |a: proto::UserNameProof, b: UsernameProofBody| shows_name_proof(a, b)) && both(b.username_proof_message, y.username_proof_message, |a: proto::Message, b: Message| shows_msg(a, b)) && both(b.deleted_username_proof, y.deleted_username_proof, |a: proto::UserNameProof, b: UsernameProofBody| shows_name_proof(a, b)) && both(b.deleted_username_proof_message, y.deleted_username_proof_message, |a: proto::Message, b: Message| shows_msg(a, b))), _ => j.merge_username_proof_body is None } }
pub open spec fn hub_place_merge_on_chain_event_body(p: Option<hub_event::Body>, j: HubEvent) -> bool { match p { Some(hub_event::Body::MergeOnChainEventBody(b)) => (b.on_chain_event matches Some(m) ==> j.merge_on_chain_event_body matches Some(y) && shows_chain(m, y.on_chain_event)) && (b.on_chain_event is None ==> j.merge_on_chain_event_body is None), _ => j.merge_on_chain_event_body is None } }
pub open spec fn hub_place_merge_failure_body(p: Option<hub_event::Body>, j: HubEvent) -> bool { match p { Some(hub_event::Body::MergeFailure(b)) => (b.message matches Some(m) ==> j.merge_failure_body matches Some(y) && shows_msg(m, y.message) && y.code@ == b.code@ && y.reason@ == b.reason@) && (b.message is None ==> j.merge_failure_body is None), _ => j.merge_failure_body is None } }
pub open spec fn hub_place_block_confirmed_body(p: Option<hub_event::Body>, j: HubEvent) -> bool { match p { Some(hub_event::Body::BlockConfirmedBody(b)) => (j.block_confirmed_body matches Some(y) && y.block_number == b.block_number && y.shard_index == b.shard_index && y.timestamp == b.timestamp && y.block_hash@ == b.block_hash@ && y.total_events == b.total_events), _ => j.block_confirmed_body is None } }
pub open spec fn hub_place_channel_owner_change_hint_body(p: Option<hub_event::Body>, j: HubEvent) -> bool { match p { Some(hub_event::Body::ChannelOwnerChangeHintBody(b)) => (j.channel_owner_change_hint_body matches Some(y) && y.channel_key@ == b.channel_key@ && y.owner_address@ == b.owner_address@ && y.cause as i32 == known(b.cause, 4)), _ => j.channel_owner_change_hint_body is None } }
pub open spec fn shows_hub_ok(p: Option<hub_event::Body>) -> bool { match p { Some(hub_event::Body::MergeMessageBody(b)) => (b.message matches Some(m) ==> shows_msg_ok(m) && shows_msgs_ok(b.deleted_messages@)), Some(hub_event::Body::PruneMessageBody(b)) => (b.message matches Some(m) ==> shows_msg_ok(m)), Some(hub_event::Body::RevokeMessageBody(b)) => (b.message matches Some(m) ==> shows_msg_ok(m)), Some(hub_event::Body::MergeUsernameProofBody(b)) => (b.username_proof matches Some(m) ==> shows_name_proof_ok(m)) && (b.deleted_username_proof matches Some(m) ==> shows_name_proof_ok(m)) && (b.username_proof_message matches Some(m) ==> shows_msg_ok(m)) && (b.deleted_username_proof_message matches Some(m) ==> shows_msg_ok(m)), Some(hub_event::Body::MergeOnChainEventBody(b)) => true, Some(hub_event::Body::MergeFailure(b)) => (b.message matches Some(m) ==> shows_msg_ok(m)), Some(hub_event::Body::BlockConfirmedBody(b)) => true, Some(hub_event::Body::ChannelOwnerChangeHintBody(b)) => true, None => true } }
pub open spec fn shows_hub(p: proto::HubEvent, j: HubEvent) -> bool {
    &&& proto::HubEventType::of(p.r#type) matches Ok(t) && j.hub_event_type@ == t.name()
    &&& j.id == p.id && j.block_number == p.block_number && j.shard_index == p.shard_index
    &&& hub_place_merge_message_body(p.body, j)
    &&& hub_place_prune_message_body(p.body, j)
    &&& hub_place_revoke_message_body(p.body, j)
    &&& hub_place_merge_username_proof_body(p.body, j)
    &&& hub_place_merge_on_chain_event_body(p.body, j)
    &&& hub_place_merge_failure_body(p.body, j)
    &&& hub_place_block_confirmed_body(p.body, j)
    &&& hub_place_channel_owner_change_hint_body(p.body, j)
}
//@fn src/network/http_server.rs::map_proto_hub_event_to_json_hub_event -> r
    requires shows_hub_ok(hub_event.body)
    ensures (r is Ok) == (proto::HubEventType::of(hub_event.r#type) is Ok),
        r matches Ok(j) ==> proto::HubEventType::of(hub_event.r#type) matches Ok(t) && j.hub_event_type@ == t.name(),
        r matches Ok(j) ==> j.id == hub_event.id && j.block_number == hub_event.block_number && j.shard_index == hub_event.shard_index,
        r matches Ok(j) ==> hub_place_merge_message_body(hub_event.body, j),
        r matches Ok(j) ==> hub_place_prune_message_body(hub_event.body, j),
        r matches Ok(j) ==> hub_place_revoke_message_body(hub_event.body, j),
        r matches Ok(j) ==> hub_place_merge_username_proof_body(hub_event.body, j),
        r matches Ok(j) ==> hub_place_merge_on_chain_event_body(hub_event.body, j),
        r matches Ok(j) ==> hub_place_merge_failure_body(hub_event.body, j),
        r matches Ok(j) ==> hub_place_block_confirmed_body(hub_event.body, j),
        r matches Ok(j) ==> hub_place_channel_owner_change_hint_body(hub_event.body, j)
//@rw `.iter().map` => `.vx_map_ref`
//@rw `.collect()` => ``
//@rw `m.clone()` => `vx_same(m)`
//@rw `body.message.clone()` => `vx_same(&body.message)`
//@rw `body.username_proof.clone()` => `vx_same(&body.username_proof)`
//@rw `body.username_proof_message.clone()` => `vx_same(&body.username_proof_message)`
//@rw `body.deleted_username_proof.clone()` => `vx_same(&body.deleted_username_proof)`
//@rw `body.deleted_username_proof_message.clone()` => `vx_same(&body.deleted_username_proof_message)`
//@rw `body.on_chain_event.clone()` => `vx_same(&body.on_chain_event)`
//@rw `body.code.clone()` => `vx_same(&body.code)`
//@rw `body.reason.clone()` => `vx_same(&body.reason)`
//@rw `body.block_hash.clone()` => `vx_same(&body.block_hash)`
//@rw `body.channel_key.clone()` => `vx_same(&body.channel_key)`
//@rw `body.owner_address.clone()` => `vx_same(&body.owner_address)`
//@closure 0 |vx_p: proto::Message| -> (k: MergeMessageBody) requires shows_msg_ok(vx_p), shows_msgs_ok(body.deleted_messages@) ensures shows_msg(vx_p, k.message), shows_msgs(body.deleted_messages@, k.deleted_messages@)
//@closure 1 |vx_p: &proto::Message| -> (k: Message) requires shows_msg_ok(*vx_p) ensures shows_msg(*vx_p, k)
//@closure 2 |vx_p: proto::Message| -> (k: PruneMessageBody) requires shows_msg_ok(vx_p) ensures shows_msg(vx_p, k.message)
//@closure 3 |vx_p: proto::Message| -> (k: RevokeMessageBody) requires shows_msg_ok(vx_p) ensures shows_msg(vx_p, k.message)
//@closure 4 |vx_p: proto::UserNameProof| -> (k: UsernameProofBody) requires shows_name_proof_ok(vx_p) ensures shows_name_proof(vx_p, k)
//@closure 5 |vx_p: proto::Message| -> (k: Message) requires shows_msg_ok(vx_p) ensures shows_msg(vx_p, k)
//@closure 6 |vx_p: proto::UserNameProof| -> (k: UsernameProofBody) requires shows_name_proof_ok(vx_p) ensures shows_name_proof(vx_p, k)
//@closure 7 |vx_p: proto::Message| -> (k: Message) requires shows_msg_ok(vx_p) ensures shows_msg(vx_p, k)
//@closure 8 |vx_p: proto::OnChainEvent| -> (k: MergeOnChainEventBody) ensures shows_chain(vx_p, k.on_chain_event)
//@closure 9 |vx_p: proto::Message| -> (k: MergeFailureBody) requires shows_msg_ok(vx_p) ensures shows_msg(vx_p, k.message), k.code@ == body.code@, k.reason@ == body.reason@
//@endfn
pub open spec fn shows_shard_info(s: proto::ShardInfo, y: ShardInfo) -> bool { y.shard_id == s.shard_id && y.max_height == s.max_height && y.num_messages == s.num_messages && y.num_fid_registrations == s.num_fid_registrations && y.approx_size == s.approx_size && y.block_delay == s.block_delay && y.mempool_size == s.mempool_size }
pub open spec fn shows_db_stats(s: proto::DbStats, y: DbStats) -> bool { y.num_messages == s.num_messages && y.num_fid_registrations == s.num_fid_registrations && y.approx_size == s.approx_size }
pub open spec fn shows_info(p: proto::GetInfoResponse, j: InfoResponse) -> bool {
    &&& j.num_shards == p.num_shards
    &&& j.peer_id == p.peer_id
    &&& j.version == p.version
    &&& j.next_engine_version_timestamp == p.next_engine_version_timestamp
    &&& both(p.db_stats, j.db_stats, |a: proto::DbStats, b: DbStats| shows_db_stats(a, b))
    &&& each(p.shard_infos@, j.shard_infos@, |a: proto::ShardInfo, b: ShardInfo| shows_shard_info(a, b))
}
//@fn src/network/http_server.rs::map_get_info_response_to_json_info_response -> r
    ensures r matches Ok(j) && shows_info(info_response, j)
//@rw `.iter().map` => `.vx_map_ref`
//@rw `.collect()` => ``
//@closure 0 |vx_p: proto::DbStats| -> (k: DbStats) ensures shows_db_stats(vx_p, k)
//@closure 1 |vx_p: &proto::ShardInfo| -> (k: ShardInfo) ensures shows_shard_info(*vx_p, k)
//@endfn
pub open spec fn shows_channel(p: proto::ChannelInfo, j: ChannelInfo) -> bool { j.channel_key == p.channel_key && j.fid == p.fid && j.owner_address == p.owner_address && j.expiry == p.expiry }
pub open spec fn shows_channels(p: proto::ChannelsResponse, j: ChannelsResponse) -> bool {
    &&& each(p.channels@, j.channels@, |a: proto::ChannelInfo, b: ChannelInfo| shows_channel(a, b))
    &&& match p.next_page_token { Some(b) => j.next_page_token matches Some(t) && t@ == b64(b@), None => j.next_page_token is None }
}
//@fn src/network/http_server.rs::<From<proto::ChannelInfo> for ChannelInfo>::from as channel_from -> r
    ensures shows_channel(channel, r)
//@rw `Self` => `ChannelInfo`
//@endfn
//@fn src/network/http_server.rs::<From<proto::ChannelsResponse> for ChannelsResponse>::from as channels_from -> r
    ensures shows_channels(response, r)
//@rw `Self` => `ChannelsResponse`
//@rw `.into_iter().map` => `.vx_map`
//@rw `.collect()` => ``
//@rw `(ChannelInfo::from)` => `(|vx_q: proto::ChannelInfo| -> (k: ChannelInfo) ensures shows_channel(vx_q, k) { channel_from(vx_q) })`
//@closure 0 |vx_p: Vec<u8>| -> (k: String) ensures k@ == b64(vx_p@)
//@rw `BASE64_STANDARD.encode(token)` => `vx_b64(token)`
//@endfn
//@fn src/network/http_server.rs::channel_member_state_from_proto -> r
    ensures (r is Ok) == (0 <= state <= 4), r matches Ok(s) ==> s as i32 == state
//@rw `Some(state.to_string())` => `None`
//@endfn
//@fn src/network/http_server.rs::contact_source_label -> r
    ensures r@ == (if source == 1 { "collected"@ } else if source == 2 { "derived"@ } else { "unknown"@ })
//@endfn
#[verifier::external] impl std::fmt::Debug for ErrorResponse { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
} // verus!
fn main() {}
