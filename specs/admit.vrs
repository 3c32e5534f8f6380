// Admission of a message: data, gates, authenticity, body rules.  Shared by C01 and C02.
//@include prelude.vrs
//@include errors.vrs
global size_of usize == 8;
//@include strings.vrs
//@include version.vrs
//@include time.vrs
//@include blake.vrs
//@include lex.vrs
//@proto Message ShardTrieEntryWithMessage !OnChainEvent !FnameTransfer
use proto::{CastId, MessageData, MessageType, FarcasterNetwork, UserNameType, StorageUnitType, FrameActionBody, UserDataBody, CastAddBody, CastRemoveBody, ReactionBody, LinkBody, LinkCompactStateBody, KeyAddBody, KeyRemoveBody, VerificationAddAddressBody, VerificationRemoveBody};
//@item src/core/validations/error.rs::ValidationError
#[verifier::external] impl std::fmt::Debug for ValidationError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub assume_specification<T, E, F, O> [std::result::Result::<T, E>::or_else] (x: std::result::Result<T, E>, f: O) -> (r: std::result::Result<T, F>)
    where O: std::ops::FnOnce(E,) -> std::result::Result<T, F> + std::marker::Destruct
    requires x matches Err(e) ==> f.requires((e,))
    ensures match x { Ok(v) => r == Ok::<T, F>(v), Err(e) => f.ensures((e,), r) };
// ---- message codec (prost, trusted): one decoding of bytes, one encoding of data
pub struct DecodeError { pub k: u8 }
pub uninterp spec fn decoded(b: Seq<u8>) -> Option<MessageData>;
pub uninterp spec fn encoded(d: MessageData) -> Seq<u8>;
impl MessageData {
    #[verifier::external_body] pub fn decode(b: &[u8]) -> (r: Result<MessageData, DecodeError>) ensures (r is Ok) == (decoded(b@) is Some), r is Ok ==> r->Ok_0 == decoded(b@)->Some_0 { unimplemented!() }
    #[verifier::external_body] pub fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == encoded(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
// ---- Ed25519 (ed25519-dalek, trusted): strict verification is a function of key, message and signature
pub struct Signature { pub b: Vec<u8> }
pub struct SignatureError { pub k: u8 }
pub uninterp spec fn valid_point(k: Seq<u8>) -> bool;
pub uninterp spec fn strictly_valid(key: Seq<u8>, m: Seq<u8>, sig: Seq<u8>) -> bool;
impl Signature { #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (r: Result<Signature, SignatureError>) ensures (r is Ok) == (b@.len() == 64), r is Ok ==> r->Ok_0.b@ == b@ { unimplemented!() } }
pub struct VerifyingKey { pub b: Vec<u8> }
impl VerifyingKey {
    #[verifier::external_body] pub fn vx_of(b: &[u8]) -> (r: Result<VerifyingKey, SignatureError>) ensures (r is Ok) == (b@.len() == 32 && valid_point(b@)), r is Ok ==> r->Ok_0.b@ == b@ { unimplemented!() }
    #[verifier::external_body] pub fn verify_strict(&self, m: &[u8], s: &Signature) -> (r: Result<(), SignatureError>) ensures (r is Ok) == strictly_valid(self.b@, m@, s.b@) { unimplemented!() }
}
pub open spec fn good_hash(scheme: i32, data: Seq<u8>, hash: Seq<u8>) -> bool { scheme == 1 && data.len() > 0 && hash == digest20(data) }
pub open spec fn good_signature(scheme: i32, hash: Seq<u8>, sig: Seq<u8>, signer: Seq<u8>) -> bool {
    scheme == 1 && sig.len() == 64 && signer.len() == 32 && valid_point(signer) && strictly_valid(signer, hash, sig)
}
// the bytes that are signed for, and the data every rule is applied to
pub open spec fn bytes_of(m: proto::Message) -> Seq<u8> { match m.data_bytes { Some(b) => b@, None => match m.data { Some(d) => encoded(d), None => Seq::empty() } } }
pub open spec fn data_of(m: proto::Message) -> Option<MessageData> { match m.data_bytes { Some(b) => decoded(b@), None => m.data } }
pub open spec fn authentic(m: proto::Message) -> bool {
    data_of(m) is Some && good_hash(m.hash_scheme, bytes_of(m), m.hash@) && good_signature(m.signature_scheme, m.hash@, m.signature@, m.signer@)
}
// ---- gates
pub open spec fn right_network(n: i32, current: FarcasterNetwork) -> bool { 1 <= n <= 3 && (current is Mainnet ==> n == 1) }
pub open spec fn on(v: EngineVersion, f: ProtocolFeature) -> bool { enabled(v, f) }
pub open spec fn max_size(kind: i32, pro: bool, v: EngineVersion) -> int {
    if !on(v, ProtocolFeature::MessageLengthCheckFix) { 2048 } else if kind == 14 { 65536 } else if pro && kind == 1 { 16384 }
    else if kind == 12 && on(v, ProtocolFeature::IncreaseUsernameProofSizeLimit) { 16384 } else { 2048 }
}
pub open spec fn timely(t: u32, now: u64, v: EngineVersion) -> bool { on(v, ProtocolFeature::FutureTimestampValidation) ==> t <= now + 600 }
pub open spec fn gates(m: proto::Message, current: FarcasterNetwork, pro: bool, now: u64, v: EngineVersion) -> bool {
    data_of(m) matches Some(d) && right_network(d.network, current) && bytes_of(m).len() <= max_size(d.r#type, pro, v) && timely(d.timestamp, now, v)
        && match d.body {
            Some(proto::message_data::Body::LendStorageBody(_)) => d.timestamp >= now - 600,
            Some(proto::message_data::Body::ChannelUpdateBody(_)) | Some(proto::message_data::Body::ChannelMemberBody(_)) | Some(proto::message_data::Body::ChannelPinBody(_))
                | Some(proto::message_data::Body::ChannelModerateBody(_)) => on(v, ProtocolFeature::ChannelMessages),
            Some(proto::message_data::Body::UsernameProofBody(p)) => (p.r#type == 2) || (p.r#type == 3 && on(v, ProtocolFeature::Basenames)),
            _ => true,
        }
}
// ---- body rules: outcomes of the validators of C03 to C08, each contracted there
pub uninterp spec fn text_of(b: Seq<u8>) -> Option<Seq<char>>;
pub struct Utf8Error { pub k: u8 }
pub struct Utf8 { pub s: Ghost<Seq<char>> }
impl Utf8 { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.s@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_utf8(b: &Vec<u8>) -> (r: Result<Utf8, Utf8Error>) ensures (r is Ok) == (text_of(b@) is Some), r is Ok ==> r->Ok_0.s@ == text_of(b@)->Some_0 { unimplemented!() }
pub uninterp spec fn ok_ens(s: Seq<char>) -> bool;
pub uninterp spec fn ok_base(s: Seq<char>) -> bool;
pub uninterp spec fn ok_profile(b: UserDataBody, pro: bool, v: EngineVersion) -> bool;
pub uninterp spec fn ok_verification(b: proto::VerificationAddAddressBody, fid: u64, n: FarcasterNetwork) -> bool;
pub uninterp spec fn ok_unverification(b: proto::VerificationRemoveBody) -> bool;
pub uninterp spec fn ok_compact(b: proto::LinkCompactStateBody) -> bool;
pub uninterp spec fn ok_link(b: proto::LinkBody) -> bool;
pub uninterp spec fn ok_cast(b: proto::CastAddBody, old: bool, pro: bool, v: EngineVersion) -> bool;
pub uninterp spec fn ok_uncast(b: proto::CastRemoveBody) -> bool;
pub uninterp spec fn ok_reaction(b: proto::ReactionBody) -> bool;
pub uninterp spec fn ok_frame(b: FrameActionBody) -> bool;
pub uninterp spec fn ok_loan(b: proto::LendStorageBody) -> bool;
pub uninterp spec fn ok_key(b: proto::KeyAddBody) -> bool;
pub uninterp spec fn ok_unkey(b: proto::KeyRemoveBody) -> bool;
pub uninterp spec fn ok_channel(b: proto::ChannelUpdateBody) -> bool;
pub uninterp spec fn ok_member(b: proto::ChannelMemberBody) -> bool;
pub uninterp spec fn ok_pin(b: proto::ChannelPinBody) -> bool;
pub uninterp spec fn ok_moderation(b: proto::ChannelModerateBody) -> bool;
pub open spec fn net(n: i32) -> FarcasterNetwork { match FarcasterNetwork::of(n) { Ok(x) => x, Err(_) => FarcasterNetwork::None } }
pub open spec fn body_ok(d: MessageData, pro: bool, v: EngineVersion) -> bool {
    match d.body {
        None => true,
        Some(proto::message_data::Body::UserDataBody(b)) => ok_profile(b, pro, v),
        Some(proto::message_data::Body::UsernameProofBody(p)) => if p.r#type == 2 { on(v, ProtocolFeature::EnsValidation) ==> (text_of(p.name@) matches Some(t) && ok_ens(t)) } else { text_of(p.name@) matches Some(t) && ok_base(t) },
        Some(proto::message_data::Body::VerificationAddAddressBody(b)) => ok_verification(b, d.fid, net(d.network)),
        Some(proto::message_data::Body::VerificationRemoveBody(b)) => ok_unverification(b),
        Some(proto::message_data::Body::LinkCompactStateBody(b)) => ok_compact(b),
        Some(proto::message_data::Body::LinkBody(b)) => ok_link(b),
        Some(proto::message_data::Body::CastAddBody(b)) => ok_cast(b, d.timestamp < 73612800, pro, v),
        Some(proto::message_data::Body::CastRemoveBody(b)) => ok_uncast(b),
        Some(proto::message_data::Body::ReactionBody(b)) => ok_reaction(b),
        Some(proto::message_data::Body::FrameActionBody(b)) => ok_frame(b),
        Some(proto::message_data::Body::LendStorageBody(b)) => ok_loan(b),
        Some(proto::message_data::Body::KeyAddBody(b)) => ok_key(b),
        Some(proto::message_data::Body::KeyRemoveBody(b)) => ok_unkey(b),
        Some(proto::message_data::Body::ChannelUpdateBody(b)) => ok_channel(b),
        Some(proto::message_data::Body::ChannelMemberBody(b)) => ok_member(b),
        Some(proto::message_data::Body::ChannelPinBody(b)) => ok_pin(b),
        Some(proto::message_data::Body::ChannelModerateBody(b)) => ok_moderation(b),
    }
}
//@item src/core/validations/message.rs::MAX_DATA_BYTES
//@item src/core/validations/message.rs::MAX_DATA_BYTES_FOR_10K_CAST
//@item src/core/validations/message.rs::MAX_DATA_BYTES_FOR_LINK_COMPACT
//@item src/core/validations/message.rs::MAX_DATA_BYTES_FOR_USERNAME_PROOF
//@item src/core/validations/message.rs::EMBEDS_V1_CUTOFF
//@item src/core/validations/message.rs::ALLOWED_CLOCK_SKEW_SECONDS
pub mod cast { use super::*; verus! {
//@fn src/core/validations/cast.rs::validate_cast_add_body -> r external
    ensures r is Ok == ok_cast(*body, allow_embeds_deprecated, is_pro_user, version)
//@endfn
//@fn src/core/validations/cast.rs::validate_cast_remove_body -> r external
    ensures r is Ok == ok_uncast(*body)
//@endfn
} }
pub mod reaction { use super::*; verus! {
//@fn src/core/validations/reaction.rs::validate_reaction_body -> r external
    ensures r is Ok == ok_reaction(*body)
//@endfn
} }
pub mod link { use super::*; verus! {
//@fn src/core/validations/link.rs::validate_link_body -> r external
    ensures r is Ok == ok_link(*body)
//@endfn
//@fn src/core/validations/link.rs::validate_link_compact_state_body -> r external
    ensures r is Ok == ok_compact(*body)
//@endfn
} }
pub mod verification { use super::*; verus! {
//@fn src/core/validations/verification.rs::validate_add_address -> r external
    ensures r is Ok == ok_verification(*body, fid, network)
//@endfn
//@fn src/core/validations/verification.rs::validate_remove_address -> r external
    ensures r is Ok == ok_unverification(*body)
//@endfn
} }
pub mod key { use super::*; verus! {
//@fn src/core/validations/key.rs::validate_key_add_body -> r external
    ensures r is Ok == ok_key(*body)
//@endfn
//@fn src/core/validations/key.rs::validate_key_remove_body -> r external
    ensures r is Ok == ok_unkey(*body)
//@endfn
} }
//@fn src/core/validations/message.rs::validate_user_data_add_body -> r external
    ensures r is Ok == ok_profile(*body, is_pro_user, version)
//@endfn
//@fn src/core/validations/message.rs::validate_ens_name -> r external
    ensures r is Ok == ok_ens(input@)
//@endfn
//@fn src/core/validations/message.rs::validate_base_name -> r external
    ensures r is Ok == ok_base(input@)
//@endfn
//@fn src/core/validations/message.rs::validate_frame_action_body -> r external
    ensures r is Ok == ok_frame(*body)
//@endfn
//@fn src/core/validations/message.rs::validate_lend_storage_body -> r external
    ensures r is Ok == ok_loan(*lend_storage_body)
//@endfn
//@fn src/core/validations/message.rs::validate_channel_update_body -> r external
    ensures r is Ok == ok_channel(*body)
//@endfn
//@fn src/core/validations/message.rs::validate_channel_member_body -> r external
    ensures r is Ok == ok_member(*body)
//@endfn
//@fn src/core/validations/message.rs::validate_channel_pin_body -> r external
    ensures r is Ok == ok_pin(*body)
//@endfn
//@fn src/core/validations/message.rs::validate_channel_moderate_body -> r external
    ensures r is Ok == ok_moderation(*body)
//@endfn
