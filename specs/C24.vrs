//@include prelude.vrs
global size_of usize == 8;
//@include strings.vrs
//@include errors.vrs
//@proto Message MessageType CastId CastingMode MembershipMode ChannelMemberAction ChannelModerateAction SignatureScheme
//@include keys.vrs
use proto::{Message, MessageData, CastingMode, MembershipMode, ChannelMemberAction, ChannelModerateAction, ChannelUpdateBody, SignatureScheme};
use proto::message_data::Body;
//@item src/storage/store/account/channel_store.rs::ChannelIndex
//@item src/storage/store/account/channel_store.rs::ChannelMemberState
//@item src/storage/store/account/channel_store.rs::ChannelModerationState
//@item src/storage/store/account/channel_store.rs::DerivedIndexGate
pub open spec fn body_of(m: Message) -> Option<Body> { match m.data { Some(d) => d.body, None => None } }
impl Message {
//@fn proto/src/lib.rs::Message::fid -> r
    ensures r == (match self.data { Some(d) => d.fid, None => 0 }),
//@endfn
}
impl DerivedIndexGate {
//@fn src/storage/store/account/channel_store.rs::DerivedIndexGate::when_channel_messages_enabled -> r
    ensures r == (if channel_messages_enabled { DerivedIndexGate::Write } else { DerivedIndexGate::Skip }),
//@endfn
//@fn src/storage/store/account/channel_store.rs::DerivedIndexGate::writes_derived_indices -> r
    ensures r == (self == DerivedIndexGate::Write),
//@endfn
}
//@fn src/storage/store/account/channel_store.rs::invalid_body -> r
//@endfn
//@fn src/storage/store/account/channel_store.rs::unsupported -> r
//@endfn
//@fn src/storage/store/account/channel_store.rs::is_channel_message -> r
    ensures r <==> message.signature_scheme == 1 && message.data is Some && message.data->Some_0.r#type == expected_type as i32 && (match body_of(*message) {
        Some(Body::ChannelUpdateBody(_)) => expected_type == MessageType::ChannelUpdate,
        Some(Body::ChannelMemberBody(_)) => expected_type == MessageType::ChannelMember,
        Some(Body::ChannelPinBody(_)) => expected_type == MessageType::ChannelPin,
        Some(Body::ChannelModerateBody(_)) => expected_type == MessageType::ChannelModerate,
        _ => false }),
//@endfn
//@fn src/storage/store/account/channel_store.rs::author_slot_key -> r
    ensures r is Ok <==> message.data is Some, r is Ok ==> r->Ok_0@ =~= user_key(message.data->Some_0.fid) + seq![index_postfix as u8] + slot_suffix@,
//@endfn
//@fn src/storage/store/account/channel_store.rs::update_slot_suffix -> r
    ensures match body_of(*message) { Some(Body::ChannelUpdateBody(b)) => r is Ok && r->Ok_0@ =~= b.channel_id@, _ => r is Err },
//@closure 0 |data: &MessageData| -> (o: Option<&Body>)
    ensures o == (match data.body { Some(b) => Some(&b), None => None })
//@endfn
//@fn src/storage/store/account/channel_store.rs::member_slot_suffix -> r
    ensures match body_of(*message) { Some(Body::ChannelMemberBody(b)) => (r is Ok <==> b.fid <= u32::MAX) && (r is Ok ==> r->Ok_0@ =~= b.channel_id@ + be32(b.fid as u32)), _ => r is Err },
//@closure 0 |data: &MessageData| -> (o: Option<&Body>)
    ensures o == (match data.body { Some(b) => Some(&b), None => None })
//@endfn
//@fn src/storage/store/account/channel_store.rs::pin_slot_suffix -> r
    ensures match body_of(*message) { Some(Body::ChannelPinBody(b)) => r is Ok && r->Ok_0@ =~= b.channel_id@, _ => r is Err },
//@closure 0 |data: &MessageData| -> (o: Option<&Body>)
    ensures o == (match data.body { Some(b) => Some(&b), None => None })
//@endfn
//@fn src/storage/store/account/channel_store.rs::moderate_slot_suffix -> r
    ensures match body_of(*message) { Some(Body::ChannelModerateBody(b)) => r is Ok && r->Ok_0@ =~= b.channel_id@ + b.cast_hash@, _ => r is Err },
//@closure 0 |data: &MessageData| -> (o: Option<&Body>)
    ensures o == (match data.body { Some(b) => Some(&b), None => None })
//@endfn
//@fn src/storage/store/account/channel_store.rs::channel_index_key -> r
    requires channel_id@.len() + suffix@.len() <= isize::MAX,
    ensures r@ =~= seq![24u8, index as u8] + channel_id@ + suffix@,
//@endfn
//@fn src/storage/store/account/channel_store.rs::encode_slot_pointer -> r
    ensures (r is Ok <==> (match message.data { Some(d) => d.fid, None => 0 }) <= u32::MAX), r is Ok ==> r->Ok_0@ =~= be32((match message.data { Some(d) => d.fid, None => 0 }) as u32) + ts_hash@,
//@endfn
pub open spec fn casting(m: Option<i32>) -> Option<CastingMode> {
    match m { None => Some(CastingMode::MembersOnly), Some(v) => match CastingMode::of(v) { Ok(CastingMode::None) => Some(CastingMode::MembersOnly), Ok(x) => Some(x), Err(_) => None } }
}
pub open spec fn membership(m: Option<i32>) -> Option<MembershipMode> {
    match m { None => Some(MembershipMode::Approval), Some(v) => match MembershipMode::of(v) { Ok(MembershipMode::None) => Some(MembershipMode::Approval), Ok(x) => Some(x), Err(_) => None } }
}
//@fn src/storage/store/account/channel_store.rs::fold_channel_modes -> r
    ensures (r is Ok <==> casting(body.casting_mode) is Some && membership(body.membership_mode) is Some),
        r is Ok ==> r->Ok_0.0 == casting(body.casting_mode)->Some_0 && r->Ok_0.1 == membership(body.membership_mode)->Some_0,
//@rw `.map(CastingMode::try_from)` => `.map(|v: i32| -> (o: Result<CastingMode, UnknownEnumValue>) ensures o == CastingMode::of(v) { CastingMode::try_from(v) })`
//@rw `.map(MembershipMode::try_from)` => `.map(|v: i32| -> (o: Result<MembershipMode, UnknownEnumValue>) ensures o == MembershipMode::of(v) { MembershipMode::try_from(v) })`
//@closure 1 |mode: &CastingMode| -> (o: bool)
    ensures o == (*mode != CastingMode::None)
//@closure 3 |mode: &MembershipMode| -> (o: bool)
    ensures o == (*mode != MembershipMode::None)
//@endfn
//@fn src/storage/store/account/channel_store.rs::member_state_for_message -> r
    ensures match body_of(*message) {
        Some(Body::ChannelMemberBody(b)) => match ChannelMemberAction::of(b.action) {
            Ok(ChannelMemberAction::AddMember) | Ok(ChannelMemberAction::RemoveModerator) => r == Ok::<ChannelMemberState, HubError>(ChannelMemberState::Member),
            Ok(ChannelMemberAction::AddModerator) => r == Ok::<ChannelMemberState, HubError>(ChannelMemberState::Moderator),
            Ok(ChannelMemberAction::RemoveMember) | Ok(ChannelMemberAction::Unban) => r == Ok::<ChannelMemberState, HubError>(ChannelMemberState::Removed),
            Ok(ChannelMemberAction::Ban) => r == Ok::<ChannelMemberState, HubError>(ChannelMemberState::Banned),
            _ => r is Err },
        _ => r is Err },
//@closure 0 |data: &MessageData| -> (o: Option<&Body>)
    ensures o == (match data.body { Some(b) => Some(&b), None => None })
//@endfn
//@fn src/storage/store/account/channel_store.rs::moderation_state_for_message -> r
    ensures match body_of(*message) {
        Some(Body::ChannelModerateBody(b)) => match ChannelModerateAction::of(b.action) {
            Ok(ChannelModerateAction::Hide) => r == Ok::<ChannelModerationState, HubError>(ChannelModerationState::Hidden),
            Ok(ChannelModerateAction::Unhide) => r == Ok::<ChannelModerationState, HubError>(ChannelModerationState::Visible),
            _ => r is Err },
        _ => r is Err },
//@closure 0 |data: &MessageData| -> (o: Option<&Body>)
    ensures o == (match data.body { Some(b) => Some(&b), None => None })
//@endfn
pub struct ChannelMemberStoreDef { }
impl ChannelMemberStoreDef {
//@fn src/storage/store/account/channel_store.rs::ChannelMemberStoreDef::make_member_by_fid_key -> r
    ensures r is Ok <==> target_fid <= u32::MAX, r is Ok ==> r->Ok_0@ =~= seq![24u8, 8u8] + be32(target_fid as u32) + channel_id@,
//@start
    proof { ax_len(channel_id); }
//@endfn
}
proof fn theorem_indexes_disjoint(i: ChannelIndex, j: ChannelIndex, x: Seq<u8>, y: Seq<u8>)
    requires i != j
    ensures seq![24u8, i as u8] + x != seq![24u8, j as u8] + y
{ assert((seq![24u8, i as u8] + x)[1] == i as u8); assert((seq![24u8, j as u8] + y)[1] == j as u8); assert(i as u8 != j as u8); }
// within one index, 32-byte channel ids separate channels, and the suffix separates subjects
proof fn theorem_subjects(i: u8, a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires a.len() == 32, b.len() == 32
    ensures seq![24u8, i] + a + x == seq![24u8, i] + b + y <==> a == b && x == y
{
    let p = seq![24u8, i] + a + x; let q = seq![24u8, i] + b + y;
    assert(p.subrange(2, 34) =~= a); assert(q.subrange(2, 34) =~= b); assert(p.skip(34) =~= x); assert(q.skip(34) =~= y);
}
proof fn theorem_member_slots(f: u64, g: u64, a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 32, b.len() == 32, f <= u32::MAX, g <= u32::MAX
    ensures a + be32(f as u32) == b + be32(g as u32) <==> a == b && f == g
{
    lemma_be32(f as u32); lemma_be32(g as u32);
    let p = a + be32(f as u32); let q = b + be32(g as u32);
    assert(p.take(32) =~= a); assert(q.take(32) =~= b); assert(p.skip(32) =~= be32(f as u32)); assert(q.skip(32) =~= be32(g as u32));
}
} // verus!
fn main() {}
