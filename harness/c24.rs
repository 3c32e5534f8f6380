//@mount src/storage/store/account/channel_store.rs
use super::*;
use crate::verif_h::support::*;
use crate::proto::{self, ChannelMemberBody, ChannelModerateBody};

fn body_kind(c: &mut Ctx, id: &[u8]) -> Option<Body> {
    match c.below(7) {
        0 => None, 1 => Some(Body::UserDataBody(Default::default())),
        2 => Some(Body::ChannelUpdateBody(ChannelUpdateBody { channel_id: id.to_vec(), casting_mode: enum_opt(c), membership_mode: enum_opt(c), ..Default::default() })),
        3 | 4 => Some(Body::ChannelMemberBody(ChannelMemberBody { channel_id: id.to_vec(), fid: c.fid(), action: enum_i(c) })),
        5 => Some(Body::ChannelPinBody(ChannelPinBody { channel_id: id.to_vec(), ..Default::default() })),
        _ => { let h = c.blob(&[20]); Some(Body::ChannelModerateBody(ChannelModerateBody { channel_id: id.to_vec(), cast_hash: h, action: enum_i(c) })) }
    }
}
fn enum_i(c: &mut Ctx) -> i32 { if c.p(5, 6) { c.below(9) as i32 } else { c.i32() } }
fn enum_opt(c: &mut Ctx) -> Option<i32> { if c.p(1, 4) { None } else { Some(enum_i(c)) } }

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(20000) {
        let id = if c.p(2, 3) { c.bytes(32) } else { c.blob(&[32]) };
        let fid = c.fid();
        let body = body_kind(c, &id);
        let t = c.pick(&[MessageType::ChannelUpdate, MessageType::ChannelMember, MessageType::ChannelPin, MessageType::ChannelModerate, MessageType::CastAdd, MessageType::None]);
        let own = match &body { Some(Body::ChannelUpdateBody(_)) => MessageType::ChannelUpdate, Some(Body::ChannelMemberBody(_)) => MessageType::ChannelMember, Some(Body::ChannelPinBody(_)) => MessageType::ChannelPin, Some(Body::ChannelModerateBody(_)) => MessageType::ChannelModerate, _ => MessageType::CastAdd };
        let ty = if c.p(2, 3) { own } else { t };
        let has = c.p(11, 12);
        let m = Message { data: if has { Some(proto::MessageData { fid, r#type: ty as i32, body: body.clone(), ..Default::default() }) } else { None }, signature_scheme: if c.p(5, 6) { 1 } else { c.below(4) as i32 }, ..Default::default() };
        let body = if has { body } else { None };
        let t = if c.p(2, 3) { own } else { t };
        c.case("is_channel_message", format!("{:?} expected={:?}", m, t), || {
            let is = matches!(body, Some(Body::ChannelUpdateBody(_)) | Some(Body::ChannelMemberBody(_)) | Some(Body::ChannelPinBody(_)) | Some(Body::ChannelModerateBody(_)));
            same("is_channel_message", is_channel_message(&m, t), has && is && m.signature_scheme == 1 && ty == t && own == t)
        });
        c.case("slot_suffixes", format!("{:?}", m), || {
            let f4 = |f: u64| if f < 1 << 32 { Some(be(f, 4)) } else { None };
            let w = match &body { Some(Body::ChannelUpdateBody(_)) => (Some(id.clone()), None, None, None),
                Some(Body::ChannelMemberBody(b)) => (None, f4(b.fid).map(|f| cat(&[&id, &f])), None, None),
                Some(Body::ChannelPinBody(_)) => (None, None, Some(id.clone()), None),
                Some(Body::ChannelModerateBody(b)) => (None, None, None, Some(cat(&[&id, &b.cast_hash]))), _ => (None, None, None, None) };
            same("suffixes", (update_slot_suffix(&m).ok(), member_slot_suffix(&m).ok(), pin_slot_suffix(&m).ok(), moderate_slot_suffix(&m).ok()), w)
        });
        let act = match &body { Some(Body::ChannelMemberBody(b)) => Some(b.action), Some(Body::ChannelModerateBody(b)) => Some(b.action), _ => None };
        c.case("states", format!("{:?}", m), || {
            let ms = match (&body, act) { (Some(Body::ChannelMemberBody(_)), Some(a)) => match a { 1 | 4 => Some(ChannelMemberState::Member), 3 => Some(ChannelMemberState::Moderator), 2 | 6 => Some(ChannelMemberState::Removed), 5 => Some(ChannelMemberState::Banned), _ => None }, _ => None };
            same("member state", member_state_for_message(&m).ok(), ms)?;
            let mo = match (&body, act) { (Some(Body::ChannelModerateBody(_)), Some(a)) => match a { 1 => Some(ChannelModerationState::Hidden), 2 => Some(ChannelModerationState::Visible), _ => None }, _ => None };
            same("moderation state", moderation_state_for_message(&m).ok(), mo)
        });
        let u = ChannelUpdateBody { channel_id: id.clone(), casting_mode: enum_opt(c), membership_mode: enum_opt(c), ..Default::default() };
        c.case("fold_channel_modes", format!("{:?}", u), || {
            let cm = match u.casting_mode { None | Some(0) => Some(CastingMode::MembersOnly), Some(x) => CastingMode::try_from(x).ok() };
            let mm = match u.membership_mode { None | Some(0) => Some(MembershipMode::Approval), Some(x) => MembershipMode::try_from(x).ok() };
            same("modes", fold_channel_modes(&u).ok(), match (cm, mm) { (Some(a), Some(b)) => Some((a, b)), _ => None })
        });
        let sfx = c.blob(&[4, 20]); let ts: [u8; 24] = c.bytes(24).try_into().unwrap();
        let (pf, pfn) = match c.below(3) { 0 => (UserPostfix::CastMessage, 1u8), 1 => (UserPostfix::ChannelUpdateMessage, 9u8), _ => (UserPostfix::GaslessKeyUserNonce, 102u8) };
        c.case("channel_keys", format!("{:?} suffix={:?} ts_hash={:?} postfix={}", m, sfx, ts, pfn), || {
            same("author slot", author_slot_key(&m, pf, &sfx).ok(), if has { Some(cat(&[&ukey(fid), &[pfn], &sfx])) } else { None })?;
            let f = if has { fid } else { 0 };
            same("slot pointer", encode_slot_pointer(&m, &ts).ok(), if f < 1 << 32 { Some(cat(&[&be(f, 4), &ts])) } else { None })?;
            same("member by fid", ChannelMemberStoreDef::make_member_by_fid_key(fid, &id).ok(), if fid < 1 << 32 { Some(cat(&[&[24, 8], &be(fid, 4), &id])) } else { None })?;
            for (n, i) in [ChannelIndex::UpdateSlot, ChannelIndex::MemberSlot, ChannelIndex::PinSlot, ChannelIndex::ModerateSlot, ChannelIndex::MemberSlotCount, ChannelIndex::ModerateSlotCount, ChannelIndex::LiveModeratorCount, ChannelIndex::MemberByFid].into_iter().enumerate() {
                same("index key", channel_index_key(i, &id, &sfx), cat(&[&[24, n as u8 + 1], &id, &sfx]))?;
            }
            Ok(())
        });
        c.case("derived_gate", "", || { same("on", DerivedIndexGate::when_channel_messages_enabled(true).writes_derived_indices(), true)?; same("off", DerivedIndexGate::when_channel_messages_enabled(false).writes_derived_indices(), false) });
    }
}
