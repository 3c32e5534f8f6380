//@include prelude.vrs
//@proto ChannelMemberAction MembershipMode
//@include authority.vrs
proof fn theorem_only_owners_touch_moderators(a: proto::ChannelMemberAction, role: ChannelAuthorRole, s: S, mode: proto::MembershipMode, o: bool)
    requires role != ChannelAuthorRole::Owner
    ensures !permitted(proto::ChannelMemberAction::AddModerator, role, s, true, mode, o), !permitted(proto::ChannelMemberAction::AddModerator, role, s, false, mode, o),
        !permitted(proto::ChannelMemberAction::RemoveModerator, role, s, true, mode, o), !permitted(proto::ChannelMemberAction::RemoveModerator, role, s, false, mode, o),
        !permitted(a, role, Some(ChannelMemberState::Moderator), false, mode, o) {}
proof fn theorem_owner_never_banned(role: ChannelAuthorRole, s: S, me: bool, mode: proto::MembershipMode) ensures !permitted(proto::ChannelMemberAction::Ban, role, s, me, mode, true) {}
proof fn theorem_banned_only_unbanned(a: proto::ChannelMemberAction, role: ChannelAuthorRole, me: bool, mode: proto::MembershipMode, o: bool)
    requires permitted(a, role, Some(ChannelMemberState::Banned), me, mode, o) ensures a == proto::ChannelMemberAction::Unban, manages(role) {}
proof fn theorem_outsiders_act_on_themselves(a: proto::ChannelMemberAction, role: ChannelAuthorRole, s: S, me: bool, mode: proto::MembershipMode, o: bool)
    requires !manages(role), permitted(a, role, s, me, mode, o)
    ensures me, a == proto::ChannelMemberAction::RemoveMember || (a == proto::ChannelMemberAction::AddMember && mode == proto::MembershipMode::Open) {}
} // verus!
fn main() {}
