// Who may do what to whom in a channel.  Shared by C23 and C40.
//@item src/storage/store/account/channel_store.rs::ChannelMemberState
//@item src/storage/store/block_engine.rs::ChannelAuthorRole
//@item src/storage/store/block_engine.rs::ChannelAuthorityDecision
//@item src/storage/store/block_engine.rs::IsSelf
//@item src/storage/store/block_engine.rs::TargetIsOwner
type S = Option<ChannelMemberState>;
pub open spec fn absent(s: S) -> bool { s is None || s == Some(ChannelMemberState::Removed) }
pub open spec fn manages(r: ChannelAuthorRole) -> bool { r == ChannelAuthorRole::Owner || r == ChannelAuthorRole::Moderator }
// the published table: everything not listed is refused
pub open spec fn permitted(a: proto::ChannelMemberAction, role: ChannelAuthorRole, s: S, me: bool, mode: proto::MembershipMode, target_owner: bool) -> bool {
    let owner = role == ChannelAuthorRole::Owner;
    match a {
        proto::ChannelMemberAction::None => false,
        proto::ChannelMemberAction::AddMember => absent(s) && (manages(role) || (me && mode == proto::MembershipMode::Open)),
        proto::ChannelMemberAction::RemoveMember => (s == Some(ChannelMemberState::Member) && (manages(role) || me)) || (s == Some(ChannelMemberState::Moderator) && me),
        proto::ChannelMemberAction::AddModerator => owner && (absent(s) || s == Some(ChannelMemberState::Member)),
        proto::ChannelMemberAction::RemoveModerator => owner && s == Some(ChannelMemberState::Moderator),
        proto::ChannelMemberAction::Ban => !target_owner && ((s == Some(ChannelMemberState::Moderator) && owner) || ((absent(s) || s == Some(ChannelMemberState::Member)) && manages(role))),
        proto::ChannelMemberAction::Unban => s == Some(ChannelMemberState::Banned) && manages(role),
    }
}
//@fn src/storage/store/block_engine.rs::channel_member_authority -> r
    ensures
        r == ChannelAuthorityDecision::Allowed <==> permitted(action, author_role, target_state, vx_self.0, membership_mode, vx_owner.0),
//@rw `IsSelf(is_self): IsSelf` => `vx_self: IsSelf`
//@rw `TargetIsOwner(target_is_owner): TargetIsOwner` => `vx_owner: TargetIsOwner`
//@start
    let is_self = vx_self.0; let target_is_owner = vx_owner.0;
//@endfn
