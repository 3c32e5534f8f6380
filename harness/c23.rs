use super::support::*;
use crate::proto::{ChannelMemberAction as A, MembershipMode as M};
use crate::storage::store::account::ChannelMemberState as S;
use crate::storage::store::block_engine::*;

pub fn run(c: &mut Ctx) {
    let roles = [ChannelAuthorRole::Owner, ChannelAuthorRole::Moderator, ChannelAuthorRole::Member, ChannelAuthorRole::Other];
    let states = [None, Some(S::Member), Some(S::Moderator), Some(S::Removed), Some(S::Banned)];
    for a in 0..7i32 { for role in roles { for st in states { for me in [false, true] { for m in 0..3i32 { for to in [false, true] {
        let (act, mode) = (A::try_from(a).unwrap(), M::try_from(m).unwrap());
        c.case("channel_member_authority", format!("{:?} by {:?} on {:?} self {} mode {:?} target is owner {}", act, role, st, me, mode, to), || {
            let owner = role == ChannelAuthorRole::Owner; let manages = owner || role == ChannelAuthorRole::Moderator;
            let gone = matches!(st, None | Some(S::Removed)); let member = st == Some(S::Member); let moder = st == Some(S::Moderator);
            let want = match a {
                1 => gone && (manages || me && m == 1),
                2 => member && (manages || me) || moder && me,
                3 => owner && (gone || member),
                4 => owner && moder,
                5 => !to && (moder && owner || (gone || member) && manages),
                6 => st == Some(S::Banned) && manages,
                _ => false,
            };
            same("allowed", channel_member_authority(act, role, st, IsSelf(me), mode, TargetIsOwner(to)) == ChannelAuthorityDecision::Allowed, want)
        });
    } } } } } }
}
