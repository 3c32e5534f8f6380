use super::support::*;
use crate::network::rpc_extensions::*;
use crate::proto::{self, *};
use crate::storage::db::PageOptions;
use crate::storage::store::account::is_message_in_time_range;

type P = (Option<usize>, Option<Vec<u8>>, bool);
fn parts(p: PageOptions) -> P { (p.page_size, p.page_token, p.reverse) }
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(10000) {
        let page_size = if c.p(1, 4) { None } else { Some(c.u32()) };
        let page_token = match c.below(4) { 0 => None, 1 => Some(vec![]), _ => Some(c.blob(&[5])) };
        let reverse = match c.below(3) { 0 => None, 1 => Some(false), _ => Some(true) };
        let want: P = (page_size.map(|x| x as usize), page_token.clone().filter(|t| t.len() > 0), reverse == Some(true));
        let t = page_token.clone();
        let bound = |c: &mut Ctx| match c.below(4) { 0 => None, 1 => Some(c.u32() as u64), 2 => Some((1u64 << 32) + c.below(5000) - 2500), _ => Some(c.u64()) };
        let ft = FidTimestampRequest { fid: c.fid(), page_size, page_token: t.clone(), reverse, start_timestamp: bound(c), stop_timestamp: bound(c) };
        c.case("page_options", format!("{:?}", (page_size, &page_token, reverse)), || {
            same("FidRequest", parts(FidRequestExt::page_options(&FidRequest { fid: 1, page_size, page_token: t.clone(), reverse })), want.clone())?;
            same("SignersByFidRequest", parts(FidRequestExt::page_options(&SignersByFidRequest { fid: 1, page_size, page_token: t.clone(), reverse, ..Default::default() })), want.clone())?;
            same("ChannelsByAddressRequest", parts(FidRequestExt::page_options(&ChannelsByAddressRequest { page_size, page_token: t.clone(), reverse, ..Default::default() })), want.clone())?;
            same("FidTimestampRequest", parts(FidTimestampRequestExt::page_options(&ft)), want.clone())?;
            same("CastsByParentRequest", parts(CastsByParentRequestExt::page_options(&CastsByParentRequest { page_size, page_token: t.clone(), reverse, ..Default::default() })), want.clone())?;
            same("ReactionsByFidRequest", parts(ReactionsByFidRequestExt::page_options(&ReactionsByFidRequest { page_size, page_token: t.clone(), reverse, ..Default::default() })), want.clone())?;
            same("LinksByFidRequest", parts(LinksByFidRequestExt::page_options(&LinksByFidRequest { page_size, page_token: t.clone(), reverse, ..Default::default() })), want.clone())
        });
        let ts = c.u32().min(u32::MAX - 1);
        let m = proto::Message { data: if c.p(9, 10) { Some(MessageData { timestamp: ts, fid: 1, ..Default::default() }) } else { None }, ..Default::default() };
        c.case("time_window", format!("{:?} .. {:?} on {:?}", ft.start_timestamp, ft.stop_timestamp, m.data.as_ref().map(|d| d.timestamp)), || {
            let (a, b) = ft.timestamps();
            let want = m.data.is_some() && ft.start_timestamp.map(|s| s <= ts as u64).unwrap_or(true) && ft.stop_timestamp.map(|s| ts as u64 <= s).unwrap_or(true);
            same("in the window", is_message_in_time_range(a, b, &m), want)
        });
        let (a, b) = (c.u32(), c.u32());
        let t = match c.below(4) { 0 => a, 1 => b, 2 => a.wrapping_add(1), _ => b.wrapping_sub(1) };
        let m = proto::Message { data: Some(MessageData { timestamp: t, fid: 1, ..Default::default() }), ..Default::default() };
        c.case("in_time_range", format!("{} in {} .. {}", t, a, b), || {
            same("both", is_message_in_time_range(Some(a), Some(b), &m), a <= t && t <= b)?;
            same("from", is_message_in_time_range(Some(a), None, &m), a <= t)?; same("until", is_message_in_time_range(None, Some(b), &m), t <= b)?; same("all", is_message_in_time_range(None, None, &m), true)
        });
    }
}
