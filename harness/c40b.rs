//@mount src/storage/store/block_engine.rs
use super::*;
use crate::verif_h::support::*;

pub fn run(c: &mut Ctx) {
    for i in 0..c.rounds(4000) {
        let max = if i < 600 { i as u32 } else if c.p(1, 2) { c.u32() } else { u32::MAX - c.below(600) as u32 };
        c.case("verification.caps", format!("{}", max), || {
            let t: u32 = if max == 0 { 0 } else if max < 256 { 256 } else { max };
            same("removed", verification_tombstone_cap(max), t)?;
            same("rows", verification_row_cap(max) as u64, (max as u64 + t as u64).min(u32::MAX as u64))
        });
        let (a, t, n) = (c.below(50) as u32, c.below(50) as u32, c.below(22) as i32);
        let m = MessageType::try_from(n).unwrap_or(MessageType::None);
        c.case("verification.counters", format!("{:?} {} {}", m, a, t), || {
            let mut k = VerificationMessageCounts { live_adds: a, tombstones: t, ..Default::default() };
            let got = k.counter_mut(m).map(|x| { *x += 1000; *x });
            same("counter", got, match n { 7 => Some(a + 1000), 8 => Some(t + 1000), _ => None })?;
            same("both", (k.live_adds, k.tombstones), (if n == 7 { a + 1000 } else { a }, if n == 8 { t + 1000 } else { t }))
        });
        let id = c.blob(&[32]);
        let (u, mb, p, mo) = (proto::ChannelUpdateBody { channel_id: id.clone(), ..Default::default() }, proto::ChannelMemberBody { channel_id: id.clone(), ..Default::default() }, proto::ChannelPinBody { channel_id: id.clone(), ..Default::default() }, proto::ChannelModerateBody { channel_id: id.clone(), ..Default::default() });
        c.case("channel.id", format!("{:?}", id), || { for b in [ChannelAdmissionBody::Update(&u), ChannelAdmissionBody::Member(&mb), ChannelAdmissionBody::Pin(&p), ChannelAdmissionBody::Moderate(&mo)] { same("id", b.channel_id().to_vec(), id.clone())?; } Ok(()) });
    }
}
