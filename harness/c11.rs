use super::support::*;
use crate::mempool::routing::{route_message, MessageRouter, ShardRouter};
use crate::proto::{Message, MessageData, MessageType};
use crate::version::version::EngineVersion;
use sha2::{Digest, Sha256};
use strum::IntoEnumIterator;

fn home(fid: u32, n: u32) -> u32 {
    let h = Sha256::digest([(fid >> 24) as u8, (fid >> 16) as u8, (fid >> 8) as u8, fid as u8]);
    let x = (h[0] as u32) << 24 | (h[1] as u32) << 16 | (h[2] as u32) << 8 | h[3] as u32;
    x % n + 1
}

pub fn run(c: &mut Ctx) {
    let router: Box<dyn MessageRouter> = Box::new(ShardRouter {});
    let vs: Vec<EngineVersion> = EngineVersion::iter().collect();
    for _ in 0..c.rounds(40000) {
        let fid = c.fid32(); let n = match c.below(3) { 0 => c.range(1, 8) as u32, 1 => c.int_in(1, u32::MAX as u64) as u32, _ => c.pick(&[1, 2, 3, 16, 100, 255, 256]) };
        c.case("route_fid", format!("fid {} of {} shards", fid, n), || {
            let r = ShardRouter {}.route_fid(fid, n);
            holds("1..=n", r >= 1 && r <= n)?;
            same("route_fid", r, home(fid as u32, n))
        });
    }
    for v in vs {
        for ty in -2i32..40 {
            for k in 0..12 {
                let fid = if k == 0 { 0 } else { c.fid32() };
                let n = if k % 3 == 0 { c.int_in(1, u32::MAX as u64) as u32 } else { c.range(1, 6) as u32 };
                let m = if k == 5 && ty == 0 { Message::default() } else {
                    Message { data: Some(MessageData { r#type: ty, fid, timestamp: c.u32(), network: c.below(4) as i32, ..Default::default() }), ..Default::default() } };
                c.case("is_type", format!("type {} data present {}", ty, m.data.is_some()), || {
                    for t in (0..40).filter_map(|i| MessageType::try_from(i).ok()) { same(&format!("is {:?}", t), m.is_type(t), m.data.is_some() && ty == t as i32)?; }
                    Ok(())
                });
                c.case("route_message", format!("type {} fid {} shards {} version {:?} (data present: {})", ty, fid, n, v, m.data.is_some()), || {
                    // 15 LendStorage, 16 KeyAdd, 17 KeyRemove, channel types; 7/8 verification add/remove
                    let zero = [MessageType::LendStorage, MessageType::KeyAdd, MessageType::KeyRemove, MessageType::ChannelUpdate, MessageType::ChannelMember,
                        MessageType::ChannelPin, MessageType::ChannelModerate].iter().any(|t| *t as i32 == ty);
                    let ver = ty == MessageType::VerificationAddEthAddress as i32 || ty == MessageType::VerificationRemove as i32;
                    let d = m.data.is_some();
                    let want = if d && (zero || ver && v as u32 >= 21) { 0 } else { home(if d { fid as u32 } else { 0 }, n) };
                    same("route_message", route_message(&router, &m, n, v), want)
                });
            }
        }
    }
    for _ in 0..c.rounds(2000) {
        let (fid, other) = (c.fid32(), c.fid32());
        let k = c.below(9);
        let shard = c.below(5) as u32;
        let um = Message { data: Some(MessageData { r#type: 1, fid, ..Default::default() }), ..Default::default() };
        let ev = crate::proto::OnChainEvent { fid, chain_id: other as u32, block_number: other as u32, ..Default::default() };
        let tr = crate::proto::FnameTransfer { id: other, from_fid: other, proof: Some(crate::proto::UserNameProof { fid, timestamp: other, ..Default::default() }) };
        let be = |b| crate::proto::BlockEvent { hash: vec![], data: Some(crate::proto::BlockEventData { seqnum: other, r#type: 0, block_number: other, event_index: 3, block_timestamp: 5, body: Some(b) }) };
        use crate::proto::block_event_data::Body;
        use crate::storage::store::mempool_poller::MempoolMessage as M;
        let (m, want) = match k {
            0 => (M::UserMessage(um), fid), 1 => (M::OnchainEvent(ev), fid), 2 => (M::OnchainEventForMigration(ev), fid), 3 => (M::FnameTransfer(tr), fid),
            4 => (M::BlockEvent { for_shard: shard, message: be(Body::MergeMessageEventBody(crate::proto::MergeMessageEventBody { message: Some(um) })) }, fid),
            5 => (M::BlockEvent { for_shard: shard, message: be(Body::MergeOnChainEventEventBody(crate::proto::MergeOnChainEventEventBody { on_chain_event: Some(ev) })) }, fid),
            6 => (M::BlockEvent { for_shard: shard, message: be(Body::MergeOnChainEventEventBody(crate::proto::MergeOnChainEventEventBody { on_chain_event: None })) }, 0),
            8 => (M::BlockEvent { for_shard: shard, message: crate::proto::BlockEvent { hash: vec![], data: None } }, 0),
            _ => (M::BlockEvent { for_shard: shard, message: be(Body::HeartbeatEventBody(Default::default())) }, 0) };
        c.case("MempoolMessage::fid", format!("kind {} fid {} other {}", k, fid, other), || same("the user a waiting item belongs to", m.fid(), want));
    }
}
