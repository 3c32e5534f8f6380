use super::support::*;
use crate::consensus::proposer::ProposedValues;
use crate::proto::{full_proposal::ProposedValue, Block, BlockHeader, Commits, FullProposal, Height, ShardChunk, ShardHash, ShardHeader};

pub fn run(c: &mut Ctx) {
    let value = |shard: u32, n: u64, tag: u8, round: i64| FullProposal {
        height: Some(Height::new(shard, n)), round, proposer: vec![tag; 32],
        proposed_value: Some(if shard == 0 { ProposedValue::Block(Block { hash: vec![n as u8, (n >> 32) as u8, tag], header: Some(BlockHeader { height: Some(Height::new(7, 7)), ..Default::default() }), ..Default::default() }) }
            else { ProposedValue::Shard(ShardChunk { hash: vec![n as u8, (n >> 32) as u8, tag], header: Some(ShardHeader { height: Some(Height::new(7, 7)), ..Default::default() }), ..Default::default() }) }),
    };
    let id = |v: &FullProposal| { let h = v.height.unwrap(); ShardHash { shard_index: h.shard_index, hash: match v.proposed_value.as_ref().unwrap() { ProposedValue::Block(b) => b.hash.clone(), ProposedValue::Shard(s) => s.hash.clone() } } };
    let heights = [0u64, 1, 2, 3, 4, 5, 255, 1 << 32, (1 << 32) + 1, u64::MAX];
    for _ in 0..c.rounds(6000) {
        let mut p = ProposedValues::new();
        let mut model: Vec<FullProposal> = vec![];
        let mut log = vec![];
        let shards: &[u32] = if c.p(1, 4) { &[0, 1, 2] } else { &[1] };
        for _ in 0..c.int_in(2, 25) {
            let (s, n, t) = (c.pick(shards), c.pick(&heights), c.pick(&[1u8, 2, 3]));
            if c.p(2, 3) {
                let v = value(s, n, t, c.int_in(0, 3) as i64);
                log.push(format!("add(shard {} height {} tag {})", s, n, t));
                model.retain(|m| id(m) != id(&v)); model.push(v.clone()); p.add_proposed_value(v);
            } else {
                let h = Height::new(s, n);
                log.push(format!("decide(shard {} height {})", s, n));
                model.retain(|m| m.height.unwrap() > h); p.decide(h);
            }
            let l = log.join("; ");
            c.case("history", l, || {
                same("count", p.count(), model.len())?;
                for s in 0..3 { for n in heights { for t in 1..4u8 {
                    let v = value(s, n, t, 0);
                    same("held", p.get_by_shard_hash(&id(&v)), model.iter().find(|m| id(m) == id(&v)))?;
                } } }
                same("another shard's hash", p.get_by_shard_hash(&ShardHash { shard_index: 9, hash: vec![1, 0, 1] }), None)
            });
        }
    }
    // many proposals at a few heights, proposals for distant heights, the same proposal again and again
    for _ in 0..c.rounds(60) {
        let mut p = ProposedValues::new();
        let mut model: Vec<FullProposal> = vec![];
        let crowd: &[u64] = if c.p(1, 2) { &[5] } else { &[4, 5, 6, 1 << 40] };
        let n = c.len(&[9, 17, 33, 65, 129, 250]).max(2);
        let mut log = format!("{} proposals", n);
        for i in 0..n {
            let v = value(1, c.pick(crowd), if c.p(9, 10) { i as u8 } else { 7 }, i as i64);
            model.retain(|m| id(m) != id(&v)); model.push(v.clone());
            log.push_str(&format!("; height {} tag {}", v.height.unwrap().block_number, v.proposer[0]));
            p.add_proposed_value(v);
        }
        let all = model.clone();
        c.case("crowd", log.clone(), || { same("count", p.count(), model.len())?; for v in &all { same("held", p.get_by_shard_hash(&id(v)), model.iter().find(|m| id(m) == id(v)))?; } Ok(()) });
        let h = Height::new(1, c.pick(&[3, 4, 5, 6, 1 << 40]));
        p.decide(h); model.retain(|m| m.height.unwrap() > h);
        c.case("crowd decided", format!("{}; decide {}", log, h.block_number), || { same("count", p.count(), model.len())?; for v in &all { same("held", p.get_by_shard_hash(&id(v)), model.iter().find(|m| id(m) == id(v)))?; } Ok(()) });
    }
    for _ in 0..c.rounds(5000) {
        let v = value(c.pick(&[0u32, 1, 2, u32::MAX]), c.u64(), c.u8(), c.u32() as i64);
        let (h, n) = (v.height.unwrap(), c.pick(&[0u64, 1, 2, u64::MAX]).max(c.below(3)));
        c.case("identity", format!("{:?}", v), || {
            same("hash", v.shard_hash(), id(&v))?;
            same("height", v.height(), h)?;
            same("shard", v.shard_id().ok(), Some(h.shard_index))?;
            same("shard without height", FullProposal { height: None, ..v.clone() }.shard_id().is_err(), true)?;
            let cm = Commits { round: 5, ..Default::default() };
            same("block", v.block(cm.clone()), match &v.proposed_value { Some(ProposedValue::Block(b)) => Some(Block { commits: Some(cm.clone()), ..b.clone() }), _ => None })?;
            same("chunk", v.shard_chunk(cm.clone()), match &v.proposed_value { Some(ProposedValue::Shard(b)) => Some(ShardChunk { commits: Some(cm.clone()), ..b.clone() }), _ => None })?;
            same("proposer", crate::core::types::FullProposalExt::proposer_address(&v).to_vec(), v.proposer.clone())?;
            same("number", h.as_u64(), h.block_number)?;
            if let Some(x) = h.block_number.checked_add(n) { same("later", h.increment_by(n), Height::new(h.shard_index, x))?; }
            if h.block_number < u64::MAX { same("next", h.increment(), Height::new(h.shard_index, h.block_number + 1))?; }
            same("earlier", h.decrement_by(n), h.block_number.checked_sub(n).map(|x| Height::new(h.shard_index, x)))?;
            same("previous", h.decrement(), h.block_number.checked_sub(1).map(|x| Height::new(h.shard_index, x)))
        });
    }
}
