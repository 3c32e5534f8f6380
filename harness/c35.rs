//@mount src/storage/store/block_engine.rs
use super::*;
use crate::verif_h::support::*;

pub fn run(c: &mut Ctx) {
    let vs: Vec<EngineVersion> = [EngineVersion::V1, EngineVersion::V10, EngineVersion::V19, EngineVersion::V20, EngineVersion::V21].to_vec();
    for _ in 0..c.rounds(8000) {
        let n = if c.p(1, 12) { 21 + c.below(180) } else { c.below(8) } as usize; let few = c.p(2, 3);
        let ms: Vec<proto::ValidatorMessage> = (0..n).map(|i| {
            let on_chain_event = if c.p(2, 3) { Some(OnChainEvent { block_number: if few { c.below(3) as u32 } else { c.u32() }, log_index: if few { c.below(3) as u32 } else { c.u32() }, tx_index: c.below(3) as u32, fid: c.fid(), block_timestamp: c.below(3), chain_id: i as u32, ..Default::default() }) } else { None };
            let fname_transfer = if on_chain_event.is_none() && c.p(1, 2) || c.p(1, 9) { Some(proto::FnameTransfer { id: c.below(4), from_fid: i as u64, proof: None }) } else { None };
            let block_event = if on_chain_event.is_none() && fname_transfer.is_none() && c.p(4, 5) { Some(BlockEvent { hash: vec![i as u8], data: Some(BlockEventData { seqnum: c.below(5), ..Default::default() }) }) } else { None };
            proto::ValidatorMessage { on_chain_event, fname_transfer, block_event }
        }).collect();
        let v = c.pick(&vs);
        let mut want = ms.clone();
        if v as u8 as i64 >= EngineVersion::V21 as u8 as i64 {
            // insertion sort, written out
            want = vec![];
            for m in &ms { let key = |m: &proto::ValidatorMessage| match &m.on_chain_event { Some(e) => (0u8, e.block_number, e.log_index), None => (1, 0, 0) };
                let at = want.iter().position(|w| key(w) > key(m)).unwrap_or(want.len()); want.insert(at, m.clone()); }
        }
        c.case("replay.order", format!("{:?} {:?}", v, ms), || same("order", block_engine_system_messages_for_replay(&ms, v).into_owned(), want.clone()));
    }
}
