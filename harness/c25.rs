//@mount src/mempool/mempool.rs
use super::*;
use crate::proto::message_data::Body;
use crate::verif_h::support::*;

const E: u64 = 1609459200;
fn hx(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn key(k: MempoolKey) -> (bool, u64, String) { (matches!(k.message_kind, MempoolMessageKind::UserMessage), k.timestamp, k.identity()) }
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(15000) {
        let few = c.p(1, 2); let t = |c: &mut Ctx| if few { c.below(3) } else { c.u64() };
        let mk = |c: &mut Ctx| (c.p(1, 2), t(c), if few { c.pick(&["", "a", "b", "10", "9"]).to_string() } else { c.string(&[4]) });
        let (a, b) = (mk(c), mk(c));
        let make = |x: &(bool, u64, String)| MempoolKey::new(if x.0 { MempoolMessageKind::UserMessage } else { MempoolMessageKind::ValidatorMessage }, x.1, x.2.clone());
        c.case("mempool.order", format!("{:?} / {:?}", a, b), || same("order", make(&a).cmp(&make(&b)), a.cmp(&b)));
    }
    for _ in 0..c.rounds(15000) {
        let body = match c.below(6) {
            0 => None, 1 => Some(Body::KeyAddBody(Default::default())), 2 => Some(Body::KeyRemoveBody(Default::default())),
            3 => Some(Body::CastRemoveBody(Default::default())), _ => Some(Body::UserDataBody(proto::UserDataBody { r#type: if c.p(1, 2) { proto::UserDataType::LiveAt as i32 } else { c.below(20) as i32 }, value: c.string(&[3]) })),
        };
        let ts = c.u32();
        let m = proto::Message { data: Some(proto::MessageData { body, timestamp: ts, fid: c.fid(), r#type: c.below(20) as i32, network: 1 }), hash: c.blob(&[20]), signer: c.blob(&[32]), ..Default::default() };
        let empty = proto::Message { data: None, ..m.clone() };
        let b = m.data.as_ref().unwrap().body.clone();
        c.case("mempool.user_key", format!("{:?}", m), || {
            let want = (true, ts as u64 + E, hx(&m.hash));
            same("key", key(m.mempool_key()), want.clone())?; same("key of the wrapped message", key(MempoolMessage::UserMessage(m.clone()).mempool_key()), want)
        });
        c.case("mempool.kind", format!("{:?}", m), || {
            same("key addition", is_key_add(&m), matches!(b, Some(Body::KeyAddBody(_))))?; same("live status", is_live_at(&m), matches!(&b, Some(Body::UserDataBody(u)) if u.r#type == 14))?;
            same("no data", (is_key_add(&empty), is_live_at(&empty)), (false, false))
        });
        let mut o = m.clone();
        if c.p(1, 2) { o.hash = c.blob(&[20]); } else if o.hash.len() > 0 { let i = c.below(o.hash.len() as u64) as usize; o.hash[i] = c.u8(); }
        if c.p(1, 2) { o.data.as_mut().unwrap().timestamp = match c.below(3) { 0 => ts.wrapping_add(1), 1 => ts.wrapping_sub(1), _ => c.u32() }; }
        if c.p(1, 10) { o.data = None; }
        let want = match (&m.data, &o.data) { (Some(a), Some(b)) if m.hash.len() == 20 && o.hash.len() == 20 => Some((a.timestamp, &m.hash).cmp(&(b.timestamp, &o.hash)) as i8), _ => None };
        c.case("mempool.live_at", format!("{:?} / {:?}", m, o), || { same("winner", live_at_lww_compare(&m, &o).map(|x| x.signum()), want)?; same("winner, other way round", live_at_lww_compare(&o, &m).map(|x| x.signum()), want.map(|x| -x)) });
    }
    for _ in 0..c.rounds(15000) {
        let e = proto::OnChainEvent { block_timestamp: c.u64(), transaction_hash: c.blob(&[32]), log_index: c.u32(), block_number: c.u32(), tx_index: c.u32(), fid: c.fid(), ..Default::default() };
        let f = proto::FnameTransfer { id: c.u64(), from_fid: c.fid(), proof: Some(proto::UserNameProof { timestamp: c.u64(), fid: c.fid(), name: c.blob(&[5]), ..Default::default() }) };
        let mut d = proto::BlockEventData { seqnum: c.u64(), block_timestamp: c.u64(), event_index: c.u64(), block_number: c.u64(), ..Default::default() };
        d.block_timestamp = d.block_timestamp.min(u64::MAX - E);
        let b = proto::BlockEvent { hash: c.blob(&[20]), data: Some(d.clone()) };
        let we = (false, e.block_timestamp, format!("{}{}", hx(&e.transaction_hash), e.log_index));
        let wf = (false, f.proof.as_ref().unwrap().timestamp, f.id.to_string());
        let wb = (false, d.block_timestamp + E, d.seqnum.to_string());
        let v = |x: bool, y: bool, z: bool| key(proto::ValidatorMessage { on_chain_event: if x { Some(e.clone()) } else { None }, fname_transfer: if y { Some(f.clone()) } else { None }, block_event: if z { Some(b.clone()) } else { None } }.mempool_key());
        c.case("mempool.validator_key", format!("{:?} {:?} {:?}", e, f, b), || {
            same("chain event", v(true, false, false), we.clone())?; same("transfer", v(false, true, false), wf.clone())?; same("block event", v(false, false, true), wb.clone())?;
            same("nothing", v(false, false, false), (false, 0, "unknown".to_string()))?;
            same("wrapped chain event", key(MempoolMessage::OnchainEvent(e.clone()).mempool_key()), we.clone())?; same("wrapped migrated chain event", key(MempoolMessage::OnchainEventForMigration(e.clone()).mempool_key()), we.clone())?;
            same("wrapped transfer", key(MempoolMessage::FnameTransfer(f.clone()).mempool_key()), wf.clone())?; same("wrapped block event", key(MempoolMessage::BlockEvent { for_shard: 1, message: b.clone() }.mempool_key()), wb.clone())
        });
    }
}
