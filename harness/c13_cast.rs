//@mount src/storage/store/account/cast_store.rs
use super::*;
use crate::verif_h::support::*;
use crate::proto::{self, CastId, cast_add_body::Parent, message_data::Body};

pub fn run(c: &mut Ctx) {
    let d = CastStoreDef { prune_size_limit: 7 };
    for _ in 0..c.rounds(6000) {
        let f = c.fid();
        let h = c.bytes(20);
        let ts: [u8; 24] = c.bytes(24).try_into().unwrap();
        let n = c.len(&[10]); let mut men: Vec<u64> = (0..n).map(|_| c.fid()).collect();
        if c.p(1, 3) { c.dup(&mut men); }
        let (parent, tail) = match c.below(3) { 0 => (None, vec![]), 1 => { let u = c.string(&[1, 20]); (Some(Parent::ParentUrl(u.clone())), u.into_bytes()) } _ => { let g = c.fid(); (Some(Parent::ParentCastId(CastId { fid: g, hash: h.clone() })), cat(&[&fkey(g), &h])) } };
        let body = match c.below(6) { 0 => Body::CastRemoveBody(proto::CastRemoveBody { target_hash: h.clone() }), 1 => Body::UserDataBody(Default::default()), _ => Body::CastAddBody(proto::CastAddBody { mentions: men.clone(), parent: parent.clone(), text: c.string(&[4]), ..Default::default() }) };
        let kind = match &body { Body::CastAddBody(_) => 0, Body::CastRemoveBody(_) => 1, _ => 2 };
        let m = proto::Message { data: Some(proto::MessageData { fid: f, timestamp: c.u32(), r#type: c.i32(), body: Some(body), ..Default::default() }), hash: h, ..Default::default() };
        let of = if f > 0 { fkey(f) } else { vec![] };
        c.case("cast.by_parent", format!("{:?} ts={:?}", m, ts), || {
            let want = match kind { 0 => if parent.is_some() { Some(Some(cat(&[&[4], &tail, &ts, &of]))) } else { None }, 1 => Some(None), _ => None };
            same("by parent", d.by_parent_secondary_index_key(&ts, &m).ok(), want)
        });
        c.case("cast.by_mention", format!("{:?} ts={:?}", m, ts), || {
            let want = match kind { 0 => Some(if men.is_empty() { None } else { Some(men.iter().map(|x| cat(&[&[5], &fkey(*x), &ts, &of])).collect::<Vec<_>>()) }), 1 => Some(None), _ => None };
            same("by mention", d.by_mention_secondary_index_key(&ts, &m).ok(), want)
        });
    }
}
