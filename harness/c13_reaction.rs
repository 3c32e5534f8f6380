//@mount src/storage/store/account/reaction_store.rs
use super::*;
use crate::verif_h::support::*;
use crate::proto::{self, CastId, message_data::Body, reaction_body::Target};

pub fn run(c: &mut Ctx) {
    let d = ReactionStoreDef { prune_size_limit: 7, registrar: None };
    for _ in 0..c.rounds(6000) {
        let (f, g) = (c.fid(), c.fid());
        let h = c.bytes(20);
        let ts: [u8; 24] = c.bytes(24).try_into().unwrap();
        let (t, tail) = match c.below(5) { 0 => (None, vec![]), 1 | 2 => { let u = c.string(&[1, 20]); (Some(Target::TargetUrl(u.clone())), u.into_bytes()) } _ => (Some(Target::TargetCastId(CastId { fid: g, hash: h.clone() })), cat(&[&fkey(g), &h])) };
        let isr = c.p(7, 8); let ty = c.i32();
        let body = if isr { Body::ReactionBody(proto::ReactionBody { r#type: ty, target: t.clone() }) } else { Body::UserDataBody(Default::default()) };
        let m = proto::Message { data: Some(proto::MessageData { fid: f, body: Some(body), ..Default::default() }), ..Default::default() };
        c.case("reaction.index", format!("{:?} ts={:?}", m, ts), || {
            let want = if isr && t.is_some() { Some((cat(&[&[7], &tail, &ts, &(if f > 0 { fkey(f) } else { vec![] })]), ty as u8)) } else { None };
            same("index", d.secondary_index_key(&ts, &m).ok(), want)
        });
    }
}
