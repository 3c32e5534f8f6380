//@mount src/storage/store/account/link_store.rs
use super::*;
use crate::verif_h::support::*;
use crate::proto::{self, message_data::Body, link_body::Target};

pub fn run(c: &mut Ctx) {
    let d = LinkStore { prune_size_limit: 7 };
    for _ in 0..c.rounds(6000) {
        let (f, g) = (c.fid(), c.fid());
        let n = c.len(&[8]); let lt = c.text(n);
        let ts: [u8; 24] = c.bytes(24).try_into().unwrap();
        c.case("link.compact_key", format!("fid={} type={:?}", f, lt), || {
            let mut p = lt.as_bytes().to_vec(); p.resize(8, 0);
            same("compact key", LinkStore::link_compact_state_add_key(f, &lt).ok(), Some(cat(&[&ukey(f), &[100], &p])))
        });
        let o = if c.p(1, 2) { Some(&ts) } else { None };
        let f0 = if c.p(1, 4) { 0 } else { f };
        c.case("link.by_target", format!("target={} fid={} ts={:?}", g, f0, o), || {
            let want = if (f0 != 0) != o.is_some() { None } else { Some(cat(&[&[6], &fkey(g), o.map(|x| &x[..]).unwrap_or(&[]), &(if f0 > 0 { fkey(f0) } else { vec![] })])) };
            same("by target", LinkStore::links_by_target_key(&Target::TargetFid(g), f0, o).ok(), want)
        });
        let tgt = if c.p(5, 6) { Some(Target::TargetFid(g)) } else { None };
        let isl = c.p(7, 8);
        let body = if isl { Body::LinkBody(proto::LinkBody { r#type: lt.clone(), target: tgt.clone(), display_timestamp: None }) } else { Body::UserDataBody(Default::default()) };
        let m = proto::Message { data: Some(proto::MessageData { fid: f0, body: Some(body), ..Default::default() }), ..Default::default() };
        c.case("link.index", format!("{:?} ts={:?}", m, ts), || {
            let want = if isl && tgt.is_some() && f0 > 0 { Some((cat(&[&[6], &fkey(g), &ts, &fkey(f0)]), lt.as_bytes().to_vec())) } else { None };
            same("index", d.secondary_index_key(&ts, &m).ok(), want)
        });
    }
}
