//@mount src/network/server.rs
use super::*;
use crate::verif_h::support::*;

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(10000) {
        let size = match c.below(4) { 0 => None, 1 => Some(c.below(1200) as u32), _ => Some(c.u32()) };
        let tok = match c.below(4) { 0 => None, 1 => Some(vec![]), _ => Some(c.blob(&[5])) };
        let rev = match c.below(3) { 0 => None, 1 => Some(false), _ => Some(true) };
        c.case("channel_page_options", format!("{:?} {:?} {:?}", size, tok, rev), || {
            let p = channel_page_options(size, tok.clone(), rev);
            same("size", p.page_size, Some(size.map(|s| (s as usize).min(1000)).unwrap_or(1000)))?; same("token", p.page_token, tok.clone().filter(|t| t.len() > 0))?; same("reverse", p.reverse, rev == Some(true))
        });
        c.case("require_nonzero_page_size", format!("{:?}", size), || match require_nonzero_page_size(size) { Ok(()) => same("accepted", true, size != Some(0)), Err(e) => { same("refused", true, size == Some(0))?; same("code", e.code(), tonic::Code::InvalidArgument) } });
        let id = c.blob(&[32]);
        c.case("channel_id", format!("{:?}", id), || match require_channel_id_width(&id) { Ok(x) => same("id", x.to_vec(), id.clone()).and(same("length", id.len(), 32)), Err(e) => { same("refused", true, id.len() != 32)?; same("code", e.code(), tonic::Code::InvalidArgument) } });
        let n = c.below(4);
        let mk = |c: &mut Ctx, done: bool| ShardCursor { shard_id: c.u32(), scan: if done { ShardScan::Exhausted } else if c.p(1, 3) { ShardScan::Fresh } else { ShardScan::Resume(c.blob(&[6])) } };
        let all = c.p(1, 4);
        let v: Vec<ShardCursor> = (0..n).map(|_| { let d = all || c.p(1, 3); mk(c, d) }).collect();
        let show = format!("{:?}", v); let done = v.iter().all(|x| matches!(x.scan, ShardScan::Exhausted));
        let copy: Vec<(u32, String)> = v.iter().map(|x| (x.shard_id, format!("{:?}", x.scan))).collect();
        c.case("shard_cursors", show, || match encode_shard_cursors(v) {
            Ok(None) => same("listing ended", true, done),
            Ok(Some(b)) => { same("listing ended", false, done)?; let back: Vec<ShardCursor> = serde_json::from_slice(&b).map_err(|e| e.to_string())?; same("cursors read back", back.iter().map(|x| (x.shard_id, format!("{:?}", x.scan))).collect::<Vec<_>>(), copy.clone()) }
            Err(e) => Err(format!("not encoded: {}", e)),
        });
    }
}
