//@mount src/core/validations/message.rs
use super::*;
use crate::proto::{link_body, reaction_body, CastId, LendStorageBody, LinkBody, LinkCompactStateBody, ReactionBody};
use crate::verif_h::support::*;

fn cast_id(c: &mut Ctx) -> CastId { CastId { fid: if c.p(1, 5) { 0 } else { c.fid() }, hash: if c.p(3, 4) { c.bytes(20) } else { c.blob(&[0, 20, 24]) } } }
fn ok_id(i: &CastId) -> bool { i.fid != 0 && i.hash.len() == 20 }
fn field(c: &mut Ctx, max: u64) -> Vec<u8> { if c.p(3, 4) { let n = c.pick(&[1, max / 2, max - 1, max]) as usize; vec![7; n] } else { let n = c.len(&[0, max, max + 1]); vec![9; n] } }

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(40000) {
        let t = if c.p(1, 3) { c.pick(&["follow", "block", "f", "12345678"]).to_string() } else { c.string(&[0, 1, 8, 9]) };
        let okt = t.len() >= 1 && t.len() <= 8;
        let fid = if c.p(1, 4) { 0 } else { c.fid() };
        let target = if c.p(1, 5) { None } else { Some(link_body::Target::TargetFid(fid)) };
        let b = LinkBody { r#type: t.clone(), display_timestamp: if c.p(1, 2) { Some(c.u32()) } else { None }, target };
        c.case("validate_link_body", format!("{:?}", b), || same("accepted", link::validate_link_body(&b).is_ok(), okt && b.target.is_some() && fid != 0));
        c.case("validate_link_type", format!("{:?}", t), || same("accepted", link::validate_link_type(&t).is_ok(), okt));
        let n = c.below(6); let mut fids: Vec<u64> = (0..n).map(|_| c.fid().max(1)).collect();
        if n > 0 && c.p(1, 2) { let i = c.below(n) as usize; fids[i] = 0; }
        if c.p(1, 20) { let f = c.fid().max(1); fids = vec![f; c.pick(&[100usize, 1000, 7000])]; if c.p(1, 2) { let l = fids.len(); fids[l - 1] = 0 } }
        let b = LinkCompactStateBody { r#type: t.clone(), target_fids: fids.clone() };
        c.case("validate_link_compact_state_body", format!("type {:?} targets {:?}", t, fids.iter().take(8).collect::<Vec<_>>()), || {
            same("accepted", link::validate_link_compact_state_body(&b).is_ok(), okt && !fids.is_empty() && !fids.contains(&0))
        });
        let ty = if c.p(2, 3) { c.below(4) as i32 } else { c.i32() };
        let id = cast_id(c); let u = c.string(&[0, 1, 256, 257]);
        let (target, okr) = match c.below(3) { 0 => (None, false), 1 => (Some(reaction_body::Target::TargetCastId(id.clone())), ok_id(&id)),
            _ => (Some(reaction_body::Target::TargetUrl(u.clone())), u.len() >= 1 && u.len() <= 256) };
        let b = ReactionBody { r#type: ty, target };
        c.case("validate_reaction_body", format!("{:?}", b), || {
            same("type accepted", reaction::validate_reaction_type(ty).is_ok(), ty >= 0 && ty <= 2)?;
            if let Some(t) = &b.target { same("target accepted", reaction::validate_target(t).is_ok(), okr)?; }
            same("accepted", reaction::validate_reaction_body(&b).is_ok(), ty >= 0 && ty <= 2 && okr)
        });
        let f = FrameActionBody { url: field(c, 1024), button_index: if c.p(2, 3) { c.below(6) as u32 } else { c.u32() }, cast_id: if c.p(1, 2) { None } else { Some(cast_id(c)) },
            input_text: field(c, 256), state: field(c, 4096), transaction_id: field(c, 256), address: field(c, 64) };
        c.case("validate_frame_action_body", format!("button {} url {} input {} state {} tx {} address {} bytes, cast {:?}", f.button_index, f.url.len(), f.input_text.len(), f.state.len(),
            f.transaction_id.len(), f.address.len(), f.cast_id), || {
            let ok = f.button_index <= 5 && f.url.len() >= 1 && f.url.len() <= 1024 && f.input_text.len() <= 256 && f.state.len() <= 4096 && f.transaction_id.len() <= 256
                && f.address.len() <= 64 && f.cast_id.as_ref().map_or(true, ok_id);
            same("accepted", validate_frame_action_body(&f).is_ok(), ok)
        });
        let l = LendStorageBody { to_fid: c.fid(), num_units: if c.p(1, 2) { c.pick(&[0, 1, 4999, 5000, 5001, 5002]) } else { c.int() }, unit_type: if c.p(2, 3) { c.below(4) as i32 } else { c.i32() } };
        c.case("validate_lend_storage_body", format!("{:?}", l), || same("accepted", validate_lend_storage_body(&l).is_ok(), l.num_units <= 5000 && l.unit_type >= 0 && l.unit_type <= 2));
    }
}
