use super::support::*;
use crate::core::validations::{cast::*, validate_cast_id, validate_fid, validate_url};
use crate::proto::{cast_add_body::Parent, embed, CastAddBody, CastId, CastRemoveBody, Embed};
use crate::version::version::EngineVersion;
use strum::IntoEnumIterator;

fn url(c: &mut Ctx, good: bool) -> String { if good { let n = c.pick(&[1usize, 2, 30, 255, 256]); c.text(n) } else { c.string(&[0, 1, 256]) } }
fn cast_id(c: &mut Ctx, good: bool) -> CastId {
    if good { CastId { fid: c.fid().max(1), hash: c.bytes(20) } } else { CastId { fid: if c.p(1, 4) { 0 } else { c.fid() }, hash: if c.p(2, 3) { c.bytes(20) } else { c.blob(&[0, 20]) } } }
}
fn ok_url(u: &str) -> bool { u.len() >= 1 && u.len() <= 256 }
fn ok_id(i: &CastId) -> bool { i.fid != 0 && i.hash.len() == 20 }
fn ok(b: &CastAddBody, old: bool, pro: bool, v: u32) -> bool {
    let n = b.text.len();
    let kind = match b.r#type { 0 => n <= 320, 1 => n > 320 && n <= 1024, 2 => pro && n > 1024 && n <= 10000, _ => false };
    let embeds = b.embeds.len() <= if pro || v >= 20 { 4 } else { 2 };
    let dep = if old { b.embeds_deprecated.len() <= 2 } else { b.embeds_deprecated.is_empty() };
    let mix = b.embeds.is_empty() || b.embeds_deprecated.is_empty();
    let men = b.mentions.len() <= 10 && b.mentions.len() == b.mentions_positions.len() && !b.mentions.contains(&0)
        && b.mentions_positions.iter().all(|p| *p as usize <= n) && b.mentions_positions.windows(2).all(|w| w[0] <= w[1]);
    let some = n > 0 || !b.embeds.is_empty() || !b.embeds_deprecated.is_empty() || !b.mentions.is_empty();
    let el = b.embeds.iter().all(|e| match &e.embed { None => false, Some(embed::Embed::Url(u)) => ok_url(u), Some(embed::Embed::CastId(i)) => ok_id(i) });
    let par = match &b.parent { None => true, Some(Parent::ParentCastId(i)) => ok_id(i), Some(Parent::ParentUrl(u)) => ok_url(u) };
    kind && embeds && dep && mix && men && some && el && b.embeds_deprecated.iter().all(|u| ok_url(u)) && par
}
fn show(b: &CastAddBody) -> String {
    let cut = |s: &str| -> String { if s.len() > 20 { format!("<{} bytes>", s.len()) } else { format!("{:?}", s) } };
    format!("type {} text {} embeds {:?} deprecated {:?} mentions {:?} at {:?} parent {:?}", b.r#type, cut(&b.text),
        b.embeds.iter().map(|e| match &e.embed { None => "none".into(), Some(embed::Embed::Url(u)) => cut(u), Some(embed::Embed::CastId(i)) => format!("cast fid {} hash {} bytes", i.fid, i.hash.len()) }).collect::<Vec<_>>(),
        b.embeds_deprecated.iter().map(|u| cut(u)).collect::<Vec<_>>(), b.mentions, b.mentions_positions,
        b.parent.as_ref().map(|p| match p { Parent::ParentCastId(i) => format!("cast fid {} hash {} bytes", i.fid, i.hash.len()), Parent::ParentUrl(u) => cut(u) }))
}
fn body(c: &mut Ctx) -> CastAddBody {
    // mostly well-formed, with a few defects
    let bad = c.below(4);
    let mut g = |c: &mut Ctx| !(bad > 0 && c.p(1, 6));
    let ty = if g(c) { c.below(3) as i32 } else { let x = c.i32(); c.pick(&[3, -1, 4, x]) };
    let n = if g(c) { match ty { 0 => c.pick(&[0usize, 1, 100, 319, 320]), 1 => c.pick(&[321usize, 500, 1023, 1024]), _ => c.pick(&[1025usize, 5000, 9999, 10000]) } }
        else { c.len(&[0, 320, 321, 1024, 1025, 10000, 10001]) };
    let text = if c.p(1, 40) { c.string(&[320, 1024, 10000]) } else { c.text(n) };
    let n = text.len() as u64;
    let use_dep = c.p(1, 3);
    let ne = if use_dep && g(c) { 0 } else if g(c) { c.below(5) } else { c.below(7) };
    let embeds = (0..ne).map(|_| { let gg = g(c); Embed { embed: if !gg && c.p(1, 3) { None } else if c.p(1, 2) { Some(embed::Embed::Url(url(c, gg))) } else { Some(embed::Embed::CastId(cast_id(c, gg))) } } }).collect();
    let nd = if use_dep { c.below(4) } else { 0 };
    let embeds_deprecated = (0..nd).map(|_| { let gg = g(c); url(c, gg) }).collect();
    let nm = if g(c) { c.pick(&[0u64, 0, 1, 2, 3, 9, 10]) } else { c.pick(&[10u64, 11, 12]) };
    let mentions: Vec<u64> = (0..nm).map(|_| if g(c) { c.fid().max(1) } else { 0 }).collect();
    let mut mentions = mentions; if c.p(1, 3) { c.dup(&mut mentions); }
    let np = if g(c) { nm } else { c.below(12) };
    let mut mentions_positions: Vec<u32> = (0..np).map(|_| if g(c) { c.int_in(0, n) as u32 } else { c.int_in(n, u32::MAX as u64) as u32 }).collect();
    if c.p(1, 4) { c.dup(&mut mentions_positions); }
    if g(c) { mentions_positions.sort(); if c.p(1, 8) && mentions_positions.len() > 1 { let i = c.below(mentions_positions.len() as u64 - 1) as usize; mentions_positions.swap(i, i + 1); } }
    let parent = match c.below(3) { 0 => None, 1 => { let gg = g(c); Some(Parent::ParentUrl(url(c, gg))) } _ => { let gg = g(c); Some(Parent::ParentCastId(cast_id(c, gg))) } };
    CastAddBody { text, embeds, embeds_deprecated, mentions, mentions_positions, parent, r#type: ty }
}

pub fn run(c: &mut Ctx) {
    let vs: Vec<EngineVersion> = EngineVersion::iter().collect();
    for _ in 0..c.rounds(25000) {
        let b = body(c); let (old, pro, v) = (c.p(1, 2), c.p(1, 2), c.pick(&vs));
        c.case("validate_cast_add_body", format!("{} deprecated allowed {} pro {} {:?}", show(&b), old, pro, v), || {
            same("accepted", validate_cast_add_body(&b, old, pro, v).is_ok(), ok(&b, old, pro, v as u32))
        });
        let u = c.string(&[0, 1, 256, 320]);
        c.case("validate_url", format!("{} bytes {:?}", u.len(), u.chars().take(30).collect::<String>()), || same("accepted", validate_url(&u).is_ok(), ok_url(&u)));
        let gg = c.p(1, 3); let i = cast_id(c, gg);
        c.case("validate_cast_id", format!("{:?}", i), || same("accepted", validate_cast_id(&i).is_ok(), ok_id(&i)));
        c.case("validate_fid", format!("{}", i.fid), || same("accepted", validate_fid(i.fid).is_ok(), i.fid != 0));
        let h = c.blob(&[0, 20, 24, 32]);
        c.case("validate_cast_remove_body", format!("{} bytes", h.len()), || same("accepted", validate_cast_remove_body(&CastRemoveBody { target_hash: h.clone() }).is_ok(), h.len() == 20));
    }
}
