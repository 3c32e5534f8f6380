//@mount src/storage/store/account/event.rs
use super::*;
use crate::proto::HubEventType;
use crate::verif_h::support::*;

fn ev(ty: i32) -> HubEvent { HubEvent { r#type: ty, ..Default::default() } }
const BC: i32 = HubEventType::BlockConfirmed as i32;

pub fn run(c: &mut Ctx) {
    let top = 1u64 << 50;
    for _ in 0..c.rounds(30000) {
        let h = c.int_in(0, top - 1); let s = c.int_in(0, (1 << 14) - 1); let g = if c.p(1, 2) { h } else { c.int_in(0, top - 1) }; let t = c.int_in(0, (1 << 14) - 1);
        c.case("packing", format!("({}, {}) and ({}, {})", h, s, g, t), || {
            let (a, b) = (HubEventIdGenerator::make_event_id(h, s), HubEventIdGenerator::make_event_id(g, t));
            same("id", a, h * 16384 + s)?;
            same("read back", HubEventIdGenerator::extract_height_and_seq(a), (h, s))?;
            same("order", a.cmp(&b), (h, s).cmp(&(g, t)))?;
            same("order of keys", make_event_key(a).cmp(&make_event_key(b)), (h, s).cmp(&(g, t)))?;
            same("block id", HubEventIdGenerator::make_event_id_for_block_number(h), h * 16384)
        });
        let x = c.int();
        c.case("extract", format!("{}", x), || { same("extract", HubEventIdGenerator::extract_height_and_seq(x), (x >> 14, x & 16383)) });
        // a history of the generator
        let start = if c.p(1, 3) { None } else { Some(if c.p(1, 4) { c.int() } else { c.int_in(0, top) }) };
        let seq = if c.p(1, 2) { None } else { Some(c.int_in(0, 16390)) };
        let ops: Vec<(u64, i32)> = (0..1 + c.below(12)).map(|_| if c.p(1, 8) { (c.int_in(0, top), -9) } else { (0, match c.below(4) { 0 => BC, 1 => c.i32(), _ => c.below(20) as i32 }) }).collect();
        c.case("history", format!("start {:?} {:?} then {:?}", start, seq, ops), || {
            let mut gen = HubEventIdGenerator::new(start, seq);
            let (mut h, mut s) = (start.unwrap_or(0), seq.unwrap_or(0));
            for (nh, ty) in &ops {
                if *ty == -9 { gen.set_current_height(*nh); h = *nh; s = 0; continue; }
                let r = gen.generate_id(&ev(*ty)).ok();
                let want = if h >= top || s >= 16384 { None } else if *ty == BC { Some(h * 16384) } else { let q = s.max(1); s = q + 1; Some(h * 16384 + q) };
                same("generated id", r, want)?;
            }
            Ok(())
        });
    }
    for k in 0..3u64 {
        c.case("full block", format!("height {}", k), || {
            let mut gen = HubEventIdGenerator::new(None, None); gen.set_current_height(k);
            let mut last = k * 16384;
            for i in 1..16384u64 { let x = gen.generate_id(&ev(1)).map_err(|e| format!("event {}: {}", i, e.message))?; holds("strictly increasing", x > last)?; same("id", x, k * 16384 + i)?; last = x; }
            holds("the 16384th is refused", gen.generate_id(&ev(1)).is_err())?;
            holds("and still is", gen.generate_id(&ev(2)).is_err())?;
            gen.set_current_height(k + 1);
            same("next block", gen.generate_id(&ev(1)).ok(), Some((k + 1) * 16384 + 1))
        });
    }
}
