//@mount src/storage/store/block.rs
use super::*;
use crate::verif_h::support::*;
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(3000) {
        let f = c.int(); let s = c.u32();
        c.case("blocks.key", format!("{} {}", f, s), || { same("block", make_block_key(f), cat(&[&[1], &be(f, 8)]))?; same("time", make_block_timestamp_index(s, f), cat(&[&[18], &be(s as u64, 4), &be(f, 8)])) });
    }
}
