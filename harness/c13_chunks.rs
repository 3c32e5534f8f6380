//@mount src/storage/store/shard.rs
use super::*;
use crate::verif_h::support::*;
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(3000) {
        let f = c.int(); let s = c.u32();
        c.case("chunks.key", format!("{} {}", f, s), || { same("chunk", make_shard_key(f), cat(&[&[2], &be(f, 8)]))?; same("time", make_block_timestamp_index(s, f), cat(&[&[18], &be(s as u64, 4), &be(f, 8)])) });
    }
}
