//@mount src/storage/store/account/block_event_store.rs
use super::*;
use crate::verif_h::support::*;
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(3000) {
        let f = c.int();
        c.case("block.key", format!("{}", f), || same("key", make_block_event_key(f), cat(&[&[19], &be(f, 8)])));
    }
}
