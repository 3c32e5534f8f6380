//@mount src/storage/store/account/event.rs
use super::*;
use crate::verif_h::support::*;
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(3000) {
        let f = c.int();
        c.case("event.key", format!("{}", f), || same("key", make_event_key(f), cat(&[&[9], &be(f, 8)])));
    }
}
