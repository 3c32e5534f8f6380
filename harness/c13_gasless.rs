//@mount src/storage/store/account/key_add_store.rs
use super::*;
use crate::verif_h::support::*;
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(3000) {
        let f = c.int();
        c.case("gasless.key", format!("{}", f), || same("key", make_gasless_key_by_fid_prefix(f), cat(&[&[23, 105], &fkey(f)])));
    }
}
