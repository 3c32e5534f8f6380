//@mount src/storage/store/account/user_data_store.rs
use super::*;
use crate::verif_h::support::*;
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(5000) {
        let f = c.fid(); let t = c.i32();
        c.case("data.keys", format!("fid={} type={}", f, t), || same("slot", UserDataStoreDef::make_user_data_adds_key(f, t), cat(&[&ukey(f), &[97], &(if t > 0 { vec![t as u8] } else { vec![] })])));
    }
}
