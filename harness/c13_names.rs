//@mount src/storage/store/account/username_proof_store.rs
use super::*;
use crate::verif_h::support::*;
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(5000) {
        let f = c.fid(); let n = c.blob(&[20]);
        c.case("names.keys", format!("fid={} name={:?}", f, n), || {
            same("by name", UsernameProofStoreDef::make_username_proof_by_name_key(&n), cat(&[&[16], &n]))?;
            same("by fid", UsernameProofStoreDef::make_username_proof_by_fid_key(f, &n), cat(&[&ukey(f), &[99], &n]))
        });
    }
}
