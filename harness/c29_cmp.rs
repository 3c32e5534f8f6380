//@mount src/storage/store/account/user_data_store.rs
use super::*;
use crate::verif_h::support::*;

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(20000) {
        let mk = |c: &mut Ctx| UserNameProof { timestamp: c.u64(), name: c.blob(&[5]), owner: c.blob(&[20]), signature: c.blob(&[4, 65]), fid: c.fid(), r#type: 1 };
        let (a, mut b) = (mk(c), mk(c));
        if c.p(2, 3) { b.timestamp = if c.p(1, 2) { a.timestamp } else { a.timestamp.wrapping_add(c.int_in(0, 2) as u64).wrapping_sub(1) }; }
        if c.p(1, 2) { b.signature = a.signature.clone(); if c.p(1, 3) { b.signature.push(c.u8()); } else if c.p(1, 2) && !b.signature.is_empty() { let i = c.below(b.signature.len() as u64) as usize; b.signature[i] = c.u8(); } }
        let want = (a.timestamp, &a.signature).cmp(&(b.timestamp, &b.signature)) as i8;
        c.case("username.compare", format!("{:?} / {:?}", a, b), || {
            same("order", UserDataStore::username_proof_compare(&a, &b).signum(), want)?;
            same("reverse order", UserDataStore::username_proof_compare(&b, &a).signum(), -want)
        });
    }
}
