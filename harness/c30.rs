use super::support::*;
use crate::storage::store::account::select_verification_address_winner;

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(20000) {
        let n = c.below(7) as usize;
        let base: [u8; 24] = c.bytes(24).try_into().unwrap();
        let mut v: Vec<(u64, [u8; 24])> = (0..n).map(|_| {
            let mut h = base;
            if c.p(1, 4) { h = c.bytes(24).try_into().unwrap(); } else { for _ in 0..c.below(3) { let i = c.below(24) as usize; h[i] = c.u8(); } }
            (c.fid(), h)
        }).collect();
        if n > 1 && c.p(1, 3) { let (i, j) = (c.below(n as u64) as usize, c.below(n as u64) as usize); v[i].1 = v[j].1; }
        // the latest (timestamp, hash); among equal ones the smallest fid
        let mut want: Option<(u64, [u8; 24])> = None;
        for x in &v { want = match want { None => Some(*x), Some(w) => Some(if x.1 > w.1 || x.1 == w.1 && x.0 < w.0 { *x } else { w }) }; }
        let mut rev = v.clone(); rev.reverse();
        c.case("verification.winner", format!("{:?}", v), || {
            same("winner", select_verification_address_winner(v.clone()), want.map(|w| w.0))?;
            same("winner of the same rows in the opposite order", select_verification_address_winner(rev.clone()), want.map(|w| w.0))
        });
    }
}
