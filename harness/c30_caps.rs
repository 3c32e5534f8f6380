//@mount src/storage/store/block_engine.rs
use super::*;
use crate::verif_h::support::*;

pub fn run(c: &mut Ctx) {
    for i in 0..c.rounds(20000) {
        let m = if i < 600 { i as u32 } else { c.u32() };
        let cap = if m == 0 { 0 } else if m > 256 { m } else { 256 };
        let rows = (m as u64 + cap as u64).min(u32::MAX as u64) as u32;
        c.case("verification.caps", format!("{}", m), || { same("tombstones kept", verification_tombstone_cap(m), cap)?; same("rows kept", verification_row_cap(m), rows) });
    }
    for t in 0..40i32 {
        let ty = match MessageType::try_from(t) { Ok(t) => t, Err(_) => continue };
        c.case("verification.counters", format!("{:?}", ty), || {
            let mut n = VerificationMessageCounts { live_adds: 3, tombstones: 5 };
            if let Some(x) = n.counter_mut(ty) { *x += 1; }
            same("counts", (n.live_adds, n.tombstones), (3 + (t == 7) as u32, 5 + (t == 8) as u32))
        });
    }
}
