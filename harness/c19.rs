//@mount src/storage/store/account/onchain_event_store.rs
use super::*;
use crate::verif_h::support::*;

fn kinds() -> [StorageUnitType; 3] { [StorageUnitType::UnitTypeLegacy, StorageUnitType::UnitType2024, StorageUnitType::UnitType2025] }
fn units(s: &StorageSlot) -> [u32; 3] { [s.units_legacy, s.units_2024, s.units_2025] }

pub fn run(c: &mut Ctx) {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as u32;
    for (n, a, b) in [(FarcasterNetwork::Mainnet, 1752685200u32, 1782147600u32), (FarcasterNetwork::Testnet, 1752426000, 1781283600), (FarcasterNetwork::Devnet, 1752426000, 1781283600), (FarcasterNetwork::None, 1752426000, 1781283600)] {
        c.case("cutoffs", format!("{:?}", n), || { same("2024", StorageSlot::unit_type_2024_cutoff(n), a)?; same("2025", StorageSlot::unit_type_2025_cutoff(n), b) });
    }
    let slot = |c: &mut Ctx| {
        let mut u = || c.pick(&[0u32, 0, 1, 2, 3, 7, 100, 5000, 1 << 16, 1 << 20]);
        let (a, b, d) = (u(), u(), u());
        let off = c.pick(&[60u32, 3600, 86_400, 31_536_000]);
        (a, b, d, c.pick(&[0, 1, now - 2, now - off, now + off, now + off, now + off + 1, u32::MAX, u32::MAX]))
    };
    let make = |x: (u32, u32, u32, u32)| StorageSlot::new(x.0, x.1, x.2, x.3);
    for _ in 0..c.rounds(3000) {
        let (x, y) = (slot(c), slot(c));
        let (xa, ya) = (x.3 > now, y.3 > now);
        let (xu, yu) = ([x.0, x.1, x.2], [y.0, y.1, y.2]);
        c.case("slot", format!("StorageSlot::new{:?}", x), || {
            let s = make(x);
            same("units", units(&s), xu)?; same("expiry", s.invalidate_at, x.3)?; same("active", s.is_active(), xa)?;
            for (i, k) in kinds().into_iter().enumerate() { same("units of a kind", s.units_for(k), xu[i])?; }
            Ok(())
        });
        c.case("expiring now", format!("StorageSlot::new({}, {}, {}, the present second and its neighbours)", x.0, x.1, x.2), || {
            let clock = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as u32;
            let t = clock();
            let got = [StorageSlot::new(x.0, x.1, x.2, t - 1).is_active(), StorageSlot::new(x.0, x.1, x.2, t).is_active(), StorageSlot::new(x.0, x.1, x.2, t + 1).is_active()];
            if clock() == t { same("active one second before, at and after expiry", got, [false, false, true]) } else { Ok(()) }
        });
        c.case("merge", format!("{:?} merge {:?} at {}", x, y, now), || {
            let mut s = make(x); let o = make(y);
            let r = s.merge(&o);
            same("result", r, ya)?;
            same("other", (units(&o), o.invalidate_at), (yu, y.3))?;
            let want = if !ya { (xu, x.3) } else if !xa { (yu, y.3) } else { ([xu[0] + yu[0], xu[1] + yu[1], xu[2] + yu[2]], x.3.min(y.3)) };
            same("sum", (units(&s), s.invalidate_at), want)
        });
        c.case("sub", format!("{:?} sub {:?} at {}", x, y, now), || {
            let mut s = make(x); let o = make(y);
            s.sub(&o);
            let want = if ya { [xu[0].saturating_sub(yu[0]), xu[1].saturating_sub(yu[1]), xu[2].saturating_sub(yu[2])] } else { xu };
            same("difference", (units(&s), s.invalidate_at), (want, x.3))
        });
        let (k, n) = (c.pick(&[0, 1, 2, 0, 1, 2, 3, -1, i32::MAX]), c.pick(&[0u64, 1, 2, 9, 100, 4999, 5000]));
        c.case("from_storage_lend", format!("unit_type {}, num_units {}", k, n), || {
            let s = StorageSlot::from_storage_lend(&LendStorageBody { to_fid: 7, num_units: n, unit_type: k });
            let mut want = [0u32; 3];
            want[match StorageUnitType::try_from(k) { Ok(StorageUnitType::UnitTypeLegacy) => 0, Ok(StorageUnitType::UnitType2024) => 1, Ok(StorageUnitType::UnitType2025) => 2, Err(_) => 0 }] = n as u32;
            if StorageUnitType::try_from(k).is_ok() { same("units", units(&s), want)?; } else { same("units in all", units(&s).iter().sum::<u32>(), n as u32)?; }
            same("a loan has no expiry of its own", s.invalidate_at, u32::MAX)
        });
        if c.enough() { return; }
    }
}
