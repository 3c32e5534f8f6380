//@mount src/storage/store/stores.rs
use super::*;
use crate::verif_h::support::*;

const STORES: [StoreType; 8] = [StoreType::Casts, StoreType::Links, StoreType::Reactions, StoreType::UserData, StoreType::UsernameProofs, StoreType::Verifications, StoreType::StorageLends, StoreType::None];
const LEGACY: [u32; 8] = [5000, 2500, 2500, 50, 5, 25, 1, 0];
const Y2024: [u32; 8] = [2000, 1000, 1000, 50, 5, 25, 1, 0];
const Y2025: [u32; 8] = [100, 200, 200, 25, 2, 5, 1, 0];
fn counted_in(m: MessageType) -> StoreType {
    use MessageType::*;
    match m {
        CastAdd | CastRemove => StoreType::Casts, ReactionAdd | ReactionRemove => StoreType::Reactions, LinkAdd | LinkRemove | LinkCompactState => StoreType::Links,
        VerificationAddEthAddress | VerificationRemove => StoreType::Verifications, UserDataAdd => StoreType::UserData, MessageType::UsernameProof => StoreType::UsernameProofs,
        LendStorage => StoreType::StorageLends, _ => StoreType::None,
    }
}
fn row(l: &Limits) -> [u32; 8] { [l.casts, l.links, l.reactions, l.user_data, l.user_name_proofs, l.verifications, l.storage_lends, 0] }
fn limits(r: [u32; 8]) -> Limits { Limits { casts: r[0], links: r[1], reactions: r[2], user_data: r[3], user_name_proofs: r[4], verifications: r[5], storage_lends: r[6] } }

pub fn run(c: &mut Ctx) {
    c.case("tables", "published limits", || {
        same("legacy", row(&Limits::of_type(StorageUnitType::UnitTypeLegacy)), LEGACY)?; same("2024", row(&Limits::of_type(StorageUnitType::UnitType2024)), Y2024)?;
        same("2025", row(&Limits::of_type(StorageUnitType::UnitType2025)), Y2025)?; same("default", row(&Limits::default()), Y2025)?; same("legacy()", row(&Limits::legacy()), LEGACY)?;
        let d = StoreLimits::default();
        same("d legacy", row(d.for_type(StorageUnitType::UnitTypeLegacy)), LEGACY)?; same("d 2024", row(d.for_type(StorageUnitType::UnitType2024)), Y2024)?; same("d 2025", row(d.for_type(StorageUnitType::UnitType2025)), Y2025)
    });
    let types: Vec<MessageType> = (-1..40).filter_map(|i| MessageType::try_from(i).ok()).collect();
    for &m in &types { c.case("store of a message", format!("{:?}", m), || same("store", Limits::message_type_to_store_type(m), counted_in(m))); }
    for s in STORES {
        c.case("messages of a store", format!("{:?}", s), || {
            let mut got: Vec<i32> = Limits::store_type_to_message_types(s).into_iter().map(|x| x as i32).collect(); got.sort();
            let want: Vec<i32> = types.iter().filter(|m| s != StoreType::None && counted_in(**m) == s).map(|x| *x as i32).collect();
            same("messages", got, want)
        });
    }
    for i in 0..c.rounds(3000) {
        let mut u = || c.pick(&[0u32, 0, 1, 1, 2, 3, 7, 11, 100, 1000, 65_536]);
        let (a, b, d) = (u(), u(), u());
        let mut l = |t: [u32; 8]| if i % 2 == 0 { t } else { let mut t = t; for x in t.iter_mut().take(7) { *x = c.pick(&[0u32, 1, 2, 3, 10, 999, 5000]); } t };
        let (lg, l4, l5) = (l(LEGACY), l(Y2024), l(Y2025));
        let expiry = c.pick(&[0u32, 1, u32::MAX]);
        c.case("max_messages", format!("units legacy {} 2024 {} 2025 {}, limits {:?} {:?} {:?}", a, b, d, lg, l4, l5), || {
            let s = StoreLimits::new(limits(l5), limits(l4), limits(lg));
            let slot = StorageSlot::new(a, b, d, expiry);
            for (i, st) in STORES.into_iter().enumerate() {
                same("per store", (s.for_type(StorageUnitType::UnitTypeLegacy).for_store_type(st), s.for_type(StorageUnitType::UnitType2024).for_store_type(st), s.for_type(StorageUnitType::UnitType2025).for_store_type(st)), (lg[i], l4[i], l5[i]))?;
                let want = a as u64 * lg[i] as u64 + b as u64 * l4[i] as u64 + d as u64 * l5[i] as u64;
                if want <= u32::MAX as u64 { same("limit", s.max_messages(&slot, st) as u64, want)?; }
            }
            Ok(())
        });
        if c.enough() { return; }
    }
}
