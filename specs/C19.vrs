//@include prelude.vrs
//@include errors.vrs
//@include time.vrs
//@include version.vrs
//@proto FarcasterNetwork StorageUnitType StoreType LendStorageBody MessageType OnChainEvent
use proto::*;
//@item src/storage/store/account/onchain_event_store.rs::UNIT_TYPE_LEGACY_CUTOFF_TIMESTAMP
//@item src/storage/store/account/onchain_event_store.rs::UNIT_TYPE_2024_CUTOFF_TIMESTAMP
//@item src/storage/store/account/onchain_event_store.rs::UNIT_TYPE_2024_CUTOFF_TIMESTAMP_TESTNET
//@item src/storage/store/account/onchain_event_store.rs::UNIT_TYPE_2025_CUTOFF_TIMESTAMP
//@item src/storage/store/account/onchain_event_store.rs::UNIT_TYPE_2025_CUTOFF_TIMESTAMP_TESTNET
//@item src/storage/store/account/onchain_event_store.rs::ONE_YEAR_IN_SECONDS
//@item src/storage/store/account/onchain_event_store.rs::StorageSlot
// payloads of errors are opaque
#[verifier::external_body] pub struct RocksdbError { x: u8 }
#[verifier::external_body] pub struct DecodeError { x: u8 }
//@item src/storage/store/account/onchain_event_store.rs::OnchainEventStorageError
// derive(PartialEq) on field-less enums
pub assume_specification [ <FarcasterNetwork as core::cmp::PartialEq>::eq ] (a: &FarcasterNetwork, b: &FarcasterNetwork) -> (r: bool) ensures r == (*a == *b);
// the clock; one value for the duration of a call (a slot may expire between two calls, not within one)
pub uninterp spec fn clock() -> u32;
#[verifier::external_body] pub fn vx_unix_now() -> (r: u32) ensures r == clock() { unimplemented!() }
pub fn vx_min(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub open spec fn active(s: StorageSlot) -> bool { clock() < s.invalidate_at }
pub open spec fn units(s: StorageSlot, t: StorageUnitType) -> u32 {
    match t { StorageUnitType::UnitTypeLegacy => s.units_legacy, StorageUnitType::UnitType2024 => s.units_2024, StorageUnitType::UnitType2025 => s.units_2025 }
}
pub open spec fn cutoff_2024(n: FarcasterNetwork) -> u32 { if n == FarcasterNetwork::Mainnet { 1752685200 } else { 1752426000 } }
pub open spec fn cutoff_2025(n: FarcasterNetwork) -> u32 { if n == FarcasterNetwork::Mainnet { 1782147600 } else { 1781283600 } }
// the kind of a unit is decided by when it was rented
pub open spec fn rented_kind(t: u64, n: FarcasterNetwork) -> StorageUnitType {
    if t < 1724889600 { StorageUnitType::UnitTypeLegacy } else if t < cutoff_2024(n) { StorageUnitType::UnitType2024 } else { StorageUnitType::UnitType2025 }
}
// and so is how many years it lasts
pub open spec fn rented_years(t: u64, n: FarcasterNetwork, v: EngineVersion) -> int {
    let ext = if enabled(v, ProtocolFeature::StorageExpiryExtension2026) { 1int } else { 0 };
    if t < 1724889600 { 3 + ext } else if t < cutoff_2024(n) { 2 + ext } else if t < cutoff_2025(n) { 1 + ext } else { 1 }
}
pub open spec fn only(s: StorageSlot, t: StorageUnitType, n: u32) -> bool { units(s, t) == n && forall|u: StorageUnitType| u != t ==> #[trigger] units(s, u) == 0 }
pub open spec fn max0(x: int) -> int { if x < 0 { 0 } else { x } }
// what two grants together amount to
pub open spec fn together(a: StorageSlot, b: StorageSlot, r: StorageSlot) -> bool {
    if !active(b) { r == a } else if !active(a) { r == b }
    else { (forall|t: StorageUnitType| #[trigger] units(r, t) == units(a, t) + units(b, t)) && r.invalidate_at == (if a.invalidate_at <= b.invalidate_at { a.invalidate_at } else { b.invalidate_at }) }
}
impl StorageSlot {
//@fn src/storage/store/account/onchain_event_store.rs::StorageSlot::new -> r
    ensures r.units_legacy == units_legacy, r.units_2024 == units_2024, r.units_2025 == units_2025, r.invalidate_at == invalidate_at,
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::StorageSlot::units_for -> r
    ensures r == units(*self, unit_type),
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::StorageSlot::unit_type_2024_cutoff -> r
    ensures r == cutoff_2024(network),
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::StorageSlot::unit_type_2025_cutoff -> r
    ensures r == cutoff_2025(network),
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::StorageSlot::from_storage_lend -> r
    requires storage_lend.num_units <= 5000,
    ensures only(r, StorageUnitType::spec_or_default(storage_lend.unit_type), storage_lend.num_units as u32), r.invalidate_at == u32::MAX,
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::StorageSlot::from_event -> r
    requires onchain_event.block_timestamp + 4 * 31_536_000 <= u32::MAX,
    ensures match onchain_event.body {
        Some(on_chain_event::Body::StorageRentEventBody(b)) => r is Ok && only(r->Ok_0, rented_kind(onchain_event.block_timestamp, network), b.units)
            && r->Ok_0.invalidate_at == onchain_event.block_timestamp + rented_years(onchain_event.block_timestamp, network, engine_version) * 31_536_000,
        _ => r is Err,
    },
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::StorageSlot::is_active -> r
    ensures r == active(*self),
//@rw `std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as u32` => `vx_unix_now()`
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::StorageSlot::merge -> r
    requires forall|t: StorageUnitType| #[trigger] units(*old(self), t) + units(*other, t) <= u32::MAX,
    ensures together(*old(self), *other, *final(self)), r == active(*other),
//@rw `std::cmp::min(` => `vx_min(`
//@start
    proof { assert(units(*self, StorageUnitType::UnitTypeLegacy) + units(*other, StorageUnitType::UnitTypeLegacy) <= u32::MAX); assert(units(*self, StorageUnitType::UnitType2024) + units(*other, StorageUnitType::UnitType2024) <= u32::MAX); assert(units(*self, StorageUnitType::UnitType2025) + units(*other, StorageUnitType::UnitType2025) <= u32::MAX); }
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::StorageSlot::sub
    ensures final(self).invalidate_at == old(self).invalidate_at,
        forall|t: StorageUnitType| #[trigger] units(*final(self), t) == (if active(*other) { max0(units(*old(self), t) - units(*other, t)) } else { units(*old(self), t) as int }),
//@endfn
}
// combining two active grants does not depend on which comes first
proof fn theorem_merge_commutes(a: StorageSlot, b: StorageSlot, r: StorageSlot, s: StorageSlot)
    requires active(a), active(b), together(a, b, r), together(b, a, s) ensures r == s
{
    assert(units(r, StorageUnitType::UnitTypeLegacy) == units(s, StorageUnitType::UnitTypeLegacy)); assert(units(r, StorageUnitType::UnitType2024) == units(s, StorageUnitType::UnitType2024)); assert(units(r, StorageUnitType::UnitType2025) == units(s, StorageUnitType::UnitType2025));
}
//@item src/storage/store/stores.rs::Limits
//@item src/storage/store/stores.rs::StoreLimits
// what one unit of each kind allows in each store
pub open spec fn per_unit(t: StorageUnitType, s: StoreType) -> u32 {
    match (t, s) {
        (StorageUnitType::UnitTypeLegacy, StoreType::Casts) => 5000, (StorageUnitType::UnitType2024, StoreType::Casts) => 2000, (StorageUnitType::UnitType2025, StoreType::Casts) => 100,
        (StorageUnitType::UnitTypeLegacy, StoreType::Links) => 2500, (StorageUnitType::UnitType2024, StoreType::Links) => 1000, (StorageUnitType::UnitType2025, StoreType::Links) => 200,
        (StorageUnitType::UnitTypeLegacy, StoreType::Reactions) => 2500, (StorageUnitType::UnitType2024, StoreType::Reactions) => 1000, (StorageUnitType::UnitType2025, StoreType::Reactions) => 200,
        (StorageUnitType::UnitType2025, StoreType::UserData) => 25, (_, StoreType::UserData) => 50,
        (StorageUnitType::UnitType2025, StoreType::UsernameProofs) => 2, (_, StoreType::UsernameProofs) => 5,
        (StorageUnitType::UnitType2025, StoreType::Verifications) => 5, (_, StoreType::Verifications) => 25,
        (_, StoreType::StorageLends) => 1,
        (_, StoreType::None) => 0,
    }
}
pub open spec fn limit_for(l: Limits, s: StoreType) -> u32 {
    match s {
        StoreType::Casts => l.casts, StoreType::Links => l.links, StoreType::Reactions => l.reactions, StoreType::UserData => l.user_data,
        StoreType::Verifications => l.verifications, StoreType::UsernameProofs => l.user_name_proofs, StoreType::StorageLends => l.storage_lends, StoreType::None => 0,
    }
}
pub open spec fn published(l: Limits, t: StorageUnitType) -> bool { forall|s: StoreType| #[trigger] limit_for(l, s) == per_unit(t, s) }
// the store a message is counted in
pub open spec fn counted_in(m: MessageType) -> StoreType {
    match m {
        MessageType::CastAdd | MessageType::CastRemove => StoreType::Casts,
        MessageType::ReactionAdd | MessageType::ReactionRemove => StoreType::Reactions,
        MessageType::LinkAdd | MessageType::LinkRemove | MessageType::LinkCompactState => StoreType::Links,
        MessageType::VerificationAddEthAddress | MessageType::VerificationRemove => StoreType::Verifications,
        MessageType::UserDataAdd => StoreType::UserData,
        MessageType::UsernameProof => StoreType::UsernameProofs,
        MessageType::LendStorage => StoreType::StorageLends,
        _ => StoreType::None,
    }
}
impl Limits {
//@fn src/storage/store/stores.rs::Limits::default -> r
    ensures published(r, StorageUnitType::UnitType2025),
//@endfn
//@fn src/storage/store/stores.rs::Limits::of_type -> r
    ensures published(r, unit_type),
//@endfn
//@fn src/storage/store/stores.rs::Limits::legacy -> r
    ensures published(r, StorageUnitType::UnitTypeLegacy),
//@endfn
//@fn src/storage/store/stores.rs::Limits::message_type_to_store_type -> r
    ensures r == counted_in(message_type),
//@endfn
//@fn src/storage/store/stores.rs::Limits::store_type_to_message_types -> r
    ensures store_type != StoreType::None ==> forall|m: MessageType| #[trigger] r@.contains(m) <==> counted_in(m) == store_type,
        store_type == StoreType::None ==> r@.len() == 0,
        r@.no_duplicates(),
//@endfn
//@fn src/storage/store/stores.rs::Limits::for_store_type -> r
    ensures r == limit_for(*self, store_type),
//@endfn
}
pub open spec fn table(l: StoreLimits, t: StorageUnitType) -> Limits {
    match t { StorageUnitType::UnitTypeLegacy => l.limits_legacy, StorageUnitType::UnitType2024 => l.limits_2024, StorageUnitType::UnitType2025 => l.limits_2025 }
}
pub open spec fn allowance(l: StoreLimits, slot: StorageSlot, s: StoreType, t: StorageUnitType) -> int { limit_for(table(l, t), s) * units(slot, t) }
pub open spec fn total(l: StoreLimits, slot: StorageSlot, s: StoreType) -> int {
    allowance(l, slot, s, StorageUnitType::UnitTypeLegacy) + allowance(l, slot, s, StorageUnitType::UnitType2024) + allowance(l, slot, s, StorageUnitType::UnitType2025)
}
// [a, b, c].iter().map(f).sum()
pub trait VxSum3: Sized {
    spec fn vx_at(self, i: int) -> StorageUnitType;
    fn vx_sum3<F: Fn(&StorageUnitType) -> u32>(self, Ghost(g): Ghost<spec_fn(StorageUnitType) -> int>, f: F) -> (r: u32)
        requires forall|x: &StorageUnitType| f.requires((x,)), forall|x: &StorageUnitType, o: u32| f.ensures((x,), o) ==> o == g(*x), g(self.vx_at(0)) + g(self.vx_at(1)) + g(self.vx_at(2)) <= u32::MAX, forall|t: StorageUnitType| #[trigger] g(t) >= 0,
        ensures r == g(self.vx_at(0)) + g(self.vx_at(1)) + g(self.vx_at(2));
}
impl VxSum3 for [StorageUnitType; 3] {
    open spec fn vx_at(self, i: int) -> StorageUnitType { self[i] }
    fn vx_sum3<F: Fn(&StorageUnitType) -> u32>(self, Ghost(g): Ghost<spec_fn(StorageUnitType) -> int>, f: F) -> (r: u32)
    {
        let x = f(&self[0]); let y = f(&self[1]); let z = f(&self[2]);
        proof { assert(g(self.vx_at(0)) >= 0); assert(g(self.vx_at(1)) >= 0); assert(g(self.vx_at(2)) >= 0); }
        x + y + z
    }
}
impl StoreLimits {
//@fn src/storage/store/stores.rs::StoreLimits::new -> r
    ensures table(r, StorageUnitType::UnitType2025) == limits_2025, table(r, StorageUnitType::UnitType2024) == limits_2024, table(r, StorageUnitType::UnitTypeLegacy) == limits_legacy,
//@endfn
//@fn src/storage/store/stores.rs::StoreLimits::max_messages -> r
    requires total(*self, *slot, store_type) <= u32::MAX,
    ensures r == total(*self, *slot, store_type),
//@rw `.iter().map(` => `.vx_sum3(Ghost(|t: StorageUnitType| allowance(*self, *slot, store_type, t)), `
//@rw `.sum()` => ``
//@closure 0 |vx_p: &StorageUnitType| -> (o: u32) requires forall|t: StorageUnitType| 0 <= #[trigger] allowance(*self, *slot, store_type, t) <= u32::MAX ensures o == allowance(*self, *slot, store_type, *vx_p)
//@start
    proof { lemma_allowances(*self, *slot, store_type); }
//@endfn
//@fn src/storage/store/stores.rs::StoreLimits::for_type -> r
    ensures *r == table(*self, unit_type),
//@endfn
//@fn src/storage/store/stores.rs::StoreLimits::default -> r
    ensures forall|t: StorageUnitType| published(#[trigger] table(r, t), t),
//@endfn
}
proof fn lemma_allowances(l: StoreLimits, slot: StorageSlot, s: StoreType)
    ensures forall|t: StorageUnitType| 0 <= #[trigger] allowance(l, slot, s, t) <= total(l, slot, s)
{
    assert forall|t: StorageUnitType| 0 <= #[trigger] allowance(l, slot, s, t) by { assert(limit_for(table(l, t), s) * units(slot, t) >= 0) by (nonlinear_arith); }
    assert(allowance(l, slot, s, StorageUnitType::UnitTypeLegacy) >= 0); assert(allowance(l, slot, s, StorageUnitType::UnitType2024) >= 0); assert(allowance(l, slot, s, StorageUnitType::UnitType2025) >= 0);
}
} // verus!
fn main() {}
