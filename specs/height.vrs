// derive(PartialEq, Ord, Copy) on the position of a block: shard first, then block number
pub open spec fn height_le(a: Height, b: Height) -> bool { a.shard_index < b.shard_index || a.shard_index == b.shard_index && a.block_number <= b.block_number }
impl Copy for Height {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Height { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Height) -> bool { *self == *o } }
impl PartialEq for Height { #[verifier::external_body] fn eq(&self, o: &Height) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Height {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Height) -> Option<core::cmp::Ordering> { Some(if *self == *o { core::cmp::Ordering::Equal } else if height_le(*self, *o) { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater }) }
}
impl PartialOrd for Height { #[verifier::external_body] fn partial_cmp(&self, o: &Height) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
