//@include prelude.vrs
global size_of usize == 8;
//@include strings.vrs
//@proto OnChainEvent ChannelRegisterBody ValidatorMessage
use proto::{OnChainEvent, ChannelRegisterBody};
use std::cmp::Ordering;
//@include version.vrs
// the order of tuples, by its documented behaviour
pub open spec fn pair_cmp(a: (u32, u32), b: (u32, u32)) -> Ordering {
    if a.0 < b.0 || a.0 == b.0 && a.1 < b.1 { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub trait VxCmp { spec fn vx_ord(self, o: Self) -> Ordering; fn vx_cmp(&self, o: &Self) -> (r: Ordering) where Self: Sized ensures r == (*self).vx_ord(*o); }
impl VxCmp for (u32, u32) {
    open spec fn vx_ord(self, o: Self) -> Ordering { pair_cmp(self, o) }
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) { if self.0 < o.0 || self.0 == o.0 && self.1 < o.1 { Ordering::Less } else if self.0 == o.0 && self.1 == o.1 { Ordering::Equal } else { Ordering::Greater } }
}
#[verifier::external_body] pub fn vx_to_vec<T>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
// p is a rearrangement of 0..n
pub open spec fn perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
}
// slice::sort_by is a stable sort (trusted)
#[verifier::external_body] pub fn vx_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F) -> (p: Ghost<Seq<int>>)
    requires forall|a: &T, b: &T| f.requires((a, b)),
    ensures perm(p@, old(v)@.len() as int), final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < p@.len() ==> final(v)@[i] == old(v)@[#[trigger] p@[i]],
        forall|i: int, j: int| 0 <= i < j < p@.len() ==> exists|o: Ordering| #[trigger] f.ensures((&old(v)@[#[trigger] p@[i]], &old(v)@[#[trigger] p@[j]]), o) && (o == Ordering::Less || o == Ordering::Equal && p@[i] < p@[j]),
{ unimplemented!() }
// on-chain events come first, by block and log position; everything else keeps its place
pub open spec fn before(a: proto::ValidatorMessage, b: proto::ValidatorMessage) -> Ordering {
    match (a.on_chain_event, b.on_chain_event) {
        (Some(x), Some(y)) => pair_cmp((x.block_number, x.log_index), (y.block_number, y.log_index)),
        (Some(_), None) => Ordering::Less, (None, Some(_)) => Ordering::Greater, (None, None) => Ordering::Equal,
    }
}
pub open spec fn canonical(s: Seq<proto::ValidatorMessage>, r: Seq<proto::ValidatorMessage>) -> bool {
    exists|p: Seq<int>| #[trigger] perm(p, s.len() as int) && r.len() == s.len() && (forall|i: int| 0 <= i < p.len() ==> r[i] == s[#[trigger] p[i]])
        && forall|i: int, j: int| 0 <= i < j < p.len() ==> before(s[#[trigger] p[i]], s[#[trigger] p[j]]) == Ordering::Less || before(s[p[i]], s[p[j]]) == Ordering::Equal && p[i] < p[j]
}
pub enum Cow<'a> { Borrowed(&'a [proto::ValidatorMessage]), Owned(Vec<proto::ValidatorMessage>) }
impl<'a> Cow<'a> { pub open spec fn all(self) -> Seq<proto::ValidatorMessage> { match self { Cow::Borrowed(s) => s@, Cow::Owned(v) => v@ } } }
//@fn src/storage/store/block_engine.rs::block_engine_system_messages_for_replay -> r
    ensures !enabled(version, ProtocolFeature::SortedBlockEngineEvents) ==> r.all() == system_messages@,
        enabled(version, ProtocolFeature::SortedBlockEngineEvents) ==> canonical(system_messages@, r.all()),
//@rw `Cow<'a, [proto::ValidatorMessage]>` => `Cow<'a>`
//@rw `system_messages.to_vec()` => `vx_to_vec(system_messages)`
//@rw `.cmp(` => `.vx_cmp(`
//@rw `sorted_system_messages.sort_by(` => `let vx_p = vx_sort_by(&mut sorted_system_messages, `
//@closure 0 |a: &proto::ValidatorMessage, b: &proto::ValidatorMessage| -> (o: Ordering)
    ensures o == before(*a, *b)
//@before `Cow::Owned`
    proof { assert(perm(vx_p@, system_messages@.len() as int)); }
//@endfn
//@item src/storage/store/account/onchain_event_store.rs::ChannelOwner
//@item src/storage/store/account/onchain_event_store.rs::CHANNEL_LABEL_LENGTH
pub open spec fn earlier(e: OnChainEvent, o: ChannelOwner) -> bool {
    e.block_number < o.block_number || e.block_number == o.block_number && (e.tx_index < o.tx_index || e.tx_index == o.tx_index && e.log_index < o.log_index)
}
//@fn src/storage/store/account/onchain_event_store.rs::incoming_channel_event_is_older -> r
    ensures r == earlier(*event, *owner),
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::channel_owner_from_event -> r
    ensures r.channel_key@ == body.channel_key@, r.owner_address@ == body.owner_address@, r.expiry == body.expiry,
        r.block_number == onchain_event.block_number, r.tx_index == onchain_event.tx_index, r.log_index == onchain_event.log_index,
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::set_channel_owner_event_position
    ensures *final(owner) == (ChannelOwner { block_number: onchain_event.block_number, tx_index: onchain_event.tx_index, log_index: onchain_event.log_index, ..*old(owner) }),
//@endfn
//@fn src/storage/store/account/onchain_event_store.rs::validate_channel_label -> r
    ensures r <==> label@.len() == 32,
//@endfn
// alloy's keccak-256 (opaque)
pub uninterp spec fn keccak(b: Seq<u8>) -> Seq<u8>;
pub struct VxDigest { pub d: Vec<u8> }
impl VxDigest { pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.d@ { self.d.as_slice() } }
#[verifier::external_body] pub fn keccak256(b: &[u8]) -> (r: VxDigest) ensures r.d@ == keccak(b@) { unimplemented!() }
//@fn src/storage/store/account/onchain_event_store.rs::validate_channel_key_label -> r
    ensures r <==> keccak(encode_utf8(channel_key@)) == label@,
//@start
    broadcast use ax_slice_eq;
//@endfn
// after merging an event that is not older, no event that came before it can replace it
proof fn theorem_monotone(o: ChannelOwner, e: OnChainEvent, f: OnChainEvent, n: ChannelOwner)
    requires !earlier(e, o), n.block_number == e.block_number, n.tx_index == e.tx_index, n.log_index == e.log_index, earlier(f, o)
    ensures earlier(f, n)
{ }
} // verus!
fn main() {}
