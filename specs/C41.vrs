// A user follows exactly the channels whose URI he likes, and both listings agree.
//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@proto Message MessageType CastId ReactionType ReactionBody FarcasterNetwork
//@include keys.vrs
//@include batch.vrs
//@include version.vrs
//@include strings.vrs
//@include fmt.vrs
//@include split.vrs
//@item src/core/validations/error.rs::ValidationError
//@item src/storage/store/account/channel_store.rs::CHANNEL_ID_LENGTH
//@include uri.vrs
use std::sync::Arc;
use proto::{FarcasterNetwork, Message, message_data::Body, ReactionBody, ReactionType, reaction_body::Target};
//@item src/storage/store/account/reaction_store.rs::ChannelFollowIndex
//@item src/storage/store/account/reaction_store.rs::ReactionStoreDef
//@item src/storage/store/account/store.rs::FollowIndexGate
//@item src/storage/store/account/store.rs::MergeContext
#[verifier::external_body] pub struct RocksDB { x: u8 }
impl vstd::std_specs::cmp::PartialEqSpecImpl for FollowIndexGate { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &FollowIndexGate) -> bool { *self == *o } }
impl FollowIndexGate {
//@fn src/storage/store/account/store.rs::FollowIndexGate::for_merge -> r
    ensures r == (if enabled(ctx.version, ProtocolFeature::ChannelFollows) { FollowIndexGate::Write } else { FollowIndexGate::Skip }),
//@endfn
//@fn src/storage/store/account/store.rs::FollowIndexGate::no_follow_carrier -> r
    ensures r == FollowIndexGate::Skip,
//@endfn
//@fn src/storage/store/account/store.rs::FollowIndexGate::writes_follow_index -> r
    ensures r == (self == FollowIndexGate::Write),
//@endfn
}
#[verifier::external_body] pub fn vx_bytes(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { unimplemented!() }
// ---- what a message says
pub open spec fn liked(m: Message) -> Option<Seq<char>> {
    match m.data { Some(d) => match d.body { Some(Body::ReactionBody(b)) => if b.r#type == 1 { match b.target { Some(Target::TargetUrl(u)) => Some(u@), _ => None } } else { None }, _ => None }, None => None }
}
// the text names a channel of this registrar
pub open spec fn names(u: Seq<char>, reg: ChannelRegistrar, id: Seq<u8>) -> bool { exists|a: ChannelAssetId| #[trigger] canon(a) == u && a.chain_id == reg.chain_id && a.contract == reg.address && a.channel_id@ == id }
pub open spec fn follows(reg: Option<ChannelRegistrar>, m: Message, id: Seq<u8>) -> bool { reg is Some && liked(m) is Some && names(liked(m)->Some_0, reg->Some_0, id) }
// a text names one channel at most, a channel has one text: unliking one never unfollows what another like expresses
proof fn theorem_one_like_per_channel(reg: ChannelRegistrar, u: Seq<char>, v: Seq<char>, i: Seq<u8>, j: Seq<u8>)
    requires names(u, reg, i), names(v, reg, j)
    ensures u == v <==> i == j
{
    let a = choose|a: ChannelAssetId| #[trigger] canon(a) == u && a.chain_id == reg.chain_id && a.contract == reg.address && a.channel_id@ == i;
    let b = choose|a: ChannelAssetId| #[trigger] canon(a) == v && a.chain_id == reg.chain_id && a.contract == reg.address && a.channel_id@ == j;
    if u == v { lemma_one(a, b); }
    if i == j { assert(a.channel_id@ =~= b.channel_id@); assert(a.channel_id =~= b.channel_id); }
}
// ---- the two rows of a follow
pub open spec fn by_fid(f: u64, c: Seq<u8>) -> Seq<u8> { seq![25u8, 1u8] + fid_key(f) + c }
pub open spec fn by_channel(f: u64, c: Seq<u8>) -> Seq<u8> { seq![25u8, 2u8] + c + fid_key(f) }
proof fn lemma_rows(f: u64, c: Seq<u8>, g: u64, d: Seq<u8>)
    requires f <= u32::MAX, g <= u32::MAX, c.len() == 32, d.len() == 32
    ensures by_fid(f, c) != by_channel(g, d), by_fid(f, c) == by_fid(g, d) <==> f == g && c == d, by_channel(f, c) == by_channel(g, d) <==> f == g && c == d
{
    assert(by_fid(f, c)[1] != by_channel(g, d)[1]);
    lemma_be32(f as u32); lemma_be32(g as u32);
    if by_fid(f, c) == by_fid(g, d) { assert(by_fid(f, c).subrange(2, 6) =~= fid_key(f)); assert(by_fid(g, d).subrange(2, 6) =~= fid_key(g)); lemma_be32_inj(f as u32, g as u32); assert(by_fid(f, c).skip(6) =~= c); assert(by_fid(g, d).skip(6) =~= d); }
    if by_channel(f, c) == by_channel(g, d) { assert(by_channel(f, c).skip(34) =~= fid_key(f)); assert(by_channel(g, d).skip(34) =~= fid_key(g)); lemma_be32_inj(f as u32, g as u32); assert(by_channel(f, c).subrange(2, 34) =~= c); assert(by_channel(g, d).subrange(2, 34) =~= d); }
}
pub open spec fn puts(b: B, k: Seq<u8>, v: Seq<u8>) -> bool { b.contains_key(k) && b[k] is Some && b[k]->Some_0@ == v }
pub open spec fn drops(b: B, k: Seq<u8>) -> bool { b.contains_key(k) && b[k] is None }
pub open spec fn untouched(a: B, b: B, k: Seq<u8>) -> bool { (a.contains_key(k) <==> b.contains_key(k)) && (a.contains_key(k) ==> a[k] == b[k]) }
pub open spec fn elsewhere(a: B, b: B, f: u64, c: Seq<u8>) -> bool { forall|k: Seq<u8>| k != by_fid(f, c) && k != by_channel(f, c) ==> #[trigger] untouched(a, b, k) }
pub open spec fn followed(a: B, b: B, f: u64, c: Seq<u8>, t: u32) -> bool { puts(b, by_fid(f, c), be32(t)) && puts(b, by_channel(f, c), be32(t)) && elsewhere(a, b, f, c) }
pub open spec fn unfollowed(a: B, b: B, f: u64, c: Seq<u8>) -> bool { drops(b, by_fid(f, c)) && drops(b, by_channel(f, c)) && elsewhere(a, b, f, c) }
// ---- the listings are the live likes, after any history of likes and unlikes
pub open spec fn row(b: B, k: Seq<u8>) -> Option<Seq<u8>> { if b.contains_key(k) && b[k] is Some { Some(b[k]->Some_0@) } else { None } }
pub open spec fn entry(w: Map<(u64, Seq<u8>), u32>, f: u64, c: Seq<u8>) -> Option<Seq<u8>> { if w.contains_key((f, c)) { Some(be32(w[(f, c)])) } else { None } }
pub open spec fn lists(b: B, w: Map<(u64, Seq<u8>), u32>) -> bool { forall|f: u64, c: Seq<u8>| f <= u32::MAX && c.len() == 32 ==> row(b, #[trigger] by_fid(f, c)) == entry(w, f, c) && row(b, by_channel(f, c)) == entry(w, f, c) }
proof fn theorem_follow(a: B, b: B, w: Map<(u64, Seq<u8>), u32>, f: u64, c: Seq<u8>, t: u32)
    requires lists(a, w), followed(a, b, f, c, t), f <= u32::MAX, c.len() == 32 ensures lists(b, w.insert((f, c), t))
{
    assert forall|g: u64, d: Seq<u8>| g <= u32::MAX && d.len() == 32 implies row(b, #[trigger] by_fid(g, d)) == entry(w.insert((f, c), t), g, d) && row(b, by_channel(g, d)) == entry(w.insert((f, c), t), g, d) by {
        lemma_rows(f, c, g, d); lemma_rows(g, d, f, c); assert(untouched(a, b, by_fid(g, d)) || (g == f && d == c)); assert(untouched(a, b, by_channel(g, d)) || (g == f && d == c)); }
}
proof fn theorem_unfollow(a: B, b: B, w: Map<(u64, Seq<u8>), u32>, f: u64, c: Seq<u8>)
    requires lists(a, w), unfollowed(a, b, f, c), f <= u32::MAX, c.len() == 32 ensures lists(b, w.remove((f, c)))
{
    assert forall|g: u64, d: Seq<u8>| g <= u32::MAX && d.len() == 32 implies row(b, #[trigger] by_fid(g, d)) == entry(w.remove((f, c)), g, d) && row(b, by_channel(g, d)) == entry(w.remove((f, c)), g, d) by {
        lemma_rows(f, c, g, d); lemma_rows(g, d, f, c); assert(untouched(a, b, by_fid(g, d)) || (g == f && d == c)); assert(untouched(a, b, by_channel(g, d)) || (g == f && d == c)); }
}
impl ReactionStoreDef {
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::follow_by_fid_prefix -> r
    ensures r@ =~= seq![25u8, 1u8] + fid_key(fid),
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::make_follow_by_fid_key -> r
    ensures r@ =~= by_fid(fid, channel_id@),
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::follow_by_channel_prefix -> r
    ensures r@ =~= seq![25u8, 2u8] + channel_id@,
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::make_follow_by_channel_key -> r
    ensures r@ =~= by_channel(fid, channel_id@),
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::insert_follow
    requires fid <= u32::MAX,
    ensures followed(old(txn).batch@, final(txn).batch@, fid, channel_id@, followed_at),
//@rw `followed_at.clone()` => `vx_bytes(&followed_at)`
//@start
    let ghost vx_t = followed_at; proof { lemma_rows(fid, channel_id@, fid, channel_id@); }
//@after `let followed_at = followed_at.to_be_bytes().to_vec();`
    proof { assert(followed_at@ =~= be32(vx_t)); }
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::remove_follow
    requires fid <= u32::MAX,
    ensures unfollowed(old(txn).batch@, final(txn).batch@, fid, channel_id@),
//@start
    proof { lemma_rows(fid, channel_id@, fid, channel_id@); }
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::follow_channel_id -> r
    ensures match r { Some(id) => follows(self.registrar, *message, id@), None => forall|id: Seq<u8>| !follows(self.registrar, *message, id) },
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::build_follow_index -> r
    requires message.data is Some ==> message.data->Some_0.fid <= u32::MAX,
    ensures r is Ok,
        gate == FollowIndexGate::Write ==> forall|id: Seq<u8>| #[trigger] follows(self.registrar, *message, id) ==> followed(old(txn).batch@, final(txn).batch@, message.data->Some_0.fid, id, message.data->Some_0.timestamp),
        gate == FollowIndexGate::Skip || (forall|id: Seq<u8>| !#[trigger] follows(self.registrar, *message, id)) ==> final(txn).batch@ == old(txn).batch@,
//@start
    proof { assert forall|i: Seq<u8>, j: Seq<u8>| #[trigger] follows(self.registrar, *message, i) && #[trigger] follows(self.registrar, *message, j) implies i == j by { theorem_one_like_per_channel(self.registrar->Some_0, liked(*message)->Some_0, liked(*message)->Some_0, i, j); } }
//@endfn
//@fn src/storage/store/account/reaction_store.rs::ReactionStoreDef::delete_follow_index -> r
    requires message.data is Some ==> message.data->Some_0.fid <= u32::MAX,
    ensures r is Ok,
        forall|id: Seq<u8>| #[trigger] follows(self.registrar, *message, id) ==> unfollowed(old(txn).batch@, final(txn).batch@, message.data->Some_0.fid, id),
        (forall|id: Seq<u8>| !#[trigger] follows(self.registrar, *message, id)) ==> final(txn).batch@ == old(txn).batch@,
//@start
    proof { assert forall|i: Seq<u8>, j: Seq<u8>| #[trigger] follows(self.registrar, *message, i) && #[trigger] follows(self.registrar, *message, j) implies i == j by { theorem_one_like_per_channel(self.registrar->Some_0, liked(*message)->Some_0, liked(*message)->Some_0, i, j); } }
//@endfn
}
// ---- reading it back
pub struct RocksdbError { pub k: u8 }
impl From<RocksdbError> for HubError { #[verifier::external_body] fn from(e: RocksdbError) -> HubError { unimplemented!() } }
pub uninterp spec fn stored(db: RocksDB, k: Seq<u8>) -> Result<Option<Seq<u8>>, ()>;
impl RocksDB { #[verifier::external_body] pub fn get(&self, k: &Vec<u8>) -> (r: Result<Option<Vec<u8>>, RocksdbError>) ensures (match stored(*self, k@) { Ok(o) => r is Ok && (r->Ok_0 is Some) == (o is Some) && (o is Some ==> r->Ok_0->Some_0@ == o->Some_0), Err(_) => r is Err }) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Store<T> { x: std::marker::PhantomData<T> }
pub uninterp spec fn db_of<T>(s: Store<T>) -> RocksDB;
impl<T> Store<T> { #[verifier::external_body] pub fn db(&self) -> (r: Arc<RocksDB>) ensures *r == db_of(*self) { unimplemented!() } }
#[verifier::external_body] pub fn vx_four(v: Vec<u8>) -> (r: Result<[u8; 4], Vec<u8>>) ensures (r is Ok) == (v@.len() == 4), r is Ok ==> r->Ok_0@ == v@ { unimplemented!() }
pub struct ReactionStore {}
impl ReactionStore {
//@fn src/storage/store/account/reaction_store.rs::ReactionStore::is_following -> r
    ensures match stored(db_of(*store), by_fid(fid, channel_id@)) {
        Ok(None) => r == Ok::<Option<u32>, HubError>(None),
        Ok(Some(v)) => (r is Ok) == (v.len() == 4) && (r is Ok ==> r == Ok::<Option<u32>, HubError>(Some(unbe32(v)))),
        Err(_) => r is Err },
//@rw `value.try_into()` => `vx_four(value)`
//@endfn
}
// what was written is what is read
proof fn theorem_reads_back(t: u32) ensures be32(t).len() == 4, unbe32(be32(t)) == t { lemma_be32(t); }
} // verus!
fn main() {}
