//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@include status.vrs
//@proto FidRequest SignersByFidRequest ChannelsByAddressRequest FidTimestampRequest CastsByParentRequest ReactionsByFidRequest LinksByFidRequest Message
use proto::{FidRequest, SignersByFidRequest, ChannelsByAddressRequest, FidTimestampRequest, CastsByParentRequest, ReactionsByFidRequest, LinksByFidRequest};
type MessageProto = proto::Message;
//@item src/storage/db/rocksdb.rs::PageOptions
//@item src/storage/constants.rs::PAGE_SIZE_MAX
pub open spec fn tok(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => if v@.len() == 0 { None } else { Some(v@) }, None => None } }
pub open spec fn bytes(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
// the page options are the caller's: same size, same token (an empty one is none), same direction (forward by default)
pub open spec fn honours(p: PageOptions, size: Option<u32>, token: Option<Vec<u8>>, reverse: Option<bool>) -> bool {
    &&& p.page_size == (match size { Some(n) => Some(n as usize), None => None::<usize> })
    &&& bytes(p.page_token) == tok(token)
    &&& p.reverse == (match reverse { Some(b) => b, None => false })
}
//@fn src/network/rpc_extensions.rs::page_options -> r
    ensures honours(r, page_size, page_token, reverse),
//@endfn
impl FidRequest {
//@fn src/network/rpc_extensions.rs::<FidRequestExt for FidRequest>::page_options -> r
    ensures honours(r, self.page_size, self.page_token, self.reverse),
//@endfn
}
impl SignersByFidRequest {
//@fn src/network/rpc_extensions.rs::<FidRequestExt for SignersByFidRequest>::page_options -> r
    ensures honours(r, self.page_size, self.page_token, self.reverse),
//@endfn
}
impl ChannelsByAddressRequest {
//@fn src/network/rpc_extensions.rs::<FidRequestExt for ChannelsByAddressRequest>::page_options -> r
    ensures honours(r, self.page_size, self.page_token, self.reverse),
//@endfn
}
impl CastsByParentRequest {
//@fn src/network/rpc_extensions.rs::<CastsByParentRequestExt for CastsByParentRequest>::page_options -> r
    ensures honours(r, self.page_size, self.page_token, self.reverse),
//@endfn
}
impl ReactionsByFidRequest {
//@fn src/network/rpc_extensions.rs::<ReactionsByFidRequestExt for ReactionsByFidRequest>::page_options -> r
    ensures honours(r, self.page_size, self.page_token, self.reverse),
//@endfn
}
impl LinksByFidRequest {
//@fn src/network/rpc_extensions.rs::<LinksByFidRequestExt for LinksByFidRequest>::page_options -> r
    ensures honours(r, self.page_size, self.page_token, self.reverse),
//@endfn
}
// bounds beyond 32 bits mean the last representable second
pub open spec fn sat(o: Option<u64>) -> Option<u32> { match o { Some(t) => Some(if t > u32::MAX { u32::MAX } else { t as u32 }), None => None } }
impl FidTimestampRequest {
//@fn src/network/rpc_extensions.rs::<FidTimestampRequestExt for FidTimestampRequest>::page_options -> r
    ensures honours(r, self.page_size, self.page_token, self.reverse),
//@endfn
//@fn src/network/rpc_extensions.rs::<FidTimestampRequestExt for FidTimestampRequest>::timestamps -> r
    ensures r == (sat(self.start_timestamp), sat(self.stop_timestamp)),
//@endfn
}
pub open spec fn in_window(lo: Option<u32>, hi: Option<u32>, t: u32) -> bool { (lo is Some ==> lo->Some_0 <= t) && (hi is Some ==> t <= hi->Some_0) }
//@fn src/storage/store/account/message.rs::is_message_in_time_range -> r
    ensures r <==> message.data is Some && in_window(start_time, stop_time, message.data->Some_0.timestamp),
//@endfn
// end to end: a message dated before 2^32-1 is in the window exactly when the requested 64-bit bounds contain it
proof fn theorem_window(lo: Option<u64>, hi: Option<u64>, t: u32)
    requires t < u32::MAX
    ensures in_window(sat(lo), sat(hi), t) <==> (lo is Some ==> lo->Some_0 <= t) && (hi is Some ==> t <= hi->Some_0)
{ }
// the bytes of a start with the bytes of b
pub open spec fn starts(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() >= b.len() && a.take(b.len() as int) == b }
#[verifier::external_body] pub fn vx_starts_with(a: &Vec<u8>, b: &[u8]) -> (r: bool) ensures r == starts(a@, b@) { unimplemented!() }
//@fn src/storage/store/account/message.rs::require_page_token_in_prefix -> r
    ensures r is Ok <==> (page_options.page_token is Some ==> starts(page_options.page_token->Some_0@, prefix@)),
//@rw `token.starts_with(prefix)` => `vx_starts_with(token, prefix)`
//@endfn
// channel listings
//@fn src/network/server.rs::channel_page_options -> r
    ensures r.page_size == Some(match page_size { Some(n) => if n > 1000 { 1000 } else { n as usize }, None => 1000 }),
        bytes(r.page_token) == tok(page_token), r.reverse == (match reverse { Some(b) => b, None => false }),
//@closure 0 |size: u32| -> (o: usize)
    ensures o == size as usize
//@closure 1 |token: &Vec<u8>| -> (o: bool)
    ensures o == (token@.len() > 0)
//@endfn
//@fn src/network/server.rs::require_nonzero_page_size -> r
    ensures r is Ok <==> page_size != Some(0u32), r is Err ==> r->Err_0.code == Code::InvalidArgument,
//@endfn
//@item src/storage/store/account/channel_store.rs::CHANNEL_ID_LENGTH
//@fn src/network/server.rs::require_channel_id_width -> r
    ensures r is Ok <==> channel_id@.len() == 32, r is Ok ==> r->Ok_0@ == channel_id@, r is Err ==> r->Err_0.code == Code::InvalidArgument,
//@rw `channel_id.try_into()` => `vx_array32(channel_id)`
//@closure 0 |vx_e: ()| -> (o: Status)
    ensures o.code == Code::InvalidArgument
//@endfn
// a slice converts to an array exactly when the lengths agree
#[verifier::external_body] pub fn vx_array32(b: &[u8]) -> (r: Result<[u8; 32], ()>) ensures r is Ok <==> b@.len() == 32, r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
//@item src/network/server.rs::ShardScan
//@item src/network/server.rs::ShardCursor
// derive(PartialEq)
impl vstd::std_specs::cmp::PartialEqSpecImpl for ShardScan {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ShardScan) -> bool { match (*self, *o) { (ShardScan::Fresh, ShardScan::Fresh) => true, (ShardScan::Resume(a), ShardScan::Resume(b)) => a@ == b@, (ShardScan::Exhausted, ShardScan::Exhausted) => true, _ => false } }
}
impl PartialEq for ShardScan { #[verifier::external_body] fn eq(&self, o: &ShardScan) -> (r: bool) { unimplemented!() } }
// serde_json (opaque): the text of a cursor list; serialising a list of byte strings and numbers does not fail
pub uninterp spec fn json(c: Seq<ShardCursor>) -> Seq<u8>;
#[verifier::external_body] pub fn vx_json(c: &Vec<ShardCursor>) -> (r: Result<Vec<u8>, ()>) ensures r is Ok, r->Ok_0@ == json(c@) { unimplemented!() }
// Iterator::all over a vector
pub fn vx_all<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|x: &T| f.requires((x,))
    ensures r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), true), !r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), false)
{
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|x: &T| f.requires((x,)), forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] v@[k],), true) decreases v@.len() - i
    { if !f(&v[i]) { return false; } i = i + 1; }
    true
}
pub open spec fn finished(c: Seq<ShardCursor>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).scan is Exhausted }
//@fn src/network/server.rs::encode_shard_cursors -> r
    ensures finished(cursors@) ==> r == Ok::<Option<Vec<u8>>, Status>(None),
        !finished(cursors@) ==> r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0@ == json(cursors@),
//@rw `cursors.iter().all(` => `vx_all(&cursors, `
//@rw `serde_json::to_vec(&cursors)` => `vx_json(&cursors)`
//@rw `.map(Some)` => `.map(|vx_v: Vec<u8>| -> (o: Option<Vec<u8>>) ensures o == Some(vx_v) { Some(vx_v) })`
//@rw `|err|` => `|err: ()|`
//@closure 0 |cursor: &ShardCursor| -> (o: bool)
    ensures o == (cursor.scan is Exhausted)
//@endfn
} // verus!
fn main() {}
