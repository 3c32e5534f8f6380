//@include prelude.vrs
global size_of usize == 8;
//@include maps.vrs
//@include errors.vrs
//@include strings.vrs
//@include time.vrs
//@proto Message MessageType OnChainEvent OnChainEventType HubEvent HubEventType UserNameProof UserNameType CastId
//@include route.vrs
//@include keys.vrs
use proto::Message;
pub trait IntoU8 { spec fn byte(self) -> u8; fn into_u8(self) -> (r: u8) ensures r == self.byte(); }
impl IntoU8 for MessageType {
    open spec fn byte(self) -> u8 { self as u8 }
//@fn src/storage/store/account/message.rs::<IntoU8 for MessageType>::into_u8 -> r
//@nopub
//@endfn
}
impl Message {
//@fn proto/src/lib.rs::Message::msg_type -> r
    ensures r == kind(*self),
//@endfn
//@fn proto/src/lib.rs::Message::fid -> r
    ensures r == owner(*self),
//@endfn
}
pub open spec fn kind(m: Message) -> MessageType { match m.data { Some(d) => MessageType::spec_or_default(d.r#type), None => MessageType::None } }
pub open spec fn owner(m: Message) -> u64 { match m.data { Some(d) => d.fid, None => 0 } }
//@item src/storage/trie/merkle_trie.rs::USERNAME_MAX_LENGTH
//@item src/storage/trie/merkle_trie.rs::FNAME_MESSAGE_TYPE
//@item src/storage/trie/merkle_trie.rs::TRIE_SHARD_SIZE
//@item src/storage/trie/trie_node.rs::UNCOMPACTED_LENGTH
//@item src/storage/trie/merkle_trie.rs::DecodedTrieKey
//@item src/storage/trie/merkle_trie.rs::TrieKey
pub enum TrieError { KeyLengthTooShort, Other }
// ---- the published key layout
pub type Key = Seq<u8>;
pub open spec fn shard_of(fid: u64) -> u8 { (home_shard(fid, 256) - 1) as u8 }
pub open spec fn fid_part(fid: u64) -> Key { seq![shard_of(fid)] + fid_key(fid) }
pub open spec fn type_part(fid: u64, t: u8) -> Key { fid_part(fid) + seq![(8 * t) as u8] }
pub open spec fn message_key(fid: u64, t: u8, hash: Key) -> Key { type_part(fid, t) + hash }
pub open spec fn onchain_key(e: proto::OnChainEvent) -> Key { fid_part(e.fid) + seq![e.r#type as u8] + e.transaction_hash@ + be32(e.log_index) }
pub open spec fn zeros(n: int) -> Key { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| 0u8) }
pub open spec fn fname_key(fid: u64, name: Key) -> Key { fid_part(fid) + seq![7u8] + name + zeros(20 - name.len()) }
pub open spec fn keys_of(m: Message) -> Seq<Key> {
    let own = message_key(owner(m), kind(m) as u8, m.hash@);
    match m.data { Some(d) => match d.body { Some(proto::message_data::Body::LendStorageBody(b)) => seq![own, message_key(b.to_fid, kind(m) as u8, m.hash@)], _ => seq![own] }, None => seq![own] }
}
pub open spec fn fids_fit(m: Message) -> bool {
    m.data is Some && owner(m) <= u32::MAX && (m.data->Some_0.body matches Some(proto::message_data::Body::LendStorageBody(b)) ==> b.to_fid <= u32::MAX)
}
pub open spec fn flat(v: Seq<Vec<u8>>) -> Seq<Key> { v.map_values(|x: Vec<u8>| x@) }
#[verifier::external_body] pub fn vx_zeros(n: usize) -> (r: Vec<u8>) ensures r@ == zeros(n as int) { vec![0; n] }
broadcast proof fn lemma_flat(v: Seq<Vec<u8>>, m: Message)
    requires v.len() == keys_of(m).len(), v[0]@ == keys_of(m)[0], v.len() == 2 ==> v[1]@ == keys_of(m)[1]
    ensures #![trigger flat(v), keys_of(m)] flat(v) == keys_of(m)
{ assert(flat(v) =~= keys_of(m)); }
pub fn vx_append(v: &mut Vec<Vec<u8>>, x: Vec<Vec<u8>>) ensures final(v)@ == old(v)@ + x@, flat(final(v)@) == flat(old(v)@) + flat(x@) { let mut y = x; v.append(&mut y); assert(flat(v@) =~= flat(old(v)@) + flat(x@)); }
#[verifier::external_body] pub fn vx_utf8(b: &Vec<u8>) -> (r: String) requires valid_utf8(b@) ensures encode_utf8(r@) == b@ { unimplemented!() }
impl TrieKey {
//@fn src/storage/trie/merkle_trie.rs::TrieKey::fid_shard -> r
    requires fid <= u32::MAX,
    ensures r == shard_of(fid),
//@rw `static TRIE_ROUTER: ShardRouter = ShardRouter {};` => `let TRIE_ROUTER = ShardRouter {};`
//@endfn
//@fn src/storage/trie/merkle_trie.rs::TrieKey::for_fid -> r
    requires fid <= u32::MAX,
    ensures r@ =~= fid_part(fid), r@.len() == 5,
//@endfn
//@fn src/storage/trie/merkle_trie.rs::TrieKey::for_message_type -> r
    requires fid <= u32::MAX, msg_type < 32,
    ensures r@ =~= type_part(fid, msg_type), r@.len() == 6,
//@start
    proof { assert(msg_type < 32 ==> (msg_type << 3) == mul(8, msg_type)) by (bit_vector); }
//@endfn
//@fn src/storage/trie/merkle_trie.rs::TrieKey::for_message -> r
    requires fids_fit(*msg),
    ensures r@.len() == keys_of(*msg).len(), r@[0]@ =~= keys_of(*msg)[0], r@.len() == 2 ==> r@[1]@ =~= keys_of(*msg)[1],
//@endfn
//@fn src/storage/trie/merkle_trie.rs::TrieKey::for_onchain_event -> r
    requires event.fid <= u32::MAX,
    ensures r@ =~= onchain_key(*event),
//@endfn
//@fn src/storage/trie/merkle_trie.rs::TrieKey::for_fname -> r
    requires fid <= u32::MAX,
    ensures r@ =~= fname_key(fid, encode_utf8(name@)),
//@rw `std::iter::repeat(0).take(` => `vx_zeros(`
//@endfn
//@fn src/storage/trie/merkle_trie.rs::TrieKey::decode -> r
    ensures key@.len() < 12 ==> r is Err,
        key@.len() >= 12 ==> r is Ok && {
            let d = r->Ok_0;
            &&& d.virtual_shard == key@[0] && d.fid == unbe32(key@.subrange(1, 5)) && d.rest@ =~= key@.skip(6)
            &&& d.onchain_message_type == (if key@[5] < 8 { Some(key@[5]) } else { None::<u8> })
            &&& d.message_type == (if key@[5] < 8 { None::<u8> } else { Some((key@[5] / 8) as u8) })
        },
//@start
    proof { ax_len(key); if key@.len() >= 12 { let k = key@[5]; assert((k >> 3) == k / 8) by (bit_vector); } assert((1i32 << 3) == 8) by (bit_vector); assert((1u8 << 3) == 8) by (bit_vector); }
//@endfn
//@fn src/storage/trie/merkle_trie.rs::TrieKey::for_hub_event -> r
    requires event.body is Some, event_fits(*event),
    ensures flat(r.0@) =~= added(*event), flat(r.1@) =~= dropped(*event),
//@start
    broadcast use lemma_flat;
//@rw `inserts.extend(` => `vx_append(&mut inserts, `
//@rw `deletes.extend(` => `vx_append(&mut deletes, `
//@rw `&None =>` => `None =>`
//@rw `str::from_utf8(&proof.name).unwrap().to_string()` => `vx_utf8(&proof.name)`
//@loop 0
    invariant event.body == Some(proto::hub_event::Body::MergeMessageBody(*merge)), event_fits(*event),
        flat(deletes@) == many(merge.deleted_messages@.take(vx_i0 as int)), flat(inserts@) == opt_msg(merge.message),
//@loopstart 0
    proof {
        let l = merge.deleted_messages@;
        assert(l.take(vx_i0 + 1) =~= l.take(vx_i0 as int).push(l[vx_i0 as int])); lemma_many(l.take(vx_i0 as int), l[vx_i0 as int]);
        assert(fids_fit(l[vx_i0 as int]));
    }
    let ghost d0 = deletes@;
//@loopend 0
    proof { assert(flat(deletes@) =~= flat(d0) + keys_of(merge.deleted_messages@[vx_i0 as int])); }
//@loopafter 0
    proof { assert(merge.deleted_messages@.take(merge.deleted_messages@.len() as int) =~= merge.deleted_messages@); }
//@endfn
}
// ---- what an event adds to and drops from the trie
pub open spec fn many(l: Seq<Message>) -> Seq<Key> decreases l.len() { if l.len() == 0 { seq![] } else { many(l.drop_last()) + keys_of(l.last()) } }
proof fn lemma_many(l: Seq<Message>, m: Message) ensures many(l.push(m)) == many(l) + keys_of(m) { assert(l.push(m).drop_last() =~= l); }
pub open spec fn opt_msg(m: Option<Message>) -> Seq<Key> { match m { Some(m) => keys_of(m), None => seq![] } }
pub open spec fn is_fname(p: proto::UserNameProof) -> bool { p.r#type == UserNameType::UsernameTypeFname as i32 }
use proto::{UserNameType, hub_event::Body};
pub open spec fn added(e: proto::HubEvent) -> Seq<Key> {
    match e.body {
        Some(Body::MergeMessageBody(b)) => opt_msg(b.message),
        Some(Body::MergeOnChainEventBody(b)) => match b.on_chain_event { Some(o) => seq![onchain_key(o)], None => seq![] },
        Some(Body::MergeUsernameProofBody(b)) => opt_msg(b.username_proof_message)
            + match b.username_proof { Some(p) => if is_fname(p) && p.fid != 0 { seq![fname_key(p.fid, p.name@)] } else { seq![] }, None => seq![] },
        _ => seq![],
    }
}
pub open spec fn dropped(e: proto::HubEvent) -> Seq<Key> {
    match e.body {
        Some(Body::MergeMessageBody(b)) => many(b.deleted_messages@),
        Some(Body::PruneMessageBody(b)) => opt_msg(b.message),
        Some(Body::RevokeMessageBody(b)) => opt_msg(b.message),
        Some(Body::MergeUsernameProofBody(b)) => opt_msg(b.deleted_username_proof_message)
            + match b.deleted_username_proof { Some(p) => if is_fname(p) { seq![fname_key(p.fid, p.name@)] } else { seq![] }, None => seq![] },
        _ => seq![],
    }
}
pub open spec fn fits_opt(m: Option<Message>) -> bool { m is Some ==> fids_fit(m->Some_0) }
pub open spec fn proof_fits(p: Option<proto::UserNameProof>) -> bool { p is Some ==> p->Some_0.fid <= u32::MAX && valid_utf8(p->Some_0.name@) }
// stored records: fids are 32 bits, messages carry their data, transferred names are text
pub open spec fn event_fits(e: proto::HubEvent) -> bool {
    match e.body {
        Some(Body::MergeMessageBody(b)) => fits_opt(b.message) && forall|i: int| 0 <= i < b.deleted_messages@.len() ==> fids_fit(#[trigger] b.deleted_messages@[i]),
        Some(Body::MergeOnChainEventBody(b)) => b.on_chain_event is Some ==> b.on_chain_event->Some_0.fid <= u32::MAX,
        Some(Body::PruneMessageBody(b)) => fits_opt(b.message),
        Some(Body::RevokeMessageBody(b)) => fits_opt(b.message),
        Some(Body::MergeUsernameProofBody(b)) => fits_opt(b.username_proof_message) && fits_opt(b.deleted_username_proof_message) && proof_fits(b.username_proof) && proof_fits(b.deleted_username_proof),
        _ => true,
    }
}
// ---- different records have different keys
proof fn lemma_parts(fid: u64, t: u8, rest: Key)
    requires fid <= u32::MAX
    ensures ({ let k = fid_part(fid) + seq![t] + rest; k.len() == 6 + rest.len() && k[0] == shard_of(fid) && unbe32(k.subrange(1, 5)) == fid && k[5] == t && k.skip(6) == rest })
{
    let k = fid_part(fid) + seq![t] + rest;
    lemma_be32(fid as u32);
    assert(k.subrange(1, 5) =~= be32(fid as u32)); assert(k.skip(6) =~= rest);
}
// a message key names its fid, type and hash, and nothing else has it
proof fn theorem_message_keys(f: u64, g: u64, t: u8, u: u8, h: Key, i: Key)
    requires f <= u32::MAX, g <= u32::MAX, t < 32, u < 32, message_key(f, t, h) == message_key(g, u, i)
    ensures f == g, t == u, h == i
{ lemma_parts(f, (8 * t) as u8, h); lemma_parts(g, (8 * u) as u8, i); assert(message_key(f, t, h) =~= fid_part(f) + seq![(8 * t) as u8] + h); assert(message_key(g, u, i) =~= fid_part(g) + seq![(8 * u) as u8] + i); }
proof fn theorem_onchain_keys(a: proto::OnChainEvent, b: proto::OnChainEvent)
    requires a.fid <= u32::MAX, b.fid <= u32::MAX, 0 <= a.r#type <= 6, 0 <= b.r#type <= 6, onchain_key(a) == onchain_key(b)
    ensures a.fid == b.fid, a.r#type == b.r#type, a.transaction_hash@ == b.transaction_hash@, a.log_index == b.log_index
{
    let (x, y) = (a.transaction_hash@ + be32(a.log_index), b.transaction_hash@ + be32(b.log_index));
    lemma_parts(a.fid, a.r#type as u8, x); lemma_parts(b.fid, b.r#type as u8, y);
    assert(onchain_key(a) =~= fid_part(a.fid) + seq![a.r#type as u8] + x); assert(onchain_key(b) =~= fid_part(b.fid) + seq![b.r#type as u8] + y);
    assert(x == y);
    lemma_be32(a.log_index); lemma_be32(b.log_index);
    let n = a.transaction_hash@.len() as int;
    assert(x.len() == n + 4 && y.len() == b.transaction_hash@.len() + 4);
    assert(x.take(n) =~= a.transaction_hash@); assert(y.take(n) =~= b.transaction_hash@);
    assert(x.skip(n) =~= be32(a.log_index)); assert(y.skip(n) =~= be32(b.log_index));
}
// names of at most 20 bytes with no zero byte at the end
proof fn theorem_fname_keys(f: u64, g: u64, a: Key, b: Key)
    requires f <= u32::MAX, g <= u32::MAX, a.len() <= 20, b.len() <= 20, a.len() > 0 ==> a.last() != 0, b.len() > 0 ==> b.last() != 0, fname_key(f, a) == fname_key(g, b)
    ensures f == g, a == b
{
    let (x, y) = (a + zeros(20 - a.len()), b + zeros(20 - b.len()));
    lemma_parts(f, 7, x); lemma_parts(g, 7, y);
    assert(fname_key(f, a) =~= fid_part(f) + seq![7u8] + x); assert(fname_key(g, b) =~= fid_part(g) + seq![7u8] + y);
    assert(x == y);
    if a.len() < b.len() { assert(x[b.len() - 1] == 0); assert(y[b.len() - 1] == b.last()); }
    if b.len() < a.len() { assert(y[a.len() - 1] == 0); assert(x[a.len() - 1] == a.last()); }
    assert(x.take(a.len() as int) =~= a); assert(y.take(b.len() as int) =~= b);
}
// on-chain events, name transfers and messages never share a key
proof fn theorem_kinds_apart(e: proto::OnChainEvent, f: u64, g: u64, t: u8, h: Key, n: Key)
    requires e.fid <= u32::MAX, f <= u32::MAX, g <= u32::MAX, 0 <= e.r#type <= 6, 1 <= t < 32
    ensures onchain_key(e) != message_key(f, t, h), onchain_key(e) != fname_key(g, n), message_key(f, t, h) != fname_key(g, n)
{
    lemma_parts(e.fid, e.r#type as u8, e.transaction_hash@ + be32(e.log_index)); lemma_parts(f, (8 * t) as u8, h); lemma_parts(g, 7, n + zeros(20 - n.len()));
    assert(onchain_key(e) =~= fid_part(e.fid) + seq![e.r#type as u8] + (e.transaction_hash@ + be32(e.log_index)));
    assert(message_key(f, t, h) =~= fid_part(f) + seq![(8 * t) as u8] + h); assert(fname_key(g, n) =~= fid_part(g) + seq![7u8] + (n + zeros(20 - n.len())));
}
} // verus!
fn main() {}
