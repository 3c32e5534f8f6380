// the trie node as a value, its record and its hash (C18, C38)
//@item src/storage/constants.rs::RootPrefix
use proto::DbTrieNode;
pub enum TrieError { DeserializationError, TrieNotInitialized, NoKeysToInsert, KeyLengthExceeded, KeyLengthTooShort, UnableToReloadRoot, InvalidChildNode { child_char: u8 }, ChildNotFound { char: u8, prefix: Vec<u8> }, Other }
#[verifier::external] impl std::fmt::Debug for TrieError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl TrieError { #[verifier::external_body] pub fn wrap_deserialize(e: DecodeError) -> (r: TrieError) { unimplemented!() } }
pub struct DecodeError {}
pub struct Instant {}
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
// ---- prost (trusted): what is decoded from the bytes of an encoded record is that record
pub type Hashes = Map<u8, Seq<u8>>;
pub struct Rec { pub key: Seq<u8>, pub chars: Seq<u32>, pub items: u32, pub hashes: Map<u32, Seq<u8>> }
pub open spec fn views<K>(m: Map<K, Vec<u8>>) -> Map<K, Seq<u8>> { m.map_values(|v: Vec<u8>| v@) }
pub open spec fn rec(n: DbTrieNode) -> Rec { Rec { key: n.key@, chars: n.child_chars@, items: n.items, hashes: views(n.child_hashes@) } }
pub uninterp spec fn wire(b: Seq<u8>) -> Option<Rec>;
impl DbTrieNode {
    #[verifier::external_body] pub fn encode_to_vec(&self) -> (r: Vec<u8>) ensures wire(r@) == Some(rec(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn decode(b: &[u8]) -> (r: Result<DbTrieNode, DecodeError>) ensures r is Ok <==> wire(b@) is Some, r is Ok ==> rec(r->Ok_0) == wire(b@)->Some_0 { unimplemented!() }
}
#[verifier::external_body] pub fn vx_as_deref(k: &Option<Vec<u8>>) -> (r: Option<&[u8]>) ensures r is Some <==> *k is Some, r is Some ==> r->Some_0@ == (*k)->Some_0@ { unimplemented!() }
#[verifier::external_body] pub fn vx_sort(v: &mut Vec<u8>)
    ensures final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> #[trigger] final(v)@[i] <= #[trigger] final(v)@[j],
        forall|x: u8| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x), old(v)@.no_duplicates() ==> final(v)@.no_duplicates() { unimplemented!() }
//@item src/storage/trie/trie_node.rs::SerializedTrieNode noclone
//@item src/storage/trie/trie_node.rs::TrieNodeType noclone
//@item src/storage/trie/trie_node.rs::TrieNode noclone
impl SerializedTrieNode {
//@fn src/storage/trie/trie_node.rs::SerializedTrieNode::new
//@endfn
}
// ---- a node as a value
pub struct Node { pub items: int, pub kids: Set<u8>, pub hashes: Hashes, pub key: Option<Seq<u8>> }
pub open spec fn val(n: TrieNode) -> Node {
    Node { items: n.items as int, kids: n.children@.dom(), hashes: views(n.child_hashes@), key: match n.key { Some(k) => Some(k@), None => None } }
}
// the hashes of the children below n, in ascending order
pub open spec fn joined(h: Hashes, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { joined(h, n - 1) + if h.contains_key((n - 1) as u8) { h[(n - 1) as u8] } else { seq![] } } }
// what a node hashes to: nothing but its content
pub open spec fn hash_of(n: Node) -> Seq<u8> {
    if n.kids =~= Set::<u8>::empty() { match n.key { Some(k) => digest20(k), None => seq![] } }
    else if n.hashes.dom() =~= Set::<u8>::empty() { seq![] }
    else { digest20(joined(n.hashes, 256)) }
}
// the keys stored are never empty
pub open spec fn proper(n: Node) -> bool { n.key is Some ==> n.key->Some_0.len() > 0 }
impl TrieNode {
//@fn src/storage/trie/trie_node.rs::TrieNode::new -> r
    ensures r.items == 0 && r.key is None && r.children@ =~= Map::<u8, TrieNodeType>::empty() && r.child_hashes@ =~= Map::<u8, Vec<u8>>::empty(),
        hash_of(val(r)) == Seq::<u8>::empty(),
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::make_primary_key -> r
    ensures r@ =~= seq![RootPrefix::MerkleTrieNode as u8] + prefix@ + (match child_char { Some(c) => seq![c], None => seq![] }),
//@start
    proof { ax_len(prefix); }
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::serialize -> r
    requires node.items <= u32::MAX, proper(val(*node)),
    ensures ({ let w = wire(r@); w is Some && same(val(*node), w->Some_0) }),
//@closure 0 |c: &u8| -> (o: u32)
    ensures o == *c as u32
//@before `db_trie_node.encode_to_vec()`
    proof {
        let (w, n) = (rec(db_trie_node), val(*node));
        assert forall|c: u8| n.kids.contains(c) implies #[trigger] w.chars.contains(c as u32) by {
            let i = choose|i: int| 0 <= i < w.chars.len() && #[trigger] w.chars[i] == c as u32; assert(w.chars.contains(c as u32));
        }
    }
//@closure 1 |vx_p: (&u8, &Vec<u8>)| -> (o: (u32, Vec<u8>))
    ensures o.0 == *vx_p.0 as u32, o.1@ == vx_p.1@
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::deserialize -> r
    ensures r is Ok <==> wire(serialized@) is Some, r is Ok ==> read(wire(serialized@)->Some_0, val(r->Ok_0)),
        r is Ok ==> forall|c: u8| #[trigger] r->Ok_0.children@.contains_key(c) ==> r->Ok_0.children@[c] is Serialized,
//@rw `.map_err(TrieError::wrap_deserialize)` => `.map_err(|e: DecodeError| -> (o: TrieError) { TrieError::wrap_deserialize(e) })`
//@rw `for char in db_trie_node.child_chars {` => `let mut vx_i: usize = 0; while vx_i < db_trie_node.child_chars.len() invariant vx_i <= db_trie_node.child_chars@.len(), kids_read(children@.dom(), db_trie_node.child_chars@, vx_i as int), forall|c: u8| #[trigger] children@.contains_key(c) ==> children@[c] is Serialized decreases db_trie_node.child_chars.len() - vx_i { let char = vx_take(&db_trie_node.child_chars, vx_i); vx_i = vx_i + 1;`
//@after `let mut children = HashMap::new();`
    let ghost hm = db_trie_node.child_hashes@;
    let ghost w = rec(db_trie_node);
//@rw `let child_hashes =` => `let child_hashes: HashMap<u8, Vec<u8>> =`
//@before `Ok(TrieNode`
    proof {
        let h: Map<u8, Vec<u8>> = child_hashes@;
        assert forall|c: u8| #[trigger] h.contains_key(c) implies exists|x: u32| #[trigger] hm.contains_key(x) && x as u8 == c && hm[x] == h[c] by {}
        assert forall|c: u8| #[trigger] views(h).contains_key(c) implies exists|x: u32| #[trigger] w.hashes.contains_key(x) && x as u8 == c && w.hashes[x] == views(h)[c] by {
            assert(h.contains_key(c));
            let x = choose|x: u32| #[trigger] hm.contains_key(x) && x as u8 == c && hm[x] == h[c]; assert(w.hashes.contains_key(x));
        }
        assert forall|x: u32| #[trigger] w.hashes.contains_key(x) implies views(h).contains_key(x as u8) by { assert(hm.contains_key(x)); }
    }
//@closure 0 |vx_p: (u32, Vec<u8>)| -> (o: (u8, Vec<u8>))
    ensures o.0 == vx_p.0 as u8, o.1 == vx_p.1
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::is_leaf -> r
    ensures r == (val(*self).kids =~= Set::<u8>::empty()),
//@start
    proof { lemma_empty(self.children@); }
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::items -> r
    ensures r == self.items,
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::value -> r
    ensures r is Some <==> self.key is Some && val(*self).kids =~= Set::<u8>::empty(), r is Some ==> r->Some_0@ == self.key->Some_0@,
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::hash -> r
    requires proper(val(*self)),
    ensures r@ =~= hash_of(val(*self)),
//@start
    proof { lemma_empty(self.child_hashes@); }
    let ghost hs = val(*self).hashes;
    let ghost ks: Seq<u8>;
//@rw `let mut concat_hashes = vec![];` => `let mut concat_hashes = vec![]; proof { ks = chars@; lemma_joined_gap(hs, 0, 0); }`
//@rw `for c in chars {` => `let mut vx_i: usize = 0; while vx_i < chars.len() invariant chars@ == ks, vx_i <= ks.len(), ascending(ks), listed(hs, ks), hs == val(*self).hashes, concat_hashes@ == joined(hs, if vx_i == 0 { 0 } else { ks[vx_i - 1] + 1 }) decreases chars.len() - vx_i { let c = vx_take(&chars, vx_i); vx_i = vx_i + 1; let ghost c0 = concat_hashes@; proof { let lo = if vx_i == 1 { 0 } else { ks[vx_i - 2] + 1 }; assert forall|x: int| lo <= x < c implies !hs.contains_key(#[trigger] (x as u8)) by { if hs.contains_key(x as u8) { assert(ks.contains(x as u8)); } } lemma_joined_gap(hs, lo, c as int); }`
//@loopafter 0
    proof {
        let lo = if ks.len() == 0 { 0 } else { ks.last() + 1 };
        assert forall|x: int| lo <= x < 256 implies !hs.contains_key(#[trigger] (x as u8)) by { if hs.contains_key(x as u8) { assert(ks.contains(x as u8)); } }
        lemma_joined_gap(hs, lo, 256);
    }
//@rw `self.key.as_deref()` => `vx_as_deref(&self.key)`
//@rw `chars.sort()` => `vx_sort(&mut chars)`
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::update_hash -> r
    requires proper(val(*old(self))),
    ensures r is Ok, *final(self) == *old(self),
        views(final(child_hashes)@) =~= ({ let h = hash_of(val(*old(self))); let m = views(old(child_hashes)@);
            if prefix@.len() == 0 { m } else if h.len() == 0 { m.remove(prefix@.last()) } else { m.insert(prefix@.last(), h) } }),
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::put_to_txn
    requires self.items <= u32::MAX, proper(val(*self)),
    ensures exists|b: Vec<u8>| #[trigger] wire(b@) is Some && same(val(*self), wire(b@)->Some_0)
        && final(txn).batch@ == old(txn).batch@.insert(seq![RootPrefix::MerkleTrieNode as u8] + prefix@, Some(b)),
//@start
    assert(seq![RootPrefix::MerkleTrieNode as u8] + prefix@ + Seq::<u8>::empty() =~= seq![RootPrefix::MerkleTrieNode as u8] + prefix@);
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::delete_to_txn
    ensures final(txn).batch@ == old(txn).batch@.insert(seq![RootPrefix::MerkleTrieNode as u8] + prefix@, None),
//@start
    assert(seq![RootPrefix::MerkleTrieNode as u8] + prefix@ + Seq::<u8>::empty() =~= seq![RootPrefix::MerkleTrieNode as u8] + prefix@);
//@endfn
}
pub open spec fn ascending(k: Seq<u8>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> #[trigger] k[i] < #[trigger] k[j] }
pub open spec fn listed(h: Hashes, k: Seq<u8>) -> bool { forall|c: u8| #[trigger] h.contains_key(c) <==> k.contains(c) }
proof fn lemma_empty<V>(m: Map<u8, V>) ensures m == Map::<u8, V>::empty() <==> m.dom() =~= Set::<u8>::empty() { if m.dom() =~= Set::<u8>::empty() { assert(m =~= Map::<u8, V>::empty()); } }
proof fn lemma_joined_gap(h: Hashes, a: int, b: int) requires 0 <= a <= b, forall|x: int| a <= x < b ==> !h.contains_key(#[trigger] (x as u8)) ensures joined(h, a) == joined(h, b) decreases b - a
{ if a < b { lemma_joined_gap(h, a, b - 1); assert(joined(h, b) =~= joined(h, b - 1)) by { assert(!h.contains_key(((b - 1) as int) as u8)); } } }
// a record that says what the node is
pub open spec fn same(n: Node, w: Rec) -> bool {
    &&& w.items == n.items
    &&& w.key == (match n.key { Some(k) => k, None => seq![] })
    &&& forall|c: u8| n.kids.contains(c) <==> #[trigger] w.chars.contains(c as u32)
    &&& forall|i: int| 0 <= i < w.chars.len() ==> #[trigger] w.chars[i] < 256
    &&& forall|c: u32| #[trigger] w.hashes.contains_key(c) ==> c < 256 && n.hashes.contains_key(c as u8) && w.hashes[c] == n.hashes[c as u8]
    &&& forall|c: u8| #[trigger] n.hashes.contains_key(c) ==> w.hashes.contains_key(c as u32)
}
pub open spec fn kids_read(kids: Set<u8>, chars: Seq<u32>, n: int) -> bool {
    &&& forall|c: u8| #[trigger] kids.contains(c) ==> exists|i: int| 0 <= i < n && #[trigger] chars[i] as u8 == c
    &&& forall|i: int| 0 <= i < n ==> kids.contains(#[trigger] chars[i] as u8)
}
// what reading a record gives
pub open spec fn read(w: Rec, n: Node) -> bool {
    &&& n.items == w.items
    &&& n.key == (if w.key.len() == 0 { None } else { Some(w.key) })
    &&& kids_read(n.kids, w.chars, w.chars.len() as int)
    &&& forall|c: u8| #[trigger] n.hashes.contains_key(c) ==> exists|x: u32| #[trigger] w.hashes.contains_key(x) && x as u8 == c && w.hashes[x] == n.hashes[c]
    &&& forall|x: u32| #[trigger] w.hashes.contains_key(x) ==> n.hashes.contains_key(x as u8)
}
// writing a node and reading it back gives the node, so its hash too
proof fn theorem_round_trip(n: Node, w: Rec, m: Node)
    requires proper(n), same(n, w), read(w, m)
    ensures m == n, hash_of(m) == hash_of(n)
{
    assert forall|c: u8| n.kids.contains(c) <==> m.kids.contains(c) by {
        if n.kids.contains(c) { assert(w.chars.contains(c as u32)); let i = choose|i: int| 0 <= i < w.chars.len() && w.chars[i] == c as u32; assert(m.kids.contains(w.chars[i] as u8)); }
        if m.kids.contains(c) { let i = choose|i: int| 0 <= i < w.chars.len() && #[trigger] w.chars[i] as u8 == c; assert(w.chars[i] < 256); assert(w.chars[i] == c as u32); assert(w.chars.contains(c as u32)); }
    }
    assert(n.kids =~= m.kids);
    assert forall|c: u8| n.hashes.contains_key(c) <==> m.hashes.contains_key(c) by { if n.hashes.contains_key(c) { assert(w.hashes.contains_key(c as u32)); } }
    assert(n.hashes =~= m.hashes);
}
// the storage key of a node and its path determine each other
proof fn theorem_primary_keys(p: Seq<u8>, c: Option<u8>, q: Seq<u8>, d: Option<u8>)
    ensures ({ let path = |p: Seq<u8>, c: Option<u8>| p + (match c { Some(c) => seq![c], None => Seq::<u8>::empty() });
        let key = |p: Seq<u8>, c: Option<u8>| seq![RootPrefix::MerkleTrieNode as u8] + p + (match c { Some(c) => seq![c], None => Seq::<u8>::empty() });
        key(p, c).skip(1) == path(p, c) && (key(p, c) == key(q, d) <==> path(p, c) == path(q, d)) })
{
    let path = |p: Seq<u8>, c: Option<u8>| p + (match c { Some(c) => seq![c], None => Seq::<u8>::empty() });
    let key = |p: Seq<u8>, c: Option<u8>| seq![RootPrefix::MerkleTrieNode as u8] + p + (match c { Some(c) => seq![c], None => Seq::<u8>::empty() });
    assert(key(p, c).skip(1) =~= path(p, c)); assert(key(q, d).skip(1) =~= path(q, d));
    assert(key(p, c) =~= seq![RootPrefix::MerkleTrieNode as u8] + path(p, c)); assert(key(q, d) =~= seq![RootPrefix::MerkleTrieNode as u8] + path(q, d));
}
