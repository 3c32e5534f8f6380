//@include prelude.vrs
global size_of usize == 8;
//@proto DbTrieNode
//@include batch.vrs
//@include iters.vrs
//@include blake.vrs
//@include lex.vrs
//@include trie.vrs
//@item src/storage/trie/trie_node.rs::UNCOMPACTED_LENGTH
// ---- the database and the bookkeeping of reads (trusted)
pub type Disk = Map<Seq<u8>, Seq<u8>>;
pub struct RocksdbError {}
#[verifier::external_body] pub struct RocksDB { x: u8 }
impl RocksDB {
    pub uninterp spec fn disk(&self) -> Disk;
    #[verifier::external_body] pub fn get(&self, k: &Vec<u8>) -> (r: Result<Option<Vec<u8>>, RocksdbError>)
        ensures r is Ok ==> (r->Ok_0 is Some <==> self.disk().contains_key(k@)) && (r->Ok_0 is Some ==> r->Ok_0->Some_0@ == self.disk()[k@]) { unimplemented!() }
}
impl TrieError { #[verifier::external_body] pub fn wrap_database(e: RocksdbError) -> (r: TrieError) { unimplemented!() } }
pub struct Context {}
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.contains_key((*k).k()), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *r->Some_0 == old(self)@[(*k).k()] && final(self)@ == old(self)@.insert((*k).k(), *final(r->Some_0)) { unimplemented!() }
}
// ---- what the trie stores: a set of keys, none the beginning of another
pub type Path = Seq<u8>;
pub type Keys = Set<Seq<u8>>;
pub open spec fn starts(k: Seq<u8>, p: Path) -> bool { p.is_prefix_of(k) }
pub open spec fn under(s: Keys, p: Path) -> Keys { s.filter(|k: Seq<u8>| starts(k, p)) }
pub open spec fn good(s: Keys, l: nat) -> bool {
    &&& forall|k: Seq<u8>| #[trigger] s.contains(k) ==> UNCOMPACTED_LENGTH < k.len() <= l
    &&& forall|a: Seq<u8>, b: Seq<u8>| #[trigger] s.contains(a) && #[trigger] s.contains(b) && starts(b, a) ==> a == b
}
// the one hash of a set of keys below a path: nothing but the set
pub open spec fn tree_hash(s: Keys, p: Path, l: nat) -> Seq<u8> decreases l - p.len(), 1int {
    if s =~= Set::<Seq<u8>>::empty() { seq![] }
    else if p.len() >= UNCOMPACTED_LENGTH && s.len() == 1 { digest20(s.choose()) }
    else if p.len() >= l { seq![] }
    else { digest20(joined(kid_hashes(s, p, l), 256)) }
}
pub open spec fn kid_hashes(s: Keys, p: Path, l: nat) -> Hashes decreases l - p.len(), 0int {
    if p.len() >= l { Map::empty() } else { Map::new(kids_of(s, p), |c: u8| tree_hash(under(s, p.push(c)), p.push(c), l)) }
}
pub open spec fn kids_of(s: Keys, p: Path) -> Set<u8> { s.filter(|k: Seq<u8>| starts(k, p) && k.len() > p.len()).map(|k: Seq<u8>| k[p.len() as int]) }
// a node with children below p
pub open spec fn branch(n: Node, s: Keys, p: Path, l: nat) -> bool {
    &&& p.len() < l
    &&& n.key is None
    &&& n.kids == kids_of(s, p)
    &&& n.hashes == kid_hashes(s, p, l)
}
// the content a node must have
pub open spec fn fits(n: Node, s: Keys, p: Path, l: nat) -> bool {
    &&& n.items == s.len()
    &&& if s =~= Set::<Seq<u8>>::empty() { n.kids =~= Set::<u8>::empty() && n.key is None && (p.len() < UNCOMPACTED_LENGTH ==> n.hashes =~= Map::empty()) }
        else if p.len() >= UNCOMPACTED_LENGTH && s.len() == 1 { n.kids =~= Set::<u8>::empty() && n.key == Some(s.choose()) && stale(n.hashes, s.choose(), p) }
        else { branch(n, s, p, l) }
}
// a leaf may remember the hash it had as a node with one child
pub open spec fn stale(h: Hashes, k: Seq<u8>, p: Path) -> bool { forall|c: u8| #[trigger] h.contains_key(c) ==> p.len() < k.len() && c == k[p.len() as int] && h[c] == digest20(k) }
pub open spec fn spot(q: Path) -> Seq<u8> { seq![RootPrefix::MerkleTrieNode as u8] + q }
pub open spec fn rec_ok(d: Disk, q: Path, s: Keys, l: nat) -> bool {
    d.contains_key(spot(q)) && wire(d[spot(q)]) is Some && exists|n: Node| #[trigger] same(n, wire(d[spot(q)])->Some_0) && fits(n, s, q, l)
}
// where there are nodes
pub open spec fn live(s: Keys, p: Path, q: Path) -> bool {
    &&& starts(q, p)
    &&& !(under(s, q) =~= Set::<Seq<u8>>::empty())
    &&& q == p || q.len() <= UNCOMPACTED_LENGTH || under(s, q.drop_last()).len() >= 2
}
pub open spec fn stored(d: Disk, p: Path, s: Keys, l: nat) -> bool { forall|q: Path| #[trigger] live(s, p, q) ==> rec_ok(d, q, under(s, q), l) }
pub open spec fn mem(n: TrieNode, d: Disk, s: Keys, p: Path, l: nat) -> bool decreases l - p.len() {
    &&& fits(val(n), s, p, l)
    &&& kids_ok(n, d, s, p, l)
}
pub open spec fn kids_ok(n: TrieNode, d: Disk, s: Keys, p: Path, l: nat) -> bool decreases l - p.len() via kids_dec {
    forall|c: u8| #[trigger] n.children@.contains_key(c) ==> p.len() < l && match n.children@[c] {
        TrieNodeType::Serialized(_) => stored(d, p.push(c), under(s, p.push(c)), l),
        TrieNodeType::Node(m) => fits(val(m), under(s, p.push(c)), p.push(c), l) && kids_ok(m, d, under(s, p.push(c)), p.push(c), l),
    }
}
#[via_fn] proof fn kids_dec(n: TrieNode, d: Disk, s: Keys, p: Path, l: nat) {}
pub open spec fn after(d: Disk, b: B) -> Disk {
    Map::new(d.dom().union(b.dom()).filter(|k: Seq<u8>| if b.contains_key(k) { b[k] is Some } else { d.contains_key(k) }), |k: Seq<u8>| if b.contains_key(k) { b[k]->Some_0@ } else { d[k] })
}
// nothing written but below p
pub open spec fn outside(b0: B, b1: B, p: Path) -> bool {
    forall|k: Seq<u8>| #![trigger b1.contains_key(k)] #![trigger b1[k]] !starts(k, spot(p)) ==> b1.contains_key(k) == b0.contains_key(k) && b1[k] == b0[k]
}
impl TrieNode {
//@fn src/storage/trie/trie_node.rs::<Default for TrieNode>::default -> r
    ensures r.items == 0 && r.key is None && r.children@ =~= Map::<u8, TrieNodeType>::empty() && r.child_hashes@ =~= Map::<u8, Vec<u8>>::empty(),
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::get_or_load_child -> r
    requires old(self).children@.contains_key(char) && old(self).children@[char] is Serialized && db.disk().contains_key(spot(prefix@.push(char))) ==> wire(db.disk()[spot(prefix@.push(char))]) is Some,
    ensures r is Ok ==> old(self).children@.contains_key(char),
        r is Ok ==> final(self).items == old(self).items && final(self).key == old(self).key && final(self).child_hashes == old(self).child_hashes
            && final(self).children@ == old(self).children@.insert(char, TrieNodeType::Node(*final(r->Ok_0))),
        r is Ok ==> loaded(*r->Ok_0, old(self).children@[char], db.disk(), prefix@.push(char)),
//@rw `use std::collections::hash_map::Entry;` => `proof { assert(seq![RootPrefix::MerkleTrieNode as u8] + prefix@ + seq![char] =~= spot(prefix@.push(char))); }`
//@rw `match self.children.entry(char) {` => `match self.children.get_mut(&char) {`
//@rw `Entry::Occupied(mut entry) => {` => `Some(entry) => {`
//@rw `match entry.get_mut() {` => `match entry {`
//@rw `*entry.get_mut() = TrieNodeType::Node(child_node);` => `*entry = TrieNodeType::Node(child_node);`
//@rw `match entry.into_mut() {` => `match entry {`
//@rw `Entry::Vacant(_)` => `None`
//@rw `ctx.db_read_count.fetch_add(1, atomic::Ordering::Relaxed);` => ``
//@rw `ctx.mem_read_count.fetch_add(1, atomic::Ordering::Relaxed);` => ``
//@rw `.map_err(TrieError::wrap_database)?` => `.map_err(|e: RocksdbError| -> (o: TrieError) { TrieError::wrap_database(e) })?`
//@rw `.map(|b| TrieNode::deserialize(&b).unwrap())` => `.map(|b: Vec<u8>| -> (o: TrieNode) requires wire(b@) is Some ensures read(wire(b@)->Some_0, val(o)), forall|c: u8| #[trigger] o.children@.contains_key(c) ==> o.children@[c] is Serialized { TrieNode::deserialize(&b).unwrap() })`
//@rw `.unwrap_or_default()` => `.unwrap_or(TrieNode::default())`
//@endfn
}
// ---- facts about sets of keys
pub open spec fn none(s: Keys) -> bool { s =~= Set::<Seq<u8>>::empty() }
proof fn lemma_push(k: Seq<u8>, p: Path, c: u8) ensures starts(k, p.push(c)) <==> starts(k, p) && k.len() > p.len() && k[p.len() as int] == c
{
    let q = p.push(c);
    if starts(k, q) { assert(k.take(p.len() as int) =~= k.take(q.len() as int).take(p.len() as int)); assert(q.take(p.len() as int) =~= p); assert forall|i: int| 0 <= i < p.len() implies p[i] == k[i] by { assert(q[i] == k[i]); } assert(q[p.len() as int] == k[p.len() as int]); }
    if starts(k, p) && k.len() > p.len() && k[p.len() as int] == c { assert forall|i: int| 0 <= i < q.len() implies q[i] == k[i] by { if i < p.len() { assert(p[i] == k[i]); } } assert(q =~= k.take(q.len() as int)); }
}
proof fn lemma_kids(s: Keys, p: Path) ensures forall|c: u8| #[trigger] kids_of(s, p).contains(c) <==> !none(under(s, p.push(c)))
{
    assert forall|c: u8| #[trigger] kids_of(s, p).contains(c) <==> !none(under(s, p.push(c))) by {
        let f = s.filter(|k: Seq<u8>| starts(k, p) && k.len() > p.len());
        let g = |k: Seq<u8>| k[p.len() as int];
        if kids_of(s, p).contains(c) { let k = choose|k: Seq<u8>| f.contains(k) && c == g(k); lemma_push(k, p, c); assert(under(s, p.push(c)).contains(k)); }
        if !none(under(s, p.push(c))) { let k = choose|k: Seq<u8>| under(s, p.push(c)).contains(k); lemma_push(k, p, c); assert(f.contains(k)); assert(c == g(k)); }
    }
}
pub open spec fn below(s: Keys, p: Path) -> bool { forall|k: Seq<u8>| #[trigger] s.contains(k) ==> starts(k, p) }
proof fn lemma_starts_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires starts(c, b), starts(b, a) ensures starts(c, a)
{ assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert(a[i] == b[i]); assert(b[i] == c[i]); } }
proof fn lemma_under_under(s: Keys, p: Path, q: Path) requires starts(q, p) ensures under(under(s, p), q) == under(s, q)
{ assert forall|k: Seq<u8>| starts(k, q) implies starts(k, p) by { lemma_starts_trans(p, q, k); } assert(under(under(s, p), q) =~= under(s, q)); }
proof fn lemma_good_sub(t: Keys, s: Keys, l: nat) requires good(t, l), forall|k: Seq<u8>| #[trigger] s.contains(k) ==> t.contains(k) ensures good(s, l) {}
// keys that share p and are several, or p is short: all go on past p
proof fn lemma_longer(s: Keys, p: Path, l: nat)
    requires good(s, l), below(s, p), p.len() < UNCOMPACTED_LENGTH || s.len() >= 2
    ensures forall|k: Seq<u8>| #[trigger] s.contains(k) ==> k.len() > p.len(), !none(s) ==> p.len() < l,
{
    assert forall|k: Seq<u8>| #[trigger] s.contains(k) implies k.len() > p.len() by {
        assert(starts(k, p));
        if k.len() == p.len() { assert(k =~= p); if s.len() >= 2 { let r = s.remove(k); assert(r.len() >= 1); let j = r.choose(); assert(r.contains(j)); assert(starts(j, k)); assert(s.contains(j)); } }
    }
    if !none(s) { let k = s.choose(); assert(s.contains(k)); }
}
proof fn lemma_one(s: Keys, k: Seq<u8>) requires s.len() == 1, s.contains(k) ensures s == set![k], s.choose() == k
{ let r = s.remove(k); assert(r.len() == 0); assert forall|x: Seq<u8>| s.contains(x) implies x == k by { if x != k { assert(r.contains(x)); } } assert(s =~= set![k]); assert(s.contains(s.choose())); }
// what a node hashes to is the hash of the keys below it
proof fn lemma_hash(n: Node, s: Keys, p: Path, l: nat)
    requires fits(n, s, p, l), good(s, l), below(s, p)
    ensures hash_of(n) == tree_hash(s, p, l), proper(n), hash_of(n).len() == 0 <==> none(s),
{
    ax_digest();
    if none(s) {} else if p.len() >= UNCOMPACTED_LENGTH && s.len() == 1 { let k = s.choose(); assert(s.contains(k)); }
    else {
        if p.len() >= UNCOMPACTED_LENGTH { if s.len() == 0 { assert(none(s)); } }
        lemma_longer(s, p, l); lemma_kids(s, p);
        let k = s.choose(); assert(s.contains(k)); let c = k[p.len() as int]; lemma_push(k, p, c); assert(under(s, p.push(c)).contains(k)); assert(n.kids.contains(c));
        assert(n.hashes.dom().contains(c));
    }
}
#[verifier::external_body] proof fn ax_digest() ensures forall|b: Seq<u8>| (#[trigger] blake3_of(b)).len() == 32 {}
// ---- adding and removing keys that share the character c after p
pub open spec fn all_start(t: Keys, q: Path) -> bool { below(t, q) }
proof fn lemma_under_add(s: Keys, t: Keys, p: Path, c: u8)
    requires below(t, p.push(c))
    ensures under(s.union(t), p.push(c)) == under(s, p.push(c)).union(t),
        forall|x: u8| x != c ==> #[trigger] under(s.union(t), p.push(x)) == under(s, p.push(x)),
        kids_of(s.union(t), p) == (if none(t) { kids_of(s, p) } else { kids_of(s, p).insert(c) }),
{
    assert(under(s.union(t), p.push(c)) =~= under(s, p.push(c)).union(t));
    assert forall|x: u8| x != c implies #[trigger] under(s.union(t), p.push(x)) == under(s, p.push(x)) by {
        assert forall|k: Seq<u8>| t.contains(k) implies !starts(k, p.push(x)) by { lemma_push(k, p, c); lemma_push(k, p, x); }
        assert(under(s.union(t), p.push(x)) =~= under(s, p.push(x)));
    }
    lemma_kids(s, p); lemma_kids(s.union(t), p);
    assert forall|x: u8| kids_of(s.union(t), p).contains(x) <==> kids_of(s, p).contains(x) || (x == c && !none(t)) by {
        if x == c { if !none(t) { let k = t.choose(); assert(t.contains(k)); assert(under(s.union(t), p.push(c)).contains(k)); } else { assert(s.union(t) =~= s); } }
    }
    assert(kids_of(s.union(t), p) =~= (if none(t) { kids_of(s, p) } else { kids_of(s, p).insert(c) }));
}
proof fn lemma_under_sub(s: Keys, t: Keys, p: Path, c: u8)
    requires below(t, p.push(c))
    ensures under(s.difference(t), p.push(c)) == under(s, p.push(c)).difference(t),
        forall|x: u8| x != c ==> #[trigger] under(s.difference(t), p.push(x)) == under(s, p.push(x)),
        kids_of(s.difference(t), p) == (if none(under(s, p.push(c)).difference(t)) { kids_of(s, p).remove(c) } else { kids_of(s, p) }),
{
    assert(under(s.difference(t), p.push(c)) =~= under(s, p.push(c)).difference(t));
    assert forall|x: u8| x != c implies #[trigger] under(s.difference(t), p.push(x)) == under(s, p.push(x)) by {
        assert forall|k: Seq<u8>| t.contains(k) implies !starts(k, p.push(x)) by { lemma_push(k, p, c); lemma_push(k, p, x); }
        assert(under(s.difference(t), p.push(x)) =~= under(s, p.push(x)));
    }
    lemma_kids(s, p); lemma_kids(s.difference(t), p);
    let d = under(s, p.push(c)).difference(t);
    assert forall|x: u8| kids_of(s.difference(t), p).contains(x) <==> kids_of(s, p).contains(x) && (x != c || !none(d)) by {
        if x == c { if !none(d) { let k = d.choose(); assert(d.contains(k)); assert(under(s, p.push(c)).contains(k)); } }
    }
    assert(kids_of(s.difference(t), p) =~= (if none(d) { kids_of(s, p).remove(c) } else { kids_of(s, p) }));
}
// the hash cached for the child that changed is the only one that changes
proof fn lemma_hashes_step(s: Keys, r: Keys, p: Path, c: u8, l: nat)
    requires p.len() < l, forall|x: u8| x != c ==> #[trigger] under(r, p.push(x)) == under(s, p.push(x)),
    ensures kid_hashes(r, p, l) == (if none(under(r, p.push(c))) { kid_hashes(s, p, l).remove(c) } else { kid_hashes(s, p, l).insert(c, tree_hash(under(r, p.push(c)), p.push(c), l)) }),
{
    lemma_kids(s, p); lemma_kids(r, p);
    let (a, b) = (kid_hashes(r, p, l), kid_hashes(s, p, l));
    assert forall|x: u8| #![trigger a.contains_key(x)] x != c implies a.contains_key(x) == b.contains_key(x) && (a.contains_key(x) ==> a[x] == b[x]) by { assert(under(r, p.push(x)) == under(s, p.push(x))); }
    if none(under(r, p.push(c))) { assert(a =~= b.remove(c)); } else { assert(a =~= b.insert(c, tree_hash(under(r, p.push(c)), p.push(c), l))); }
}
proof fn lemma_kids_step(n: TrieNode, m: TrieNode, k: TrieNode, d: Disk, s: Keys, r: Keys, p: Path, c: u8, l: nat)
    requires kids_ok(n, d, s, p, l), p.len() < l, forall|x: u8| x != c ==> #[trigger] under(r, p.push(x)) == under(s, p.push(x)),
        m.children@.remove(c) =~= n.children@.remove(c), m.children@.contains_key(c) ==> m.children@[c] == TrieNodeType::Node(k) && mem(k, d, under(r, p.push(c)), p.push(c), l),
    ensures kids_ok(m, d, r, p, l)
{
    assert forall|x: u8| #[trigger] m.children@.contains_key(x) implies match m.children@[x] {
        TrieNodeType::Serialized(_) => stored(d, p.push(x), under(r, p.push(x)), l),
        TrieNodeType::Node(q) => fits(val(q), under(r, p.push(x)), p.push(x), l) && kids_ok(q, d, under(r, p.push(x)), p.push(x), l),
    } by { if x != c { assert(m.children@.remove(c).contains_key(x)); assert(n.children@.remove(c)[x] == n.children@[x]); assert(m.children@.remove(c)[x] == m.children@[x]); assert(n.children@.contains_key(x)); assert(under(r, p.push(x)) == under(s, p.push(x))); } }
}
// ---- counting
proof fn lemma_count_add(s: Keys, a: Keys, t: Keys, q: Path)
    requires a == under(s, q), below(t, q)
    ensures s.union(t).len() - s.len() == a.union(t).len() - a.len(), s.union(t).len() >= s.len(), s.union(t).len() == s.len() ==> s.union(t) == s, a.union(t).len() >= a.len(),
{
    let n = t.difference(s);
    assert(n =~= t.difference(a));
    assert(s.union(t) =~= s.union(n)); assert(a.union(t) =~= a.union(n));
    vstd::set_lib::lemma_set_disjoint_lens(s, n); vstd::set_lib::lemma_set_disjoint_lens(a, n);
    if n.len() == 0 { assert(n =~= Set::empty()); assert(s.union(t) =~= s); }
}
proof fn lemma_count_sub(s: Keys, a: Keys, t: Keys, q: Path)
    requires a == under(s, q), below(t, q)
    ensures s.len() - s.difference(t).len() == a.len() - a.difference(t).len(), s.difference(t).len() <= s.len(), s.difference(t).len() == s.len() ==> s.difference(t) == s, a.difference(t).len() <= a.len(),
{
    let n = s.intersect(t);
    assert(n =~= a.intersect(t));
    let (x, y) = (s.difference(t), a.difference(t));
    assert(s =~= x.union(n)); assert(a =~= y.union(n));
    vstd::set_lib::lemma_set_disjoint_lens(x, n); vstd::set_lib::lemma_set_disjoint_lens(y, n);
    if n.len() == 0 { assert(n =~= Set::empty()); assert(s.difference(t) =~= s); }
}
pub open spec fn trues(r: Seq<bool>) -> nat decreases r.len() { if r.len() == 0 { 0 } else { trues(r.drop_last()) + if r.last() { 1nat } else { 0 } } }
proof fn lemma_trues_update(r: Seq<bool>, i: int, b: bool) requires 0 <= i < r.len() ensures trues(r.update(i, b)) == trues(r) + (if b { 1int } else { 0 }) - (if r[i] { 1int } else { 0 }) decreases r.len()
{
    let u = r.update(i, b);
    if i == r.len() - 1 { assert(u.drop_last() =~= r.drop_last()); } else { lemma_trues_update(r.drop_last(), i, b); assert(u.drop_last() =~= r.drop_last().update(i, b)); }
}
proof fn lemma_trues_none(r: Seq<bool>) requires forall|i: int| 0 <= i < r.len() ==> !#[trigger] r[i] ensures trues(r) == 0 decreases r.len() { if r.len() > 0 { lemma_trues_none(r.drop_last()); } }
proof fn lemma_trues_split(r: Seq<bool>, n: int) requires 0 <= n < r.len() ensures trues(r.take(n + 1)) == trues(r.take(n)) + (if r[n] { 1int } else { 0 }) { assert(r.take(n + 1).drop_last() =~= r.take(n)); }
// ---- the stored form
pub open spec fn agree(b0: B, b1: B, p: Path) -> bool { forall|k: Seq<u8>| #![trigger b1.contains_key(k)] #![trigger b1[k]] starts(k, spot(p)) ==> b1.contains_key(k) == b0.contains_key(k) && b1[k] == b0[k] }
proof fn lemma_spot(q: Path, p: Path) ensures starts(spot(q), spot(p)) <==> starts(q, p), spot(q) == spot(p) <==> q == p
{
    if starts(q, p) { assert forall|i: int| 0 <= i < spot(p).len() implies spot(p)[i] == spot(q)[i] by { if i > 0 { assert(p[i - 1] == q[i - 1]); } } }
    if starts(spot(q), spot(p)) { assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { assert(spot(p)[i + 1] == spot(q)[i + 1]); } }
    assert(spot(p).skip(1) =~= p); assert(spot(q).skip(1) =~= q);
}
proof fn lemma_stored_agree(e: Disk, b0: B, b1: B, p: Path, s: Keys, l: nat) requires stored(after(e, b0), p, s, l), agree(b0, b1, p) ensures stored(after(e, b1), p, s, l)
{
    assert forall|q: Path| #[trigger] live(s, p, q) implies rec_ok(after(e, b1), q, under(s, q), l) by {
        lemma_spot(q, p); assert(rec_ok(after(e, b0), q, under(s, q), l));
        assert(b1.contains_key(spot(q)) == b0.contains_key(spot(q)) && b1[spot(q)] == b0[spot(q)]);
    }
}
proof fn lemma_outside_other(b0: B, b1: B, p: Path, c: u8, x: u8) requires outside(b0, b1, p.push(c)), x != c ensures agree(b0, b1, p.push(x))
{
    assert forall|k: Seq<u8>| starts(k, spot(p.push(x))) implies !starts(k, spot(p.push(c))) by {
        assert(spot(p.push(x)) =~= spot(p).push(x)); assert(spot(p.push(c)) =~= spot(p).push(c)); lemma_push(k, spot(p), x); lemma_push(k, spot(p), c);
    }
}
proof fn lemma_outside_up(b0: B, b1: B, p: Path, c: u8) requires outside(b0, b1, p.push(c)) ensures outside(b0, b1, p)
{
    assert forall|k: Seq<u8>| !starts(k, spot(p)) implies !starts(k, spot(p.push(c))) by { assert(spot(p.push(c)) =~= spot(p).push(c)); lemma_push(k, spot(p), c); }
}
proof fn lemma_outside_trans(b0: B, b1: B, b2: B, p: Path) requires outside(b0, b1, p), outside(b1, b2, p) ensures outside(b0, b2, p)
{
    assert forall|k: Seq<u8>| #![trigger b2.contains_key(k)] #![trigger b2[k]] !starts(k, spot(p)) implies b2.contains_key(k) == b0.contains_key(k) && b2[k] == b0[k] by { assert(b1.contains_key(k) == b0.contains_key(k)); }
}
// writing the node's own record: its children's are untouched
proof fn lemma_own(b0: B, v: Option<Vec<u8>>, p: Path) ensures outside(b0, b0.insert(spot(p), v), p), forall|c: u8| #[trigger] agree(b0, b0.insert(spot(p), v), p.push(c))
{
    assert forall|c: u8| #[trigger] agree(b0, b0.insert(spot(p), v), p.push(c)) by {
        assert forall|k: Seq<u8>| starts(k, spot(p.push(c))) implies k != spot(p) by { assert(spot(p.push(c)) =~= spot(p).push(c)); lemma_push(k, spot(p), c); }
    }
    assert forall|k: Seq<u8>| !starts(k, spot(p)) implies k != spot(p) by { assert(starts(spot(p), spot(p))); }
}
proof fn lemma_stored_kids(d: Disk, s: Keys, p: Path, l: nat)
    requires stored(d, p, s, l), p.len() < UNCOMPACTED_LENGTH || s.len() >= 2, below(s, p)
    ensures forall|c: u8| stored(d, #[trigger] p.push(c), under(s, p.push(c)), l)
{
    assert forall|c: u8| stored(d, #[trigger] p.push(c), under(s, p.push(c)), l) by {
        let (pc, sc) = (p.push(c), under(s, p.push(c)));
        assert forall|q: Path| #[trigger] live(sc, pc, q) implies rec_ok(d, q, under(sc, q), l) by {
            lemma_push(q, p, c); lemma_under_under(s, pc, q);
            if q == pc { assert(q.drop_last() =~= p); assert(under(s, p) =~= s); }
            else if q.len() > UNCOMPACTED_LENGTH { let r = q.drop_last(); assert(starts(r, pc)) by { assert(q.len() > pc.len()); assert forall|i: int| 0 <= i < pc.len() implies pc[i] == r[i] by { assert(pc[i] == q[i]); } } lemma_under_under(s, pc, r); }
            assert(live(s, p, q));
        }
    }
}
proof fn lemma_stored_join(d: Disk, s: Keys, p: Path, l: nat)
    requires forall|c: u8| stored(d, #[trigger] p.push(c), under(s, p.push(c)), l), !none(s) ==> rec_ok(d, p, s, l), below(s, p)
    ensures stored(d, p, s, l)
{
    assert forall|q: Path| #[trigger] live(s, p, q) implies rec_ok(d, q, under(s, q), l) by {
        if q == p { assert(under(s, p) =~= s); if none(s) {} } else {
            assert(q.len() > p.len()) by { if q.len() == p.len() { assert(q =~= p); } }
            let c = q[p.len() as int]; let pc = p.push(c); let sc = under(s, pc);
            lemma_push(q, p, c); lemma_under_under(s, pc, q);
            if q != pc && q.len() > UNCOMPACTED_LENGTH { let r = q.drop_last(); assert(q.len() > pc.len()) by { if q.len() == pc.len() { assert(q =~= pc); } } assert(starts(r, pc)) by { assert forall|i: int| 0 <= i < pc.len() implies pc[i] == r[i] by { assert(pc[i] == q[i]); } } lemma_under_under(s, pc, r); }
            assert(stored(d, pc, sc, l)); assert(live(sc, pc, q));
        }
    }
}
// one key far down needs only its own record
proof fn lemma_stored_leaf(d: Disk, s: Keys, p: Path, l: nat)
    requires s.len() == 1, p.len() >= UNCOMPACTED_LENGTH, rec_ok(d, p, s, l), below(s, p)
    ensures stored(d, p, s, l)
{
    assert forall|q: Path| #[trigger] live(s, p, q) implies rec_ok(d, q, under(s, q), l) by {
        if q != p { assert(q.len() > p.len()) by { if q.len() == p.len() { assert(q =~= p); } } vstd::set_lib::lemma_len_subset(under(s, q.drop_last()), s); }
        assert(under(s, p) =~= s);
    }
}
// what is read from a good record
proof fn lemma_loaded(n: TrieNode, d: Disk, s: Keys, q: Path, l: nat)
    requires stored(d, q, s, l), !none(s), below(s, q), good(s, l), read(wire(d[spot(q)])->Some_0, val(n)), forall|c: u8| #[trigger] n.children@.contains_key(c) ==> n.children@[c] is Serialized,
    ensures mem(n, d, s, q, l)
{
    assert(under(s, q) =~= s); assert(live(s, q, q));
    let w = wire(d[spot(q)])->Some_0;
    let m = choose|m: Node| #[trigger] same(m, w) && fits(m, s, q, l);
    lemma_hash(m, s, q, l);
    theorem_round_trip(m, w, val(n));
    if val(n).kids =~= Set::<u8>::empty() { } else { lemma_longer_branch(val(n), s, q, l); lemma_stored_kids(d, s, q, l);
        assert forall|c: u8| #[trigger] n.children@.contains_key(c) implies q.len() < l && stored(d, q.push(c), under(s, q.push(c)), l) by {} }
    assert forall|c: u8| #[trigger] n.children@.contains_key(c) implies q.len() < l && n.children@[c] is Serialized && stored(d, q.push(c), under(s, q.push(c)), l) by { assert(val(n).kids.contains(c)); }
    assert(kids_ok(n, d, s, q, l));
}
proof fn lemma_longer_branch(n: Node, s: Keys, p: Path, l: nat) requires fits(n, s, p, l), !(n.kids =~= Set::<u8>::empty()) ensures branch(n, s, p, l), p.len() < UNCOMPACTED_LENGTH || s.len() >= 2
{ if s.len() == 0 { assert(none(s)); } }
// ---- iterator adaptors by their documented behaviour (trusted)
#[verifier::external_body] pub fn vx_it<T>(v: &Vec<T>) -> (r: VxIt<&T>) ensures r.0@.len() == v@.len(), forall|i: int| #![trigger r.0@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> *r.0@[i] == v@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_enumerate<T>(v: Vec<T>) -> (r: VxIt<(usize, T)>) ensures r.0@.len() == v@.len(), forall|i: int| #![trigger r.0@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> r.0@[i].0 == i && r.0@[i].1 == v@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_any<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],))
    ensures r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), true), !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false) { unimplemented!() }
pub open spec fn picks(src: Seq<int>) -> bool { true }
pub open spec fn kept<T, U, F: Fn(T) -> Option<U>>(s: Seq<T>, f: F, r: Seq<U>, src: Seq<int>) -> bool {
    &&& src.len() == r.len()
    &&& forall|j: int| 0 <= j < r.len() ==> 0 <= #[trigger] src[j] < s.len() && f.ensures((s[src[j]],), Some(r[j]))
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] src[i] < #[trigger] src[j]
    &&& forall|i: int| 0 <= i < s.len() && !src.contains(i) ==> f.ensures((#[trigger] s[i],), None)
}
impl<T> VxIt<T> {
    #[verifier::external_body] pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VxIt<U>)
        requires forall|i: int| 0 <= i < self.0@.len() ==> f.requires((#[trigger] self.0@[i],))
        ensures exists|src: Seq<int>| #[trigger] picks(src) && kept(self.0@, f, r.0@, src) { unimplemented!() }
    #[verifier::external_body] pub fn next(self) -> (r: Option<T>) ensures self.0@.len() == 0 ==> r is None, self.0@.len() > 0 ==> r == Some(self.0@[0]) { unimplemented!() }
}
#[verifier::external_body] pub proof fn vx_fits<T>(v: &Vec<T>) ensures v@.len() <= usize::MAX {}
pub type Groups = HashMap<u8, (Vec<usize>, Vec<Vec<u8>>)>;
// HashMap::entry(c).or_insert_with(|| (vec![], vec![]))
#[verifier::external_body] pub fn vx_entry(m: &mut Groups, c: u8) -> (r: &mut (Vec<usize>, Vec<Vec<u8>>))
    ensures old(m)@.contains_key(c) ==> *r == old(m)@[c], !old(m)@.contains_key(c) ==> r.0@.len() == 0 && r.1@.len() == 0, final(m)@ == old(m)@.insert(c, *final(r)) { unimplemented!() }
#[verifier::external_body] pub fn vx_take_map(m: &mut HashMap<u8, Vec<u8>>) -> (r: HashMap<u8, Vec<u8>>) ensures r@ == old(m)@, final(m)@ == Map::<u8, Vec<u8>>::empty() { unimplemented!() }
pub open spec fn kset(v: Seq<Vec<u8>>) -> Keys { v.map_values(|x: Vec<u8>| x@).to_set() }
proof fn lemma_kset(v: Seq<Vec<u8>>) ensures forall|k: Seq<u8>| #[trigger] kset(v).contains(k) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k
{
    let m = v.map_values(|x: Vec<u8>| x@);
    assert forall|k: Seq<u8>| #[trigger] kset(v).contains(k) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k by {
        if exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k; assert(m[i] == k); }
        if kset(v).contains(k) { let i = choose|i: int| 0 <= i < m.len() && m[i] == k; assert(v[i]@ == k); }
    }
}
pub open spec fn rset(v: Seq<(usize, Vec<u8>)>) -> Keys { v.map_values(|x: (usize, Vec<u8>)| x.1@).to_set() }
proof fn lemma_rset(v: Seq<(usize, Vec<u8>)>) ensures forall|k: Seq<u8>| #[trigger] rset(v).contains(k) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1@ == k
{
    let m = v.map_values(|x: (usize, Vec<u8>)| x.1@);
    assert forall|k: Seq<u8>| #[trigger] rset(v).contains(k) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1@ == k by {
        if exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1@ == k { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1@ == k; assert(m[i] == k); }
        if rset(v).contains(k) { let i = choose|i: int| 0 <= i < m.len() && m[i] == k; assert(v[i].1@ == k); }
    }
}
// the first n remaining keys in groups by their character at d
pub type G = Map<u8, (Seq<usize>, Seq<Vec<u8>>)>;
pub open spec fn gview(m: Map<u8, (Vec<usize>, Vec<Vec<u8>>)>) -> G { m.map_values(|e: (Vec<usize>, Vec<Vec<u8>>)| (e.0@, e.1@)) }
pub open spec fn pview(v: Seq<(u8, (Vec<usize>, Vec<Vec<u8>>))>) -> Seq<(u8, (Seq<usize>, Seq<Vec<u8>>))> { v.map_values(|e: (u8, (Vec<usize>, Vec<Vec<u8>>))| (e.0, (e.1.0@, e.1.1@))) }

pub open spec fn g_in(g: G, rem: Seq<(usize, Vec<u8>)>, n: int, d: int) -> bool { forall|t: int| 0 <= t < n ==> g_has(g, #[trigger] rem[t], d) }
pub open spec fn g_has(g: G, x: (usize, Vec<u8>), d: int) -> bool { let c = x.1@[d]; g.contains_key(c) && exists|j: int| 0 <= j < g[c].1.len() && #[trigger] g[c].1[j] == x.1 }
pub open spec fn g_len(g: G) -> bool { forall|c: u8| #[trigger] g.contains_key(c) ==> g[c].0.len() == g[c].1.len() && g[c].0.len() > 0 }
pub open spec fn g_from(g: G, rem: Seq<(usize, Vec<u8>)>, n: int, d: int) -> bool {
    forall|c: u8, j: int| #![trigger g[c].0[j]] #![trigger g[c].1[j]] g.contains_key(c) && 0 <= j < g[c].0.len() ==> g_src(rem, n, d, g[c].0[j], g[c].1[j], c)
}
pub open spec fn g_src(rem: Seq<(usize, Vec<u8>)>, n: int, d: int, i: usize, k: Vec<u8>, c: u8) -> bool { exists|t: int| 0 <= t < n && i == (#[trigger] rem[t]).0 && k == rem[t].1 && k@[d] == c }
pub open spec fn g_inc(g: G) -> bool { forall|c: u8, i: int, j: int| g.contains_key(c) && 0 <= i < j < g[c].0.len() ==> #[trigger] g[c].0[i] < #[trigger] g[c].0[j] }
pub open spec fn grouped(g: G, rem: Seq<(usize, Vec<u8>)>, n: int, d: int) -> bool { g_in(g, rem, n, d) && g_len(g) && g_from(g, rem, n, d) && g_inc(g) }
pub open spec fn rising(rem: Seq<(usize, Vec<u8>)>) -> bool { forall|a: int, b: int| 0 <= a < b < rem.len() ==> (#[trigger] rem[a]).0 < (#[trigger] rem[b]).0 }
proof fn lemma_group(g: G, h: G, e: (Seq<usize>, Seq<Vec<u8>>), rem: Seq<(usize, Vec<u8>)>, n: int, d: int, c: u8)
    requires grouped(g, rem, n, d), 0 <= n < rem.len(), rising(rem), c == rem[n].1@[d], h == g.insert(c, e),
        e.0 == (if g.contains_key(c) { g[c].0 } else { seq![] }).push(rem[n].0), e.1 == (if g.contains_key(c) { g[c].1 } else { seq![] }).push(rem[n].1),
    ensures grouped(h, rem, n + 1, d)
{
    let z = e.0.len() - 1;
    if g.contains_key(c) { assert(g[c].0.len() == g[c].1.len()); }
    assert(g_len(h));
    assert(e.0[z] == rem[n].0 && e.1[z] == rem[n].1);
    assert forall|t: int| 0 <= t < n + 1 implies g_has(h, #[trigger] rem[t], d) by {
        let x = rem[t].1@[d];
        if t == n { assert(h[x].1[z] == rem[t].1); }
        else { assert(g_has(g, rem[t], d)); let j = choose|j: int| 0 <= j < g[x].1.len() && #[trigger] g[x].1[j] == rem[t].1; assert(h[x].1[j] == rem[t].1); }
    }
    assert forall|x: u8, j: int| #![trigger h[x].0[j]] #![trigger h[x].1[j]] h.contains_key(x) && 0 <= j < h[x].0.len() implies g_src(rem, n + 1, d, h[x].0[j], h[x].1[j], x) by {
        if x == c && j == z { assert(h[x].0[j] == rem[n].0); }
        else {
            assert(g.contains_key(x)); assert(h[x].0[j] == g[x].0[j]); assert(h[x].1[j] == g[x].1[j]);
            assert(g_src(rem, n, d, g[x].0[j], g[x].1[j], x));
            let t = choose|t: int| 0 <= t < n && g[x].0[j] == (#[trigger] rem[t]).0 && g[x].1[j] == rem[t].1 && g[x].1[j]@[d] == x; assert(0 <= t < n + 1 && rem[t].0 == h[x].0[j]);
        }
    }
    assert forall|x: u8, i: int, j: int| h.contains_key(x) && 0 <= i < j < h[x].0.len() implies #[trigger] h[x].0[i] < #[trigger] h[x].0[j] by {
        assert(g.contains_key(x)); assert(h[x].0[i] == g[x].0[i]);
        if x == c && j == z {
            assert(g_src(rem, n, d, g[x].0[i], g[x].1[i], x));
            let t = choose|t: int| 0 <= t < n && g[x].0[i] == (#[trigger] rem[t]).0 && g[x].1[i] == rem[t].1 && g[x].1[i]@[d] == x; assert(rem[t].0 < rem[n].0);
        } else { assert(h[x].0[j] == g[x].0[j]); }
    }
}
proof fn lemma_fresh(n: TrieNode, d: Disk, p: Path, l: nat)
    requires n.items == 0, n.key is None, n.children@ =~= Map::<u8, TrieNodeType>::empty(), n.child_hashes@ =~= Map::<u8, Vec<u8>>::empty()
    ensures mem(n, d, Set::empty(), p, l), forall|e: Disk| stored(e, p, Set::empty(), l), val(n).hashes =~= Map::empty(),
{
    assert(val(n).hashes =~= Map::empty()); assert(val(n).kids =~= Set::empty());
    assert forall|e: Disk| stored(e, p, Set::empty(), l) by { assert forall|q: Path| #[trigger] live(Set::empty(), p, q) implies false by { assert(none(under(Set::empty(), q))); } }
}
proof fn lemma_single(k: Seq<u8>, p: Path, c: u8, l: nat)
    requires starts(k, p), p.len() < k.len(), c == k[p.len() as int], p.len() < l
    ensures under(set![k], p.push(c)) == set![k], forall|x: u8| x != c ==> none(#[trigger] under(set![k], p.push(x))), kids_of(set![k], p) == set![c],
        kid_hashes(set![k], p, l) == map![c => tree_hash(set![k], p.push(c), l)], starts(k, p.push(c)),
{
    let s = set![k];
    lemma_push(k, p, c);
    assert(under(s, p.push(c)) =~= s);
    assert forall|x: u8| x != c implies none(#[trigger] under(s, p.push(x))) by { lemma_push(k, p, x); }
    lemma_kids(s, p);
    assert(s.contains(k));
    assert(kids_of(s, p) =~= set![c]) by { assert forall|x: u8| kids_of(s, p).contains(x) <==> x == c by { if x == c { assert(under(s, p.push(c)).contains(k)); } } }
    assert(kid_hashes(s, p, l) =~= map![c => tree_hash(s, p.push(c), l)]);
}
// the state in the middle of an insertion into a node with children: the groups before n are in
pub open spec fn inserted_to(cur: Keys, s: Keys, ps: Seq<(u8, (Seq<usize>, Seq<Vec<u8>>))>, n: int) -> bool {
    forall|k: Seq<u8>| #[trigger] cur.contains(k) <==> s.contains(k) || exists|i: int| 0 <= i < n && kset((#[trigger] ps[i]).1.1).contains(k)
}
pub open spec fn unset(r: Seq<bool>, ps: Seq<(u8, (Seq<usize>, Seq<Vec<u8>>))>, n: int) -> bool {
    forall|i: int, j: int| n <= i < ps.len() && 0 <= j < ps[i].1.0.len() ==> 0 <= #[trigger] ps[i].1.0[j] < r.len() && !r[ps[i].1.0[j] as int]
}
pub open spec fn kids_stored(d: Disk, s: Keys, p: Path, l: nat) -> bool { forall|c: u8| stored(d, #[trigger] p.push(c), under(s, p.push(c)), l) }
pub open spec fn update(m: Hashes, s: Keys, p: Path, l: nat) -> Hashes { if p.len() == 0 { m } else if none(s) { m.remove(p.last()) } else { m.insert(p.last(), tree_hash(s, p, l)) } }
broadcast proof fn lemma_lex_eq(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] lexcmp(a, b) == 0 <==> a == b { lemma_zero_iff_equal(a, b); }
// ---- one child at a time
pub open spec fn mid(n: TrieNode, d: Disk, e: Disk, b0: B, b: B, cur: Keys, p: Path, l: nat) -> bool {
    &&& branch(val(n), cur, p, l)
    &&& kids_ok(n, d, cur, p, l)
    &&& kids_stored(after(e, b), cur, p, l)
    &&& outside(b0, b, p)
}
pub open spec fn own_same(b0: B, b: B, p: Path) -> bool { b.contains_key(spot(p)) == b0.contains_key(spot(p)) && b[spot(p)] == b0[spot(p)] }
proof fn lemma_own_same(b0: B, b1: B, p: Path, c: u8) requires outside(b0, b1, p.push(c)) ensures own_same(b0, b1, p)
{ assert(!starts(spot(p), spot(p.push(c)))); }
proof fn lemma_mid(n: TrieNode, m: TrieNode, k: TrieNode, d: Disk, e: Disk, b0: B, b: B, b1: B, cur: Keys, nxt: Keys, p: Path, c: u8, l: nat)
    requires mid(n, d, e, b0, b, cur, p, l),
        forall|x: u8| x != c ==> #[trigger] under(nxt, p.push(x)) == under(cur, p.push(x)),
        outside(b, b1, p.push(c)),
        m.children@.remove(c) =~= n.children@.remove(c),
        m.children@.contains_key(c) ==> m.children@[c] == TrieNodeType::Node(k) && mem(k, d, under(nxt, p.push(c)), p.push(c), l),
        stored(after(e, b1), p.push(c), under(nxt, p.push(c)), l),
        m.key is None, val(m).kids == kids_of(nxt, p),
        val(m).hashes =~= (if none(under(nxt, p.push(c))) { val(n).hashes.remove(c) } else { val(n).hashes.insert(c, tree_hash(under(nxt, p.push(c)), p.push(c), l)) }),
    ensures mid(m, d, e, b0, b1, nxt, p, l), own_same(b, b1, p),
{
    lemma_hashes_step(cur, nxt, p, c, l);
    lemma_kids_step(n, m, k, d, cur, nxt, p, c, l);
    lemma_outside_up(b, b1, p, c); lemma_outside_trans(b0, b, b1, p); lemma_own_same(b, b1, p, c);
    assert forall|x: u8| stored(after(e, b1), #[trigger] p.push(x), under(nxt, p.push(x)), l) by {
        if x != c { lemma_outside_other(b, b1, p, c, x); lemma_stored_agree(e, b, b1, p.push(x), under(cur, p.push(x)), l); assert(under(nxt, p.push(x)) == under(cur, p.push(x))); }
    }
}
pub open spec fn loaded(k: TrieNode, old: TrieNodeType, d: Disk, q: Path) -> bool {
    match old {
        TrieNodeType::Node(m) => k.items == m.items && k.key == m.key && k.child_hashes == m.child_hashes && k.children == m.children,
        TrieNodeType::Serialized(_) => d.contains_key(spot(q)) ==> read(wire(d[spot(q)])->Some_0, val(k)) && forall|c: u8| #[trigger] k.children@.contains_key(c) ==> k.children@[c] is Serialized,
    }
}
proof fn lemma_kids_same(a: TrieNode, b: TrieNode, d: Disk, s: Keys, p: Path, l: nat) requires kids_ok(a, d, s, p, l), a.children == b.children ensures kids_ok(b, d, s, p, l) {}
proof fn lemma_child(n: TrieNode, k: TrieNode, d: Disk, cur: Keys, p: Path, c: u8, l: nat)
    requires kids_ok(n, d, cur, p, l), n.children@.contains_key(c), branch(val(n), cur, p, l), good(cur, l), loaded(k, n.children@[c], d, p.push(c)),
    ensures mem(k, d, under(cur, p.push(c)), p.push(c), l), !none(under(cur, p.push(c))),
{
    let (q, t) = (p.push(c), under(cur, p.push(c)));
    assert(val(n).kids.contains(c)); lemma_kids(cur, p);
    assert(below(t, q)); assert(good(t, l));
    match n.children@[c] {
        TrieNodeType::Node(m) => { lemma_kids_same(m, k, d, t, q, l); assert(val(k) == val(m)); }
        TrieNodeType::Serialized(_) => { assert(stored(d, q, t, l)); assert(under(t, q) =~= t); assert(live(t, q, q)); assert(rec_ok(d, q, t, l)); lemma_loaded(k, d, t, q, l); }
    }
}
proof fn lemma_wired(n: TrieNode, d: Disk, cur: Keys, p: Path, c: u8, l: nat)
    requires kids_ok(n, d, cur, p, l), branch(val(n), cur, p, l), n.children@.contains_key(c), n.children@[c] is Serialized
    ensures d.contains_key(spot(p.push(c))), wire(d[spot(p.push(c))]) is Some,
{
    let (q, t) = (p.push(c), under(cur, p.push(c)));
    assert(val(n).kids.contains(c)); lemma_kids(cur, p); assert(stored(d, q, t, l)); assert(under(t, q) =~= t); assert(live(t, q, q)); assert(rec_ok(d, q, t, l));
}
// writing a node with children
proof fn lemma_put(n: TrieNode, v: Vec<u8>, d: Disk, e: Disk, b0: B, b: B, s: Keys, p: Path, l: nat)
    requires mid(n, d, e, b0, b, s, p, l), n.items == s.len(), good(s, l), below(s, p), !none(s), p.len() < UNCOMPACTED_LENGTH || s.len() >= 2, wire(v@) is Some, same(val(n), wire(v@)->Some_0),
    ensures ({ let b1 = b.insert(spot(p), Some(v)); mem(n, d, s, p, l) && stored(after(e, b1), p, s, l) && outside(b0, b1, p) && mid(n, d, e, b0, b1, s, p, l) && rec_ok(after(e, b1), p, s, l) }),
{
    let b1 = b.insert(spot(p), Some(v));
    lemma_own(b, Some(v), p); lemma_outside_trans(b0, b, b1, p);
    assert(fits(val(n), s, p, l));
    assert(after(e, b1).contains_key(spot(p)) && after(e, b1)[spot(p)] == v@);
    assert forall|x: u8| stored(after(e, b1), #[trigger] p.push(x), under(s, p.push(x)), l) by { assert(agree(b, b1, p.push(x))); lemma_stored_agree(e, b, b1, p.push(x), under(s, p.push(x)), l); }
    lemma_stored_join(after(e, b1), s, p, l);
}
// what a leaf can hold
proof fn lemma_leaf(n: Node, s: Keys, p: Path, l: nat)
    requires fits(n, s, p, l), n.kids =~= Set::<u8>::empty(), good(s, l), below(s, p), p.len() >= UNCOMPACTED_LENGTH
    ensures none(s) ==> n.key is None, !none(s) ==> s.len() == 1 && n.key is Some && s == set![n.key->Some_0],
{
    if !none(s) {
        if s.len() == 0 {}
        if s.len() != 1 { lemma_longer(s, p, l); lemma_kids(s, p); let k = s.choose(); assert(s.contains(k)); lemma_push(k, p, k[p.len() as int]); assert(under(s, p.push(k[p.len() as int])).contains(k)); assert(n.kids.contains(k[p.len() as int])); }
        assert(s.contains(s.choose())); lemma_one(s, s.choose());
    }
}
proof fn lemma_no_leaf(n: Node, s: Keys, p: Path, l: nat)
    requires fits(n, s, p, l), good(s, l), below(s, p), p.len() < UNCOMPACTED_LENGTH || !(n.kids =~= Set::<u8>::empty()), p.len() < l
    ensures branch(n, s, p, l), p.len() < UNCOMPACTED_LENGTH || s.len() >= 2,
{
    if none(s) { lemma_kids(s, p); assert(kids_of(s, p) =~= Set::empty()) by { assert forall|c: u8| !kids_of(s, p).contains(c) by { assert(none(under(s, p.push(c)))); } } assert(kid_hashes(s, p, l) =~= Map::empty()); }
    else if s.len() == 0 {}
}
proof fn lemma_mid_of(n: TrieNode, d: Disk, e: Disk, b: B, s: Keys, p: Path, l: nat)
    requires mem(n, d, s, p, l), stored(after(e, b), p, s, l), branch(val(n), s, p, l), below(s, p), p.len() < UNCOMPACTED_LENGTH || s.len() >= 2,
    ensures mid(n, d, e, b, b, s, p, l), n.items == s.len(),
{ lemma_stored_kids(after(e, b), s, p, l); }
// a single key put into an empty leaf
proof fn lemma_put_leaf(n: TrieNode, v: Vec<u8>, d: Disk, e: Disk, b: B, k: Seq<u8>, p: Path, l: nat)
    requires val(n) == (Node { items: 1, kids: Set::empty(), hashes: Map::empty(), key: Some(k) }), p.len() >= UNCOMPACTED_LENGTH, starts(k, p), wire(v@) is Some, same(val(n), wire(v@)->Some_0),
    ensures ({ let b1 = b.insert(spot(p), Some(v)); mem(n, d, set![k], p, l) && stored(after(e, b1), p, set![k], l) && outside(b, b1, p) }),
{
    let s = set![k]; let b1 = b.insert(spot(p), Some(v));
    assert(s.contains(k)); lemma_one(s, k);
    assert(fits(val(n), s, p, l)); lemma_own(b, Some(v), p);
    assert(after(e, b1).contains_key(spot(p)) && after(e, b1)[spot(p)] == v@);
    assert(rec_ok(after(e, b1), p, s, l)); lemma_stored_leaf(after(e, b1), s, p, l);
    assert forall|c: u8| !n.children@.contains_key(c) by { assert(!val(n).kids.contains(c)); }
}
pub type Ps = Seq<(u8, (Seq<usize>, Seq<Vec<u8>>))>;
pub open spec fn listing(ps: Ps, g: G) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> g.contains_key((#[trigger] ps[i]).0) && g[ps[i].0] == ps[i].1
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() ==> (#[trigger] ps[i]).0 != (#[trigger] ps[j]).0
    &&& forall|x: u8| #[trigger] g.contains_key(x) ==> exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == x
}
pub open spec fn apart(ps: Ps) -> bool {
    forall|a: int, j: int, b: int, k: int| 0 <= a < ps.len() && 0 <= b < ps.len() && 0 <= j < ps[a].1.0.len() && 0 <= k < ps[b].1.0.len() && (a != b || j != k) ==> #[trigger] ps[a].1.0[j] != #[trigger] ps[b].1.0[k]
}
proof fn lemma_apart(ps: Ps, g: G, rem: Seq<(usize, Vec<u8>)>, d: int)
    requires listing(ps, g), grouped(g, rem, rem.len() as int, d), rising(rem)
    ensures apart(ps)
{
    assert forall|a: int, j: int, b: int, k: int| 0 <= a < ps.len() && 0 <= b < ps.len() && 0 <= j < ps[a].1.0.len() && 0 <= k < ps[b].1.0.len() && (a != b || j != k) implies #[trigger] ps[a].1.0[j] != #[trigger] ps[b].1.0[k] by {
        let (x, y) = (ps[a].0, ps[b].0); let n = rem.len() as int;
        assert(g.contains_key(x) && g.contains_key(y) && g[x] == ps[a].1 && g[y] == ps[b].1);
        if a != b {
            assert(x != y);
            assert(g_src(rem, n, d, g[x].0[j], g[x].1[j], x)); assert(g_src(rem, n, d, g[y].0[k], g[y].1[k], y));
            let t = choose|t: int| 0 <= t < n && g[x].0[j] == (#[trigger] rem[t]).0 && g[x].1[j] == rem[t].1 && g[x].1[j]@[d] == x;
            let u = choose|t: int| 0 <= t < n && g[y].0[k] == (#[trigger] rem[t]).0 && g[y].1[k] == rem[t].1 && g[y].1[k]@[d] == y;
            if t < u { assert(rem[t].0 < rem[u].0); } else if u < t { assert(rem[u].0 < rem[t].0); }
        } else if j < k { assert(g[x].0[j] < g[x].0[k]); } else { assert(g[x].0[k] < g[x].0[j]); }
    }
}
// each group: keys with the same next character, all among the remaining ones
proof fn lemma_one_group(ps: Ps, g: G, rem: Seq<(usize, Vec<u8>)>, d: int, p: Path, i: int)
    requires listing(ps, g), grouped(g, rem, rem.len() as int, d), 0 <= i < ps.len(), d == p.len(), below(rset(rem), p), forall|t: int| 0 <= t < rem.len() ==> d < (#[trigger] rem[t]).1@.len(),
    ensures ps[i].1.0.len() == ps[i].1.1.len() > 0, below(kset(ps[i].1.1), p.push(ps[i].0)), kset(ps[i].1.1).subset_of(rset(rem)), !none(kset(ps[i].1.1)),
        ps[i].1.1[0]@.len() > d, ps[i].1.1[0]@.take(d + 1) == p.push(ps[i].0),
{
    let x = ps[i].0; let v = ps[i].1.1; let n = rem.len() as int;
    assert(g.contains_key(x) && g[x] == ps[i].1);
    lemma_kset(v); lemma_rset(rem);
    assert forall|j: int| 0 <= j < v.len() implies starts((#[trigger] v[j])@, p.push(x)) && rset(rem).contains(v[j]@) && v[j]@.len() > d by {
        assert(g_src(rem, n, d, g[x].0[j], g[x].1[j], x));
        let t = choose|t: int| 0 <= t < n && g[x].0[j] == (#[trigger] rem[t]).0 && g[x].1[j] == rem[t].1 && g[x].1[j]@[d] == x;
        assert(rem[t].1@ == v[j]@); assert(rset(rem).contains(v[j]@)); assert(starts(v[j]@, p)); lemma_push(v[j]@, p, x);
    }
    assert(kset(v).contains(v[0]@));
    assert(v[0]@.take(d + 1) =~= p.push(x));
}
proof fn lemma_all_in(ps: Ps, g: G, rem: Seq<(usize, Vec<u8>)>, d: int, s1: Keys, cur: Keys)
    requires listing(ps, g), grouped(g, rem, rem.len() as int, d), inserted_to(cur, s1, ps, ps.len() as int), cur.subset_of(s1.union(rset(rem)))
    ensures cur == s1.union(rset(rem))
{
    lemma_rset(rem);
    assert forall|k: Seq<u8>| rset(rem).contains(k) implies cur.contains(k) by {
        let t = choose|t: int| 0 <= t < rem.len() && (#[trigger] rem[t]).1@ == k;
        assert(g_has(g, rem[t], d)); let x = k[d];
        let j = choose|j: int| 0 <= j < g[x].1.len() && #[trigger] g[x].1[j] == rem[t].1;
        let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == x;
        lemma_kset(ps[i].1.1); assert(ps[i].1.1[j]@ == k); assert(kset(ps[i].1.1).contains(k));
    }
    assert(cur =~= s1.union(rset(rem)));
}
proof fn lemma_trues_take(r: Seq<bool>, n: int) requires 0 <= n <= r.len() ensures trues(r.take(n)) <= trues(r) decreases r.len()
{ if n < r.len() { lemma_trues_take(r.drop_last(), n); assert(r.drop_last().take(n) =~= r.take(n)); } else { assert(r.take(n) =~= r); } }
// the keys that still have to be added
pub open spec fn todo(rem: Seq<(usize, Vec<u8>)>, r: Seq<bool>) -> bool { rising(rem) && forall|t: int| 0 <= t < rem.len() ==> 0 <= (#[trigger] rem[t]).0 < r.len() && !r[rem[t].0 as int] }
proof fn lemma_unset(ps: Ps, g: G, rem: Seq<(usize, Vec<u8>)>, d: int, r: Seq<bool>)
    requires listing(ps, g), grouped(g, rem, rem.len() as int, d), todo(rem, r)
    ensures unset(r, ps, 0)
{
    assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps[i].1.0.len() implies 0 <= #[trigger] ps[i].1.0[j] < r.len() && !r[ps[i].1.0[j] as int] by {
        let x = ps[i].0; assert(g.contains_key(x) && g[x] == ps[i].1);
        assert(g_src(rem, rem.len() as int, d, g[x].0[j], g[x].1[j], x));
        let t = choose|t: int| 0 <= t < rem.len() && g[x].0[j] == (#[trigger] rem[t]).0 && g[x].1[j] == rem[t].1 && g[x].1[j]@[d] == x;
    }
}
proof fn lemma_inserted(cur: Keys, s1: Keys, ps: Ps, n: int) requires inserted_to(cur, s1, ps, n), 0 <= n < ps.len() ensures inserted_to(cur.union(kset(ps[n].1.1)), s1, ps, n + 1)
{
    let t = kset(ps[n].1.1);
    assert forall|k: Seq<u8>| #[trigger] cur.union(t).contains(k) <==> s1.contains(k) || exists|i: int| 0 <= i < n + 1 && kset((#[trigger] ps[i]).1.1).contains(k) by {
        if t.contains(k) { assert(kset(ps[n].1.1).contains(k)); }
        if exists|i: int| 0 <= i < n + 1 && kset((#[trigger] ps[i]).1.1).contains(k) { let i = choose|i: int| 0 <= i < n + 1 && kset((#[trigger] ps[i]).1.1).contains(k); if i < n { assert(kset(ps[i].1.1).contains(k)); } }
    }
}
// what remains after looking for the key of a leaf
pub open spec fn sieved(en: Seq<(usize, Vec<u8>)>, rem: Seq<(usize, Vec<u8>)>, k: Seq<u8>, off: int, src: Seq<int>) -> bool {
    &&& src.len() == rem.len()
    &&& forall|j: int| 0 <= j < rem.len() ==> 0 <= #[trigger] src[j] < en.len() && rem[j].0 == en[src[j]].0 + off && rem[j].1 == en[src[j]].1 && en[src[j]].1@ != k
    &&& forall|i: int, j: int| 0 <= i < j < rem.len() ==> #[trigger] src[i] < #[trigger] src[j]
    &&& forall|i: int| 0 <= i < en.len() && !src.contains(i) ==> (#[trigger] en[i]).1@ == k
}
proof fn lemma_sieved(keys: Seq<Vec<u8>>, en: Seq<(usize, Vec<u8>)>, rem: Seq<(usize, Vec<u8>)>, k: Seq<u8>, off: int, src: Seq<int>, r: Seq<bool>)
    requires sieved(en, rem, k, off, src), en.len() == keys.len(), forall|i: int| 0 <= i < keys.len() ==> (#[trigger] en[i]).0 == i && en[i].1 == keys[i], r.len() == keys.len() + off, 0 <= off,
        forall|i: int| off <= i < r.len() ==> !#[trigger] r[i],
    ensures todo(rem, r), set![k].union(rset(rem)) == set![k].union(kset(keys)), forall|j: int| 0 <= j < rem.len() ==> (#[trigger] rem[j]).1@ != k,
{
    lemma_rset(rem); lemma_kset(keys);
    assert forall|a: int, b: int| 0 <= a < b < rem.len() implies (#[trigger] rem[a]).0 < (#[trigger] rem[b]).0 by { assert(src[a] < src[b]); }
    assert forall|t: int| 0 <= t < rem.len() implies 0 <= (#[trigger] rem[t]).0 < r.len() && !r[rem[t].0 as int] by { assert(0 <= src[t] < en.len()); }
    assert forall|j: int| 0 <= j < rem.len() implies (#[trigger] rem[j]).1@ != k by { assert(0 <= src[j] < en.len()); }
    assert forall|x: Seq<u8>| set![k].union(rset(rem)).contains(x) <==> set![k].union(kset(keys)).contains(x) by {
        if rset(rem).contains(x) { let j = choose|j: int| 0 <= j < rem.len() && (#[trigger] rem[j]).1@ == x; assert(0 <= src[j] < en.len()); assert(keys[src[j]]@ == x); }
        if kset(keys).contains(x) && x != k { let i = choose|i: int| 0 <= i < keys.len() && (#[trigger] keys[i])@ == x; assert(en[i].1@ == x); assert(src.contains(i)); let j = choose|j: int| 0 <= j < src.len() && src[j] == i; assert(rem[j].1@ == x); }
    }
    assert(set![k].union(rset(rem)) =~= set![k].union(kset(keys)));
}
proof fn lemma_enum(keys: Seq<Vec<u8>>, en: Seq<(usize, Vec<u8>)>, r: Seq<bool>)
    requires en.len() == keys.len(), forall|i: int| 0 <= i < keys.len() ==> (#[trigger] en[i]).0 == i && en[i].1 == keys[i], r.len() == keys.len(), forall|i: int| 0 <= i < r.len() ==> !#[trigger] r[i],
    ensures todo(en, r), rset(en) == kset(keys)
{
    lemma_rset(en); lemma_kset(keys);
    assert forall|x: Seq<u8>| rset(en).contains(x) <==> kset(keys).contains(x) by {
        if rset(en).contains(x) { let j = choose|j: int| 0 <= j < en.len() && (#[trigger] en[j]).1@ == x; assert(keys[j]@ == x); }
        if kset(keys).contains(x) { let i = choose|i: int| 0 <= i < keys.len() && (#[trigger] keys[i])@ == x; assert(en[i].1@ == x); }
    }
    assert(rset(en) =~= kset(keys));
}

proof fn lemma_mid_same(n: TrieNode, m: TrieNode, d: Disk, e: Disk, b0: B, b: B, s: Keys, p: Path, l: nat)
    requires mid(n, d, e, b0, b, s, p, l), m.children == n.children, m.child_hashes == n.child_hashes, m.key == n.key
    ensures mid(m, d, e, b0, b, s, p, l)
{ lemma_kids_same(n, m, d, s, p, l); }
// nothing was new
proof fn lemma_unchanged(n: TrieNode, d: Disk, e: Disk, b0: B, b: B, s: Keys, p: Path, l: nat)
    requires mid(n, d, e, b0, b, s, p, l), stored(after(e, b0), p, s, l), own_same(b0, b, p), n.items == s.len(), p.len() < UNCOMPACTED_LENGTH || s.len() >= 2, below(s, p), good(s, l),
    ensures mem(n, d, s, p, l), stored(after(e, b), p, s, l), outside(b0, b, p),
{
    if none(s) { lemma_kids(s, p); assert(val(n).kids =~= Set::<u8>::empty()) by { assert forall|c: u8| !kids_of(s, p).contains(c) by { assert(none(under(s, p.push(c)))); } } assert(val(n).hashes.dom() =~= Set::<u8>::empty()); assert(val(n).hashes =~= Map::empty()); }
    else { assert(under(s, p) =~= s); assert(live(s, p, p)); assert(rec_ok(after(e, b0), p, s, l)); assert(rec_ok(after(e, b), p, s, l)); if s.len() == 0 {} }
    lemma_stored_join(after(e, b), s, p, l);
}
// the state in which the remaining keys are added
pub open spec fn ready(n: TrieNode, d: Disk, e: Disk, b0: B, b: B, gs: Keys, s1: Keys, s: Keys, p: Path, l: nat) -> bool {
    &&& mid(n, d, e, b0, b, s1, p, l) && n.items == s1.len() && s1.subset_of(s) && gs.subset_of(s1)
    &&& s != s1 || (s1 == gs && b == b0)
    &&& p.len() < UNCOMPACTED_LENGTH || s.len() >= 2
}
proof fn lemma_ready_plain(n: TrieNode, d: Disk, e: Disk, b: B, s1: Keys, s: Keys, p: Path, l: nat)
    requires mem(n, d, s1, p, l), stored(after(e, b), p, s1, l), good(s, l), below(s, p), s1.subset_of(s), p.len() < UNCOMPACTED_LENGTH || !(val(n).kids =~= Set::<u8>::empty()), !none(s),
    ensures ready(n, d, e, b, b, s1, s1, s, p, l)
{
    lemma_good_sub(s, s1, l);
    if p.len() < UNCOMPACTED_LENGTH { let k = s.choose(); assert(s.contains(k)); } else { lemma_longer_branch(val(n), s1, p, l); }
    lemma_no_leaf(val(n), s1, p, l);
    lemma_mid_of(n, d, e, b, s1, p, l); vstd::set_lib::lemma_len_subset(s1, s);
}
proof fn lemma_ready_split(n: TrieNode, d: Disk, e: Disk, b0: B, b1: B, b: B, gs: Keys, s1: Keys, s: Keys, k: Seq<u8>, x: Seq<u8>, p: Path, l: nat)
    requires branch(val(n), s1, p, l), kids_ok(n, d, s1, p, l), kids_stored(after(e, b), s1, p, l), outside(b0, b1, p), outside(b1, b, p), n.items == 1, s1 == set![k], k != x, s.contains(x), s1.subset_of(s), gs.subset_of(s1),
    ensures ready(n, d, e, b0, b, gs, s1, s, p, l)
{
    lemma_outside_trans(b0, b1, b, p); assert(s1.contains(k)); assert(s.contains(k));
    vstd::set_lib::lemma_len_subset(set![k, x], s); assert(set![k, x].len() == 2); assert(set![k].len() == 1);
}

proof fn lemma_turn(n0: TrieNode, d: Disk, e: Disk, b0: B, bt: B, cur: Keys, s1: Keys, s: Keys, ps: Ps, gm: G, rem: Seq<(usize, Vec<u8>)>, i: int, p: Path, l: nat)
    requires mid(n0, d, e, b0, bt, cur, p, l), listing(ps, gm), grouped(gm, rem, rem.len() as int, p.len() as int), below(rset(rem), p), forall|t: int| 0 <= t < rem.len() ==> p.len() < (#[trigger] rem[t]).1@.len(),
        cur.subset_of(s), s == s1.union(rset(rem)), good(s, l), s.len() <= u32::MAX, 0 <= i < ps.len(), inserted_to(cur, s1, ps, i),
    ensures ({ let c = ps[i].0; let q = p.push(c); let t = kset(ps[i].1.1); let uc = under(cur, q);
        &&& ps[i].1.0.len() == ps[i].1.1.len() > 0 && ps[i].1.1[0]@.len() > p.len() && ps[i].1.1[0]@.take((p.len() + 1) as int) == q && !none(t)
        &&& below(uc, q) && below(t, q) && good(uc.union(t), l) && uc.union(t).len() <= u32::MAX && good(cur, l)
        &&& cur.union(t).subset_of(s) && inserted_to(cur.union(t), s1, ps, i + 1) && cur.union(t).len() - cur.len() == uc.union(t).len() - uc.len() && cur.union(t).len() <= s.len()
        &&& n0.children@.contains_key(c) && n0.children@[c] is Serialized ==> d.contains_key(spot(q)) && wire(d[spot(q)]) is Some
        &&& !n0.children@.contains_key(c) ==> uc == Set::<Seq<u8>>::empty()
        &&& stored(after(e, bt), q, uc, l) }),
{
    let c = ps[i].0; let q = p.push(c); let t = kset(ps[i].1.1); let uc = under(cur, q);
    lemma_rset(rem); lemma_one_group(ps, gm, rem, p.len() as int, p, i);
    assert(t.subset_of(s)); assert(cur.union(t).subset_of(s)); assert(uc.union(t).subset_of(s)); lemma_good_sub(s, cur, l); lemma_good_sub(s, uc.union(t), l);
    vstd::set_lib::lemma_len_subset(uc.union(t), s); vstd::set_lib::lemma_len_subset(cur.union(t), s);
    lemma_under_add(cur, t, p, c); lemma_count_add(cur, uc, t, q); lemma_kids(cur, p); assert(val(n0).kids.contains(c) <==> n0.children@.contains_key(c));
    if n0.children@.contains_key(c) && n0.children@[c] is Serialized { lemma_wired(n0, d, cur, p, c, l); }
    lemma_inserted(cur, s1, ps, i);
    assert(stored(after(e, bt), p.push(c), under(cur, p.push(c)), l));
}
proof fn lemma_mid_child(n: TrieNode, k: TrieNode, d: Disk, e: Disk, b0: B, b: B, cur: Keys, p: Path, c: u8, l: nat)
    requires mid(n, d, e, b0, b, cur, p, l), n.children@.contains_key(c), good(cur, l), loaded(k, n.children@[c], d, p.push(c)),
    ensures mem(k, d, under(cur, p.push(c)), p.push(c), l), !none(under(cur, p.push(c))),
{ lemma_child(n, k, d, cur, p, c, l); }
proof fn lemma_turned(n0: TrieNode, m: TrieNode, k: TrieNode, d: Disk, e: Disk, b0: B, b2: B, bt: B, b: B, cur: Keys, t: Keys, p: Path, c: u8, l: nat)
    requires mid(n0, d, e, b0, bt, cur, p, l), m.children@ =~= n0.children@.insert(c, TrieNodeType::Node(k)), m.key == n0.key, below(t, p.push(c)), !none(t), own_same(b2, bt, p),
        ({ let q = p.push(c); let uc = under(cur, q); let un = uc.union(t); mem(k, d, un, q, l) && stored(after(e, b), q, un, l) && outside(bt, b, q)
            && views(m.child_hashes@) =~= (if un.len() == uc.len() { views(n0.child_hashes@) } else { update(views(n0.child_hashes@), un, q, l) }) }),
    ensures mid(m, d, e, b0, b, cur.union(t), p, l), own_same(b2, b, p),
{
    let q = p.push(c); let uc = under(cur, q); let nxt = cur.union(t);
    lemma_under_add(cur, t, p, c); lemma_count_add(cur, uc, t, q);
    assert(!none(under(nxt, q))) by { let x = t.choose(); assert(t.contains(x)); assert(uc.union(t).contains(x)); }
    if nxt == cur { lemma_hashes_step(cur, cur, p, c, l); }
    assert(val(m).kids =~= kids_of(nxt, p));
    assert(q.last() == c);
    lemma_mid(n0, m, k, d, e, b0, bt, b, cur, nxt, p, c, l);
}
proof fn lemma_apart_use(ps: Ps, n: int, z: int, r: Seq<bool>, b: bool)
    requires apart(ps), 0 <= n < ps.len(), 0 <= z < ps[n].1.0.len(), unset(r, ps, n + 1), 0 <= ps[n].1.0[z] < r.len(),
        forall|j: int| z <= j < ps[n].1.0.len() ==> 0 <= #[trigger] ps[n].1.0[j] < r.len() && !r[ps[n].1.0[j] as int],
    ensures ({ let r1 = r.update(ps[n].1.0[z] as int, b); unset(r1, ps, n + 1) && forall|j: int| z < j < ps[n].1.0.len() ==> 0 <= #[trigger] ps[n].1.0[j] < r1.len() && !r1[ps[n].1.0[j] as int] })
{}
proof fn lemma_unset_next(r: Seq<bool>, ps: Ps, n: int) requires unset(r, ps, n), 0 <= n < ps.len() ensures unset(r, ps, n + 1), forall|j: int| 0 <= j < ps[n].1.0.len() ==> 0 <= #[trigger] ps[n].1.0[j] < r.len() && !r[ps[n].1.0[j] as int] {}
proof fn lemma_enter(n: TrieNode, d: Disk, e: Disk, b0: B, b: B, gs: Keys, s1: Keys, s: Keys, ps: Ps, g: G, rem: Seq<(usize, Vec<u8>)>, p: Path, l: nat, r: Seq<bool>)
    requires ready(n, d, e, b0, b, gs, s1, s, p, l), listing(ps, g), grouped(g, rem, rem.len() as int, p.len() as int), todo(rem, r)
    ensures mid(n, d, e, b0, b, s1, p, l), n.items == s1.len(), own_same(b, b, p), inserted_to(s1, s1, ps, 0), apart(ps), unset(r, ps, 0), s1.subset_of(s), p.len() < l, n.key is None
{ lemma_apart(ps, g, rem, p.len() as int); lemma_unset(ps, g, rem, p.len() as int, r); }
proof fn lemma_finish(n: TrieNode, v: Vec<u8>, d: Disk, e: Disk, b0: B, b2: B, b: B, gs: Keys, s1: Keys, s: Keys, n2: TrieNode, m: TrieNode, p: Path, l: nat)
    requires ready(n2, d, e, b0, b2, gs, s1, s, p, l), mid(n, d, e, b0, b, s, p, l), m.children == n.children, m.child_hashes == n.child_hashes, m.key == n.key, m.items == s.len(), good(s, l), below(s, p), !none(s),
        wire(v@) is Some, same(val(m), wire(v@)->Some_0),
    ensures mem(m, d, s, p, l), stored(after(e, b.insert(spot(p), Some(v))), p, s, l), outside(b0, b.insert(spot(p), Some(v)), p), hash_of(val(m)) == tree_hash(s, p, l), proper(val(m)), hash_of(val(m)).len() > 0
{
    lemma_mid_same(n, m, d, e, b0, b, s, p, l); lemma_put(m, v, d, e, b0, b, s, p, l); lemma_hash(val(m), s, p, l);
}
// the node may be hashed and written
proof fn lemma_hashable(n: TrieNode, d: Disk, e: Disk, b0: B, b2: B, b: B, gs: Keys, s1: Keys, s: Keys, n2: TrieNode, p: Path, l: nat)
    requires ready(n2, d, e, b0, b2, gs, s1, s, p, l), mid(n, d, e, b0, b, s, p, l), good(s, l), below(s, p), !none(s)
    ensures n.key is None, hash_of(val(n)) == tree_hash(s, p, l), hash_of(val(n)).len() > 0
{ let m = Node { items: s.len() as int, kids: val(n).kids, hashes: val(n).hashes, key: val(n).key }; assert(fits(m, s, p, l)); lemma_hash(m, s, p, l); }
proof fn lemma_finish_same(n: TrieNode, d: Disk, e: Disk, b0: B, b2: B, b: B, gs: Keys, s1: Keys, s: Keys, n2: TrieNode, p: Path, l: nat)
    requires ready(n2, d, e, b0, b2, gs, s1, s, p, l), s == s1, mid(n, d, e, b0, b, s, p, l), own_same(b2, b, p), stored(after(e, b0), p, gs, l), n.items == s1.len(), good(s, l), below(s, p),
    ensures gs == s, mem(n, d, s, p, l), stored(after(e, b), p, s, l), outside(b0, b, p)
{ lemma_unchanged(n, d, e, b0, b, s, p, l); }

proof fn lemma_group0(rem: Seq<(usize, Vec<u8>)>, r: Seq<bool>, d: int) requires todo(rem, r) ensures grouped(Map::empty(), rem, 0, d), rising(rem) {}
proof fn lemma_outside_refl(b: B, p: Path) ensures outside(b, b, p) {}

proof fn lemma_listing(m: Map<u8, (Vec<usize>, Vec<Vec<u8>>)>, v: Seq<(u8, (Vec<usize>, Vec<Vec<u8>>))>)
    requires forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0) && m[v[i].0] == v[i].1, forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0,
        forall|x: u8| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x,
    ensures listing(pview(v), gview(m))
{
    assert forall|x: u8| #[trigger] gview(m).contains_key(x) implies exists|i: int| 0 <= i < pview(v).len() && (#[trigger] pview(v)[i]).0 == x by { assert(m.contains_key(x)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x; assert(pview(v)[i].0 == x); }
}
// ---- removing
pub open spec fn deleted_to(cur: Keys, s: Keys, ps: Ps, n: int) -> bool {
    forall|k: Seq<u8>| #[trigger] cur.contains(k) <==> s.contains(k) && !(exists|i: int| 0 <= i < n && kset((#[trigger] ps[i]).1.1).contains(k))
}
proof fn lemma_deleted(cur: Keys, s1: Keys, ps: Ps, n: int) requires deleted_to(cur, s1, ps, n), 0 <= n < ps.len() ensures deleted_to(cur.difference(kset(ps[n].1.1)), s1, ps, n + 1)
{
    let t = kset(ps[n].1.1);
    assert forall|k: Seq<u8>| #[trigger] cur.difference(t).contains(k) <==> s1.contains(k) && !(exists|i: int| 0 <= i < n + 1 && kset((#[trigger] ps[i]).1.1).contains(k)) by {
        if t.contains(k) { assert(kset(ps[n].1.1).contains(k)); }
        if exists|i: int| 0 <= i < n + 1 && kset((#[trigger] ps[i]).1.1).contains(k) { let i = choose|i: int| 0 <= i < n + 1 && kset((#[trigger] ps[i]).1.1).contains(k); if i < n { assert(kset(ps[i].1.1).contains(k)); } }
    }
}
proof fn lemma_all_out(ps: Ps, g: G, rem: Seq<(usize, Vec<u8>)>, d: int, p: Path, s1: Keys, cur: Keys)
    requires listing(ps, g), grouped(g, rem, rem.len() as int, d), deleted_to(cur, s1, ps, ps.len() as int), below(rset(rem), p), d == p.len(), forall|t: int| 0 <= t < rem.len() ==> d < (#[trigger] rem[t]).1@.len(),
    ensures cur == s1.difference(rset(rem))
{
    lemma_rset(rem);
    assert forall|k: Seq<u8>| cur.contains(k) <==> s1.difference(rset(rem)).contains(k) by {
        if rset(rem).contains(k) {
            let t = choose|t: int| 0 <= t < rem.len() && (#[trigger] rem[t]).1@ == k;
            assert(g_has(g, rem[t], d)); let x = k[d];
            let j = choose|j: int| 0 <= j < g[x].1.len() && #[trigger] g[x].1[j] == rem[t].1;
            let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == x;
            lemma_kset(ps[i].1.1); assert(ps[i].1.1[j]@ == k); assert(kset(ps[i].1.1).contains(k));
        } else if s1.contains(k) && exists|i: int| 0 <= i < ps.len() && kset((#[trigger] ps[i]).1.1).contains(k) {
            let i = choose|i: int| 0 <= i < ps.len() && kset((#[trigger] ps[i]).1.1).contains(k);
            lemma_one_group(ps, g, rem, d, p, i);
        }
    }
    assert(cur =~= s1.difference(rset(rem)));
}
proof fn lemma_turn_out(n0: TrieNode, d: Disk, e: Disk, b0: B, bt: B, cur: Keys, s: Keys, ps: Ps, gm: G, rem: Seq<(usize, Vec<u8>)>, i: int, p: Path, l: nat)
    requires mid(n0, d, e, b0, bt, cur, p, l), listing(ps, gm), grouped(gm, rem, rem.len() as int, p.len() as int), below(rset(rem), p), forall|t: int| 0 <= t < rem.len() ==> p.len() < (#[trigger] rem[t]).1@.len(),
        cur.subset_of(s), good(s, l), s.len() <= u32::MAX, 0 <= i < ps.len(), deleted_to(cur, s, ps, i), forall|t: int| 0 <= t < rem.len() ==> (#[trigger] rem[t]).1@.len() > 0,
    ensures ({ let c = ps[i].0; let q = p.push(c); let t = kset(ps[i].1.1); let uc = under(cur, q);
        &&& ps[i].1.0.len() == ps[i].1.1.len() > 0 && ps[i].1.1[0]@.len() > p.len() && ps[i].1.1[0]@.take((p.len() + 1) as int) == q && !none(t)
        &&& forall|j: int| 0 <= j < ps[i].1.1.len() ==> (#[trigger] ps[i].1.1[j])@.len() > 0
        &&& below(uc, q) && below(t, q) && good(uc, l) && uc.len() <= u32::MAX && good(cur, l)
        &&& cur.difference(t).subset_of(s) && deleted_to(cur.difference(t), s, ps, i + 1) && cur.len() - cur.difference(t).len() == uc.len() - uc.difference(t).len() && cur.len() <= s.len()
        &&& n0.children@.contains_key(c) && n0.children@[c] is Serialized ==> d.contains_key(spot(q)) && wire(d[spot(q)]) is Some
        &&& !n0.children@.contains_key(c) ==> cur.difference(t) == cur
        &&& stored(after(e, bt), q, uc, l) }),
{
    let c = ps[i].0; let q = p.push(c); let t = kset(ps[i].1.1); let uc = under(cur, q);
    lemma_rset(rem); lemma_one_group(ps, gm, rem, p.len() as int, p, i); lemma_kset(ps[i].1.1);
    assert forall|j: int| 0 <= j < ps[i].1.1.len() implies (#[trigger] ps[i].1.1[j])@.len() > 0 by { let k = ps[i].1.1[j]@; assert(kset(ps[i].1.1).contains(k)); assert(starts(k, q)); }
    assert(uc.subset_of(s)); lemma_good_sub(s, cur, l); lemma_good_sub(s, uc, l);
    vstd::set_lib::lemma_len_subset(uc, s); vstd::set_lib::lemma_len_subset(cur, s);
    lemma_under_sub(cur, t, p, c); lemma_count_sub(cur, uc, t, q); lemma_kids(cur, p); assert(val(n0).kids.contains(c) <==> n0.children@.contains_key(c));
    if n0.children@.contains_key(c) && n0.children@[c] is Serialized { lemma_wired(n0, d, cur, p, c, l); }
    if !n0.children@.contains_key(c) { assert(none(uc)); assert(cur.difference(t) =~= cur) by { assert forall|k: Seq<u8>| cur.contains(k) implies !t.contains(k) by { if t.contains(k) { assert(uc.contains(k)); } } } }
    lemma_deleted(cur, s, ps, i);
    assert(stored(after(e, bt), p.push(c), under(cur, p.push(c)), l));
}
proof fn lemma_turned_out(n0: TrieNode, m: TrieNode, k: TrieNode, d: Disk, e: Disk, b0: B, b2: B, bt: B, b: B, cur: Keys, t: Keys, p: Path, c: u8, l: nat)
    requires mid(n0, d, e, b0, bt, cur, p, l), m.key == n0.key, below(t, p.push(c)), own_same(b2, bt, p), n0.children@.contains_key(c),
        ({ let q = p.push(c); let uc = under(cur, q); let un = uc.difference(t); mem(k, d, un, q, l) && stored(after(e, b), q, un, l) && outside(bt, b, q)
            && m.children@ =~= (if un.len() == 0 { n0.children@.remove(c) } else { n0.children@.insert(c, TrieNodeType::Node(k)) })
            && views(m.child_hashes@) =~= (if un.len() == uc.len() { views(n0.child_hashes@) } else { update(views(n0.child_hashes@), un, q, l) }) }),
    ensures mid(m, d, e, b0, b, cur.difference(t), p, l), own_same(b2, b, p),
{
    let q = p.push(c); let uc = under(cur, q); let nxt = cur.difference(t); let un = uc.difference(t);
    lemma_under_sub(cur, t, p, c); lemma_count_sub(cur, uc, t, q); lemma_kids(cur, p);
    assert(val(n0).kids.contains(c)); assert(!none(uc));
    if un.len() == 0 { assert(none(un)); if uc.len() == 0 { assert(none(uc)); } } else { if none(un) {} }
    if nxt == cur { lemma_hashes_step(cur, cur, p, c, l); }
    assert(val(m).kids =~= kids_of(nxt, p));
    assert(q.last() == c);
    lemma_mid(n0, m, k, d, e, b0, bt, b, cur, nxt, p, c, l);
}
// a node that lost all keys
proof fn lemma_emptied(n: TrieNode, d: Disk, e: Disk, b0: B, b: B, s: Keys, p: Path, l: nat)
    requires mid(n, d, e, b0, b, s, p, l), n.items == 0, s.len() == 0
    ensures none(s), mem(n, d, s, p, l), hash_of(val(n)) == Seq::<u8>::empty(), n.key is None, stored(after(e, b.insert(spot(p), None)), p, s, l), outside(b0, b.insert(spot(p), None), p)
{
    assert(none(s)); lemma_kids(s, p);
    assert(val(n).kids =~= Set::<u8>::empty()) by { assert forall|c: u8| !kids_of(s, p).contains(c) by { assert(none(under(s, p.push(c)))); } } 
    assert(val(n).hashes.dom() =~= Set::<u8>::empty()); assert(val(n).hashes =~= Map::empty());
    assert forall|c: u8| !n.children@.contains_key(c) by { assert(!val(n).kids.contains(c)); }
    lemma_own(b, None, p); lemma_outside_trans(b0, b, b.insert(spot(p), None), p); lemma_stored_none(e, b.insert(spot(p), None), s, p, l);
}
proof fn lemma_stored_none(e: Disk, b: B, s: Keys, p: Path, l: nat) requires none(s) ensures stored(after(e, b), p, s, l)
{ assert forall|q: Path| #[trigger] live(s, p, q) implies false by { assert(none(under(s, q))); } }
// the one key left goes up
proof fn lemma_last(n: TrieNode, d: Disk, e: Disk, b0: B, b: B, s: Keys, p: Path, l: nat)
    requires mid(n, d, e, b0, b, s, p, l), s.len() == 1, good(s, l), below(s, p), p.len() >= UNCOMPACTED_LENGTH,
    ensures outside(b0, b, p), p.len() < s.choose().len() ==> ({ let k = s.choose(); let c = k[p.len() as int]; let q = p.push(c); s == set![k] && n.children@.dom() =~= set![c] && n.children@.dom().len() == 1 && n.children@.contains_key(c) && under(s, q) == s && starts(k, q)
        && val(n).hashes =~= map![c => digest20(k)] && (n.children@[c] is Serialized ==> d.contains_key(spot(q)) && wire(d[spot(q)]) is Some) }),
{
    let k = s.choose(); assert(s.contains(k)); lemma_one(s, k);
    if p.len() < k.len() { let c = k[p.len() as int]; lemma_single(k, p, c, l); assert(val(n).kids =~= set![c]); assert(set![c].contains(c)); if n.children@[c] is Serialized { lemma_wired(n, d, s, p, c, l); } assert(s.len() == 1); assert(tree_hash(s, p.push(c), l) == digest20(k)); }
}
proof fn lemma_compacted(m: TrieNode, v: Vec<u8>, d: Disk, e: Disk, b0: B, b: B, k: Seq<u8>, p: Path, c: u8, l: nat)
    requires m.items == 1, m.key is Some, m.key->Some_0@ == k, val(m).kids =~= Set::<u8>::empty(), val(m).hashes =~= map![c => digest20(k)], p.len() >= UNCOMPACTED_LENGTH, starts(k, p.push(c)), outside(b0, b, p),
        wire(v@) is Some, same(val(m), wire(v@)->Some_0),
    ensures ({ let b1 = b.insert(spot(p.push(c)), None).insert(spot(p), Some(v)); mem(m, d, set![k], p, l) && stored(after(e, b1), p, set![k], l) && outside(b0, b1, p) }),
{
    let s = set![k]; let q = p.push(c); let ba = b.insert(spot(q), None); let b1 = ba.insert(spot(p), Some(v));
    lemma_push(k, p, c);
    assert(s.contains(k)); lemma_one(s, k);
    assert(fits(val(m), s, p, l));
    lemma_own(b, None, q); lemma_outside_up(b, ba, p, c); lemma_outside_trans(b0, b, ba, p); lemma_own(ba, Some(v), p); lemma_outside_trans(b0, ba, b1, p);
    assert(after(e, b1).contains_key(spot(p)) && after(e, b1)[spot(p)] == v@);
    assert(rec_ok(after(e, b1), p, s, l)); lemma_stored_leaf(after(e, b1), s, p, l);
    assert forall|x: u8| !m.children@.contains_key(x) by { assert(!val(m).kids.contains(x)); }
}
proof fn lemma_leaf_gone(n: TrieNode, d: Disk, e: Disk, b0: B, s: Keys, p: Path, l: nat)
    requires n.items == 0, n.key is None, val(n).kids =~= Set::<u8>::empty(), p.len() >= UNCOMPACTED_LENGTH, none(s)
    ensures mem(n, d, s, p, l), stored(after(e, b0.insert(spot(p), None)), p, s, l), outside(b0, b0.insert(spot(p), None), p), hash_of(val(n)) == Seq::<u8>::empty()
{ assert forall|x: u8| !n.children@.contains_key(x) by { assert(!val(n).kids.contains(x)); } lemma_own(b0, None, p); lemma_stored_none(e, b0.insert(spot(p), None), s, p, l); }
proof fn lemma_leaf_any(n: Node, s: Keys, p: Path, l: nat)
    requires fits(n, s, p, l), n.kids =~= Set::<u8>::empty(), good(s, l), below(s, p)
    ensures none(s) ==> n.key is None, !none(s) ==> p.len() >= UNCOMPACTED_LENGTH && s.len() == 1 && n.key is Some && s == set![n.key->Some_0],
{
    if p.len() >= UNCOMPACTED_LENGTH { lemma_leaf(n, s, p, l); }
    else if !none(s) { lemma_longer(s, p, l); lemma_kids(s, p); let k = s.choose(); assert(s.contains(k)); lemma_push(k, p, k[p.len() as int]); assert(under(s, p.push(k[p.len() as int])).contains(k)); assert(n.kids.contains(k[p.len() as int])); }
}
proof fn lemma_start_out(n: TrieNode, d: Disk, e: Disk, b: B, s: Keys, p: Path, l: nat)
    requires mem(n, d, s, p, l), stored(after(e, b), p, s, l), good(s, l), below(s, p), !(val(n).kids =~= Set::<u8>::empty()),
    ensures mid(n, d, e, b, b, s, p, l), p.len() < UNCOMPACTED_LENGTH || s.len() >= 2, p.len() < l, n.items == s.len(), n.key is None, !none(s), own_same(b, b, p), outside(b, b, p)
{ lemma_longer_branch(val(n), s, p, l); lemma_longer(s, p, l); lemma_mid_of(n, d, e, b, s, p, l); }
proof fn lemma_enter_out(n: TrieNode, s: Keys, ps: Ps, g: G, rem: Seq<(usize, Vec<u8>)>, d: int, r: Seq<bool>)
    requires listing(ps, g), grouped(g, rem, rem.len() as int, d), todo(rem, r)
    ensures deleted_to(s, s, ps, 0), apart(ps), unset(r, ps, 0)
{ lemma_apart(ps, g, rem, d); lemma_unset(ps, g, rem, d, r); }
proof fn lemma_hash_mid(n: TrieNode, d: Disk, e: Disk, b0: B, b: B, s: Keys, p: Path, l: nat)
    requires mid(n, d, e, b0, b, s, p, l), n.items == s.len(), good(s, l), below(s, p), !none(s), p.len() < UNCOMPACTED_LENGTH || s.len() >= 2
    ensures hash_of(val(n)) == tree_hash(s, p, l), hash_of(val(n)).len() > 0, n.key is None
{ assert(fits(val(n), s, p, l)); lemma_hash(val(n), s, p, l); }
proof fn lemma_hash_last(n: TrieNode, k: Seq<u8>, p: Path, l: nat)
    requires val(n).kids =~= Set::<u8>::empty(), n.key is Some, n.key->Some_0@ == k, p.len() >= UNCOMPACTED_LENGTH
    ensures hash_of(val(n)) == tree_hash(set![k], p, l), hash_of(val(n)).len() > 0
{ ax_digest(); let s = set![k]; assert(s.contains(k)); assert(s.len() == 1); lemma_one(s, k); }
impl TrieNode {
//@fn src/storage/trie/trie_node.rs::TrieNode::split_leaf_node -> r
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires
        old(self).key is Some, ({ let k = old(self).key->Some_0@; let p = k.take(current_index as int);
            gl <= u32::MAX && UNCOMPACTED_LENGTH <= current_index < k.len() && good(set![k], gl) && stale(val(*old(self)).hashes, k, p) }),
        val(*old(self)).kids =~= Set::<u8>::empty(), old(self).items == 1,
    ensures r is Ok ==> ({ let k = old(self).key->Some_0@; let p = k.take(current_index as int);
        &&& final(self).items == 1
        &&& branch(val(*final(self)), set![k], p, gl)
        &&& kids_ok(*final(self), db.disk(), set![k], p, gl)
        &&& outside(old(txn).batch@, final(txn).batch@, p)
        &&& kids_stored(after(ge, final(txn).batch@), set![k], p, gl) }),
//@rw `current_index: usize,` => `current_index: usize, Ghost(gl): Ghost<nat>, Ghost(ge): Ghost<Disk>,`
//@rw `std::mem::take(&mut self.child_hashes)` => `vx_take_map(&mut self.child_hashes)`
//@rw `current_index + 1,` => `current_index + 1, Ghost(Set::empty()), Ghost(gl), Ghost(ge),`
//@start
    let ghost k = self.key->Some_0@; let ghost p = k.take(current_index as int); let ghost c = k[current_index as int]; let ghost s = set![k];
    let ghost h0 = val(*self).hashes; let ghost b0 = txn.batch@;
    proof { assert(s.contains(k)); assert(starts(k, p)); lemma_single(k, p, c, gl); ax_digest(); }
//@before `new_child.insert(`
    proof {
        lemma_fresh(*new_child, db.disk(), p.push(c), gl);
        assert(k.take(current_index + 1) =~= p.push(c));
        assert(Set::<Seq<u8>>::empty().union(s) =~= s);
        assert forall|v: Seq<Vec<u8>>| v.len() == 1 && v[0]@ == k implies #[trigger] kset(v) == s by { lemma_kset(v); assert(kset(v) =~= s); }
    }
//@before `self.child_hashes = child_hashes;`
    proof { lemma_hash(val(*new_child), s, p.push(c), gl); assert(views(child_hashes@) =~= map![c => tree_hash(s, p.push(c), gl)]); }
//@before `self.put_to_txn(txn, &prefix);`
    let ghost b1 = txn.batch@;
//@before `Ok(())`
    proof {
        assert(val(*self).hashes =~= map![c => tree_hash(s, p.push(c), gl)]);
        assert(val(*self).kids =~= set![c]);
        lemma_outside_up(b0, b1, p, c); 
        assert(prefix@ =~= p); assert(spot(p) =~= seq![RootPrefix::MerkleTrieNode as u8] + prefix@);
        let v = txn.batch@[spot(p)];
        assert(txn.batch@ =~= b1.insert(spot(p), v)); lemma_own(b1, v, p); lemma_outside_trans(b0, b1, txn.batch@, p);
        assert forall|x: u8| stored(after(ge, txn.batch@), #[trigger] p.push(x), under(s, p.push(x)), gl) by {
            if x == c { lemma_stored_agree(ge, b1, txn.batch@, p.push(c), s, gl); }
            else { assert forall|q: Path| #[trigger] live(under(s, p.push(x)), p.push(x), q) implies false by { assert(none(under(s, p.push(x)))); assert(none(under(under(s, p.push(x)), q))); } }
        }
    }
//@endfn
//@fn src/storage/trie/trie_node.rs::TrieNode::insert -> r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::rlimit(200)]
    requires
        ({ let p = keys@[0]@.take(current_index as int); let k = kset(keys@);
            keys@.len() > 0 ==> current_index <= keys@[0]@.len() && below(gs, p) && below(k, p) && good(gs.union(k), gl) && gs.union(k).len() <= u32::MAX && gl <= u32::MAX
            && mem(*old(self), db.disk(), gs, p, gl) && stored(after(ge, old(txn).batch@), p, gs, gl) && (none(gs) ==> val(*old(self)).hashes =~= Map::empty()) }),
    ensures keys@.len() > 0 && r is Ok ==> ({ let p = keys@[0]@.take(current_index as int); let s = gs.union(kset(keys@));
        &&& mem(*final(self), db.disk(), s, p, gl)
        &&& stored(after(ge, final(txn).batch@), p, s, gl)
        &&& outside(old(txn).batch@, final(txn).batch@, p)
        &&& r->Ok_0@.len() == keys@.len()
        &&& trues(r->Ok_0@) == s.len() - gs.len()
        &&& views(final(child_hashes)@) =~= (if s.len() == gs.len() { views(old(child_hashes)@) } else { update(views(old(child_hashes)@), s, p, gl) }) }),
//@rw `mut keys: Vec<Vec<u8>>,` => `keys: Vec<Vec<u8>>,`
//@rw `current_index: usize,` => `current_index: usize, Ghost(gs): Ghost<Keys>, Ghost(gl): Ghost<nat>, Ghost(ge): Ghost<Disk>,`
//@start
    hide(kids_ok); hide(stored); hide(kids_stored); hide(grouped); hide(outside); hide(mid); hide(ready); hide(own_same); hide(apart); hide(listing); hide(tree_hash); hide(kid_hashes); hide(kids_of); hide(live); hide(rec_ok); hide(inserted_to); hide(unset); hide(todo);
    broadcast use lemma_lex_eq;
    let mut keys = keys;
    let ghost p = keys@[0]@.take(current_index as int); let ghost k0 = keys@; let ghost kk = kset(k0); let ghost s = gs.union(kk);
    let ghost b0 = txn.batch@; let ghost hs0 = views(child_hashes@); let ghost d = current_index as int; let ghost dk = db.disk();
    let ghost mut s1 = gs; let ghost mut k1: Seq<u8> = seq![]; let ghost mut off = 0int;
    proof {
        if k0.len() > 0 {
            lemma_kset(k0); assert(kk.contains(k0[0]@)); assert(s.contains(k0[0]@)); assert(gs.subset_of(s));
            assert(below(s, p)); lemma_good_sub(s, gs, gl); vstd::set_lib::lemma_len_subset(gs, s);
        }
    }
//@rw `keys.iter().map(|_| false).collect::<Vec<bool>>()` => `vx_it(&keys).map(|_k: &Vec<u8>| -> (o: bool) ensures !o { false }).collect::<Vec<bool>>()`
//@rw `let remaining_keys;` => `let remaining_keys: Vec<(usize, Vec<u8>)>; proof { assert(prefix@ =~= p); assert(results@.len() == k0.len()); lemma_trues_none(results@); }`
//@before `let mut inserted = false;`
    proof { lemma_leaf(val(*self), gs, p, gl); lemma_outside_refl(b0, p); assert(kk.contains(k0.last()@)); assert(s.contains(k0.last()@)); if self.key is Some { k1 = self.key->Some_0@; } }
//@before `self.key = Some(key);`
    proof {
        k1 = key@; s1 = set![k1]; off = 1; lemma_kset(k0.drop_last());
        assert(kk.contains(k1)) by { assert(k0.last()@ == k1); }
        assert(starts(k1, p)); lemma_one(s1, k1);
        assert(kk =~= s1.union(kset(k0.drop_last()))) by { assert forall|x: Seq<u8>| kk.contains(x) implies x == k1 || kset(k0.drop_last()).contains(x) by { let i = choose|i: int| 0 <= i < k0.len() && (#[trigger] k0[i])@ == x; if i < k0.len() - 1 { assert(k0.drop_last()[i]@ == x); } }
            assert forall|x: Seq<u8>| kset(k0.drop_last()).contains(x) implies kk.contains(x) by { let i = choose|i: int| 0 <= i < k0.drop_last().len() && (#[trigger] k0.drop_last()[i])@ == x; assert(k0[i]@ == x); } }
        assert(s.contains(k1)); assert(good(s1, gl));
    }
//@before `inserted = true;`
    proof {
        assert(prefix@ =~= p); assert(spot(p) =~= seq![RootPrefix::MerkleTrieNode as u8] + prefix@);
        assert(val(*self).kids =~= Set::empty()); assert(val(*self).hashes =~= Map::empty());
        let v = txn.batch@[spot(p)]->Some_0;
        assert(txn.batch@ =~= b0.insert(spot(p), Some(v)));
        lemma_put_leaf(*self, v, dk, ge, b0, k1, p, gl);
        lemma_hash(val(*self), s1, p, gl);
        lemma_trues_update(results@, 0, true);
    }
//@before 1 `return Ok(results);`
    proof { lemma_rset(remaining_keys@); assert(rset(remaining_keys@) =~= Set::<Seq<u8>>::empty()); assert(s =~= s1); }
//@before `return Ok(results);`
    proof { assert(kset(Seq::<Vec<u8>>::empty()) =~= Set::<Seq<u8>>::empty()) by { lemma_kset(Seq::empty()); } assert(keys@ =~= Seq::empty()); assert(s =~= s1); }
//@closure 1 |vx_p: (usize, Vec<u8>)| -> (o: Option<(usize, Vec<u8>)>)
    requires vx_p.0 + (if inserted { 1int } else { 0 }) <= usize::MAX,
    ensures o is None <==> vx_p.1@ == (match *vx_k { Some(k) => k@, None => seq![] }), o is Some ==> o->Some_0.0 == vx_p.0 + (if inserted { 1int } else { 0 }) && o->Some_0.1 == vx_p.1
//@rw `bytes_compare(self.key.as_ref().unwrap_or(&vec![]), key.as_slice())` => `bytes_compare(vx_k.as_ref().unwrap_or(&vec![]), key.as_slice())`
//@rw `remaining_keys = keys.into_iter().enumerate().filter_map(` => `let vx_k = &self.key; let ghost k2 = keys@; let vx_en = vx_enumerate(keys); let ghost en = vx_en.0@; proof { assert(off == (if inserted { 1int } else { 0 })); assert forall|i: int| 0 <= i < en.len() implies (#[trigger] en[i]).0 + off <= usize::MAX by { vx_fits(&results); assert(k2[i] == k2[i]); } } remaining_keys = vx_en.filter_map(`
//@before `if remaining_keys.is_empty()`
    proof {
        let rem = remaining_keys@;
        let src = choose|src: Seq<int>| #[trigger] picks(src) && sieved(en, rem, k1, off, src);
        lemma_sieved(k2, en, rem, k1, off, src, results@);
        assert(s =~= s1.union(rset(rem)));
    }
//@before `self.split_leaf_node(`
    let ghost b1 = txn.batch@;
    proof {
        assert(remaining_keys@.len() > 0); let x = remaining_keys@[0].1@; lemma_rset(remaining_keys@);
        assert(rset(remaining_keys@).contains(x)); assert(s.contains(x) && s.contains(k1) && x != k1);
        vstd::set_lib::lemma_len_subset(set![k1, x], s); assert(set![k1, x].len() == 2);
        lemma_longer(s, p, gl); assert(k1.take(d) =~= p); assert(val(*self).kids =~= Set::empty());
        assert(s1 =~= set![k1]); assert(good(s1, gl));
    }
//@after `self.split_leaf_node(ctx, db, txn, current_index)?;`
    proof { lemma_ready_split(*self, dk, ge, b0, b1, txn.batch@, gs, s1, s, k1, remaining_keys@[0].1@, p, gl); }
//@rw `remaining_keys = keys.into_iter().enumerate().collect::<Vec<_>>()` => `remaining_keys = vx_enumerate(keys).collect::<Vec<_>>(); proof { lemma_ready_plain(*self, dk, ge, b0, gs, s, p, gl); lemma_enum(k0, remaining_keys@, results@); }`
//@rw `remaining_keys.iter().any(` => `vx_any(&remaining_keys, `
//@closure 2 |vx_p: &(usize, Vec<u8>)| -> (o: bool)
    ensures o == (current_index >= vx_p.1@.len())
//@rw `let mut grouped_keys = HashMap::new();` => `let mut grouped_keys: Groups = HashMap::new(); let ghost rem = remaining_keys@; let ghost hs1 = views(child_hashes@); let ghost b2 = txn.batch@; proof { assert(ready(*self, dk, ge, b0, b2, gs, s1, s, p, gl)); assert(s =~= s1.union(rset(rem))); assert(trues(results@) == s1.len() - gs.len()); assert(todo(rem, results@)); assert forall|t: int| 0 <= t < rem.len() implies d < (#[trigger] rem[t]).1@.len() by {} assert(below(rset(rem), p)) by { assert forall|k: Seq<u8>| #[trigger] rset(rem).contains(k) implies starts(k, p) by { assert(s.contains(k)); } } }`
//@rw `for (i, key) in remaining_keys.into_iter() {` => `let mut vx_g: usize = 0; proof { lemma_group0(rem, results@, d); assert(gview(grouped_keys@) =~= Map::empty()); } while vx_g < remaining_keys.len() invariant vx_g <= remaining_keys@.len(), remaining_keys@ == rem, rising(rem), d == current_index, forall|t: int| 0 <= t < rem.len() ==> d < (#[trigger] rem[t]).1@.len(), grouped(gview(grouped_keys@), rem, vx_g as int, d) decreases remaining_keys.len() - vx_g { let ghost g0 = gview(grouped_keys@); let (i, key) = vx_take(&remaining_keys, vx_g); vx_g = vx_g + 1;`
//@after `entry.1.push(key);`
    proof { let g1 = gview(grouped_keys@); let e = (grouped_keys@[char].0@, grouped_keys@[char].1@); assert(g1 =~= g0.insert(char, e)); assert(e.0 =~= (if g0.contains_key(char) { g0[char].0 } else { seq![] }).push(i)); assert(e.1 =~= (if g0.contains_key(char) { g0[char].1 } else { seq![] }).push(rem[vx_g - 1].1)); lemma_group(g0, g1, e, rem, vx_g - 1, d, char); }
//@rw `grouped_keys.entry(char).or_insert_with(|| (vec![], vec![]))` => `vx_entry(&mut grouped_keys, char)`
//@rw `for (char, (is, keys)) in grouped_keys.into_iter() {` => `let ghost gm = gview(grouped_keys@); let ghost grouped_keys_v = grouped_keys@; let vx_ps = vx_pairs(grouped_keys); let ghost mut cur = s1; let ghost n2 = *self; let ghost ps = pview(vx_ps@); proof { lemma_listing(grouped_keys_v, vx_ps@); lemma_enter(*self, dk, ge, b0, b2, gs, s1, s, ps, gm, rem, p, gl, results@); } let mut vx_n: usize = 0; while vx_n < vx_ps.len() invariant vx_n <= vx_ps@.len(), pview(vx_ps@) == ps, self.key is None, p.len() == d, listing(ps, gm), grouped(gm, rem, rem.len() as int, d), apart(ps), unset(results@, ps, vx_n as int), results@.len() == k0.len(), inserted_to(cur, s1, ps, vx_n as int), cur.subset_of(s), s == s1.union(rset(rem)), below(s, p), good(s, gl), s.len() <= u32::MAX, p.len() < gl, gl <= u32::MAX, below(rset(rem), p), p.len() == d, d == current_index, prefix@ == p, dk == db.disk(), forall|t: int| 0 <= t < rem.len() ==> d < (#[trigger] rem[t]).1@.len(), mid(*self, dk, ge, b0, txn.batch@, cur, p, gl), own_same(b2, txn.batch@, p), self.items == s1.len(), trues(results@) == cur.len() - gs.len(), successes == cur.len() - s1.len(), s1.subset_of(cur) decreases vx_ps.len() - vx_n { let (char, (is, keys)) = vx_take(&vx_ps, vx_n); vx_n = vx_n + 1; let ghost n0 = *self; let ghost bt = txn.batch@; let ghost c = char; let ghost q = p.push(c); let ghost t = kset(keys@); let ghost uc = under(cur, q); let ghost cur0 = cur; let ghost r0 = results@; let ghost su0 = successes; let ghost isv = is@; proof { assert(ps[vx_n - 1] == (c, (is@, keys@))); lemma_turn(n0, dk, ge, b0, bt, cur, s1, s, ps, gm, rem, vx_n - 1, p, gl); lemma_unset_next(results@, ps, vx_n - 1); }`
//@rw `std::mem::take(&mut self.child_hashes)` => `vx_take_map(&mut self.child_hashes)`
//@rw `child.insert(ctx, &mut child_hashes, db, txn, keys, current_index + 1)?` => `child.insert(ctx, &mut child_hashes, db, txn, keys, current_index + 1, Ghost(uc), Ghost(gl), Ghost(ge))?`
//@after `let child = self.get_or_load_child(ctx, db, &prefix, char)?;`
    proof {
        if n0.children@.contains_key(c) { lemma_mid_child(n0, *child, dk, ge, b0, bt, cur, p, c, gl); } else { lemma_fresh(*child, dk, q, gl); }
    }
//@after `self.child_hashes = child_hashes;`
    proof {
        lemma_turned(n0, *self, self.children@[c]->Node_0, dk, ge, b0, b2, bt, txn.batch@, cur, t, p, c, gl);
        cur = cur.union(t);
    }
//@rw `for (i, result) in is.into_iter().zip(child_results) {` => `let mut vx_z: usize = 0; let ghost cr = child_results@; proof { assert(cr.take(0) =~= seq![]); assert(su0 + trues(cr) <= s.len()); } while vx_z < is.len() && vx_z < child_results.len() invariant vx_z <= is@.len(), is@.len() == cr.len(), child_results@ == cr, is@ == ps[vx_n - 1].1.0, 1 <= vx_n <= ps.len(), apart(ps), unset(results@, ps, vx_n as int), results@.len() == k0.len(), trues(results@) == trues(r0) + trues(cr.take(vx_z as int)), successes == su0 + trues(cr.take(vx_z as int)), su0 + trues(cr) <= u32::MAX, forall|j: int| vx_z <= j < is@.len() ==> 0 <= #[trigger] is@[j] < results@.len() && !results@[is@[j] as int] decreases is.len() - vx_z { let i = vx_take(&is, vx_z); let result = vx_take(&child_results, vx_z); proof { lemma_trues_update(results@, i as int, result); lemma_trues_split(cr, vx_z as int); lemma_trues_take(cr, vx_z + 1); assert(ps[vx_n - 1].1.0[vx_z as int] == i); lemma_apart_use(ps, vx_n - 1, vx_z as int, results@, result); } vx_z = vx_z + 1;`
//@loopafter 2
    proof { assert(cr.take(cr.len() as int) =~= cr); }
//@rw `self.split_leaf_node(ctx, db, txn, current_index)?` => `self.split_leaf_node(ctx, db, txn, current_index, Ghost(gl), Ghost(ge))?`
//@rw `let mut successes = 0;` => `let mut successes: usize = 0;`
//@before `if successes > 0`
    proof { lemma_all_in(ps, gm, rem, d, s1, cur); assert(cur == s); vstd::set_lib::lemma_len_subset(s1, s); if successes == 0 { vstd::set_lib::lemma_subset_equality(s1, s); } else { lemma_hashable(*self, dk, ge, b0, b2, txn.batch@, gs, s1, s, n2, p, gl); } }
    let ghost n9 = *self; let ghost b9 = txn.batch@; let ghost hs9 = views(child_hashes@);
//@before 2 `Ok(results)`
    proof {
        if successes > 0 {
            assert(spot(p) =~= seq![RootPrefix::MerkleTrieNode as u8] + prefix@);
            let v = txn.batch@[spot(p)]->Some_0; assert(txn.batch@ =~= b9.insert(spot(p), Some(v)));
            lemma_finish(n9, v, dk, ge, b0, b2, b9, gs, s1, s, n2, *self, p, gl);
        } else { assert(s == s1); lemma_finish_same(*self, dk, ge, b0, b2, b9, gs, s1, s, n2, p, gl); }
    }
//@endfn
}
pub type Groups2 = HashMap<u8, Vec<(usize, Vec<u8>)>>;
// HashMap::entry(c).or_insert_with(|| vec![])
#[verifier::external_body] pub fn vx_entry2(m: &mut Groups2, c: u8) -> (r: &mut Vec<(usize, Vec<u8>)>)
    ensures old(m)@.contains_key(c) ==> *r == old(m)@[c], !old(m)@.contains_key(c) ==> r@.len() == 0, final(m)@ == old(m)@.insert(c, *final(r)) { unimplemented!() }
pub open spec fn parts(e: Seq<(usize, Vec<u8>)>) -> (Seq<usize>, Seq<Vec<u8>>) { (e.map_values(|x: (usize, Vec<u8>)| x.0), e.map_values(|x: (usize, Vec<u8>)| x.1)) }
pub open spec fn gview2(m: Map<u8, Vec<(usize, Vec<u8>)>>) -> G { m.map_values(|e: Vec<(usize, Vec<u8>)>| parts(e@)) }
pub open spec fn pview2(v: Seq<(u8, Vec<(usize, Vec<u8>)>)>) -> Ps { v.map_values(|e: (u8, Vec<(usize, Vec<u8>)>)| (e.0, parts(e.1@))) }
proof fn lemma_listing2(m: Map<u8, Vec<(usize, Vec<u8>)>>, v: Seq<(u8, Vec<(usize, Vec<u8>)>)>)
    requires forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0) && m[v[i].0] == v[i].1, forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0,
        forall|x: u8| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x,
    ensures listing(pview2(v), gview2(m))
{
    assert forall|x: u8| #[trigger] gview2(m).contains_key(x) implies exists|i: int| 0 <= i < pview2(v).len() && (#[trigger] pview2(v)[i]).0 == x by { assert(m.contains_key(x)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x; assert(pview2(v)[i].0 == x); }
}
impl TrieNode {
//@fn src/storage/trie/trie_node.rs::TrieNode::delete -> r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::rlimit(30)]
    requires
        ({ let p = keys@[0]@.take(current_index as int); let k = kset(keys@);
            keys@.len() > 0 && current_index <= keys@[0]@.len() && below(gs, p) && below(k, p) && good(gs, gl) && gs.len() <= u32::MAX && gl <= u32::MAX && (forall|i: int| 0 <= i < keys@.len() ==> (#[trigger] keys@[i])@.len() > 0)
            && mem(*old(self), db.disk(), gs, p, gl) && stored(after(ge, old(txn).batch@), p, gs, gl) }),
    ensures r is Ok ==> ({ let p = keys@[0]@.take(current_index as int); let s = gs.difference(kset(keys@));
        &&& mem(*final(self), db.disk(), s, p, gl)
        &&& stored(after(ge, final(txn).batch@), p, s, gl)
        &&& outside(old(txn).batch@, final(txn).batch@, p)
        &&& r->Ok_0@.len() == keys@.len()
        &&& trues(r->Ok_0@) == gs.len() - s.len()
        &&& views(final(child_hashes)@) =~= (if s.len() == gs.len() { views(old(child_hashes)@) } else { update(views(old(child_hashes)@), s, p, gl) }) }),
//@rw `current_index: usize,` => `current_index: usize, Ghost(gs): Ghost<Keys>, Ghost(gl): Ghost<nat>, Ghost(ge): Ghost<Disk>,`
//@start
    hide(kids_ok); hide(stored); hide(kids_stored); hide(grouped); hide(outside); hide(mid); hide(ready); hide(own_same); hide(apart); hide(listing); hide(tree_hash); hide(kid_hashes); hide(kids_of); hide(live); hide(rec_ok); hide(deleted_to); hide(unset); hide(todo);
    broadcast use lemma_lex_eq;
    let ghost p = keys@[0]@.take(current_index as int); let ghost k0 = keys@; let ghost kk = kset(k0); let ghost s = gs.difference(kk);
    let ghost b0 = txn.batch@; let ghost hs0 = views(child_hashes@); let ghost d = current_index as int; let ghost dk = db.disk(); let ghost o0 = *self;
    proof { lemma_kset(k0); assert(kk.contains(k0[0]@)); assert(s.subset_of(gs)); lemma_good_sub(gs, s, gl); vstd::set_lib::lemma_len_subset(s, gs); assert(below(s, p)); }
//@rw `keys.iter().map(|_| false).collect::<Vec<bool>>()` => `vx_it(&keys).map(|_k: &Vec<u8>| -> (o: bool) ensures !o { false }).collect::<Vec<bool>>()`
//@rw `if self.is_leaf()` => `let ghost r0 = results@; let ghost mut brk = false; proof { assert(prefix@ =~= p); lemma_trues_none(results@); } if self.is_leaf()`
//@rw `keys.iter().any(` => `vx_any(&keys, `
//@closure 1 |key: &Vec<u8>| -> (o: bool)
    ensures o == (current_index >= key@.len())
//@rw `for (i, key) in keys.iter().enumerate() {` => `proof { lemma_leaf_any(val(o0), gs, p, gl); } let mut vx_i: usize = 0; while vx_i < keys.len() invariant_except_break vx_i <= keys@.len(), !brk, *self == o0 && results@ == r0 && txn.batch@ == b0 && views(child_hashes@) == hs0, forall|j: int| 0 <= j < vx_i ==> (#[trigger] k0[j])@ != (match o0.key { Some(k) => k@, None => seq![] }) invariant r0.len() == k0.len(), trues(r0) == 0, forall|j: int| 0 <= j < r0.len() ==> !#[trigger] r0[j], forall|j: int| 0 <= j < k0.len() ==> (#[trigger] k0[j])@.len() > 0, kk == kset(k0), s == gs.difference(kk), d == current_index, p.len() == d, prefix@ == p, dk == db.disk(), keys@ == k0, fits(val(o0), gs, p, gl), none(gs) ==> o0.key is None, !none(gs) ==> p.len() >= UNCOMPACTED_LENGTH && gs.len() == 1 && o0.key is Some && gs == set![o0.key->Some_0@], val(o0).kids =~= Set::<u8>::empty() ensures brk ==> mem(*self, dk, s, p, gl) && stored(after(ge, txn.batch@), p, s, gl) && outside(b0, txn.batch@, p) && results@.len() == k0.len() && trues(results@) == gs.len() - s.len() && views(child_hashes@) =~= (if s.len() == gs.len() { hs0 } else { update(hs0, s, p, gl) }), !brk ==> *self == o0 && results@ == r0 && txn.batch@ == b0 && views(child_hashes@) == hs0 && forall|j: int| 0 <= j < k0.len() ==> (#[trigger] k0[j])@ != (match o0.key { Some(k) => k@, None => seq![] }) decreases keys.len() - vx_i { let i = vx_i; let key = &keys[vx_i]; vx_i = vx_i + 1; let ghost kx = key@; proof { assert(kx == k0[i as int]@); lemma_kset(k0); lemma_zero_iff_equal(match o0.key { Some(k) => k@, None => seq![] }, kx); assert forall|v: Vec<u8>| (#[trigger] v@).len() == 0 implies v@ == Seq::<u8>::empty() by { assert(v@ =~= Seq::<u8>::empty()); } }`
//@before `self.key = None;`
    proof { assert(kx.len() > 0); assert(o0.key is Some && o0.key->Some_0@ == kx); assert(kk.contains(kx)); assert(s =~= Set::<Seq<u8>>::empty()); assert(gs.len() == 1); }
//@before 0 `self.update_hash(child_hashes, &prefix)?;`
    proof { assert(spot(p) =~= seq![RootPrefix::MerkleTrieNode as u8] + prefix@); assert(txn.batch@ =~= b0.insert(spot(p), None)); assert(val(*self).kids =~= Set::<u8>::empty()); lemma_leaf_gone(*self, dk, ge, b0, s, p, gl); lemma_trues_update(results@, i as int, true); }
//@before `break;`
    proof { brk = true; }
//@before 0 `return Ok(results);`
    proof { if !brk { lemma_kset(k0); lemma_outside_refl(b0, p); assert(s =~= gs) by { assert forall|k: Seq<u8>| gs.contains(k) implies !kk.contains(k) by { if kk.contains(k) { let j = choose|j: int| 0 <= j < k0.len() && (#[trigger] k0[j])@ == k; assert(k0[j]@ == k); } } } } }
//@rw `let mut grouped_keys = HashMap::new();` => `let ghost k3 = keys@; let vx_en = vx_enumerate(keys); let ghost rem = vx_en.0@; proof { lemma_enum(k3, rem, results@); lemma_start_out(*self, dk, ge, b0, gs, p, gl); assert(s == gs.difference(rset(rem))); assert(below(rset(rem), p)); assert forall|t: int| 0 <= t < rem.len() implies d < (#[trigger] rem[t]).1@.len() by { assert(rem[t].1 == k3[t]); } } let mut grouped_keys: Groups2 = HashMap::new();`
//@rw `for (i, key) in keys.into_iter().enumerate() {` => `let mut vx_g: usize = 0; proof { lemma_group0(rem, results@, d); assert(gview2(grouped_keys@) =~= Map::empty()); } while vx_g < vx_en.0.len() invariant vx_g <= vx_en.0@.len(), vx_en.0@ == rem, rising(rem), d == current_index, forall|t: int| 0 <= t < rem.len() ==> d < (#[trigger] rem[t]).1@.len(), grouped(gview2(grouped_keys@), rem, vx_g as int, d) decreases vx_en.0.len() - vx_g { let ghost g0 = gview2(grouped_keys@); let ghost gk = grouped_keys@; let (i, key) = vx_take(&vx_en.0, vx_g); vx_g = vx_g + 1;`
//@rw `grouped_keys.entry(char).or_insert_with(|| vec![])` => `vx_entry2(&mut grouped_keys, char)`
//@after `.push((i, key));`
    proof { let g1 = gview2(grouped_keys@); let e = parts(grouped_keys@[char]@); assert(g1 =~= g0.insert(char, e)); if gk.contains_key(char) { assert(g0[char] == parts(gk[char]@)); } assert(e.0 =~= (if g0.contains_key(char) { g0[char].0 } else { seq![] }).push(i)); assert(e.1 =~= (if g0.contains_key(char) { g0[char].1 } else { seq![] }).push(rem[vx_g - 1].1)); lemma_group(g0, g1, e, rem, vx_g - 1, d, char); }
//@rw `let mut successes = 0;` => `let mut successes: usize = 0;`
//@rw `for (char, child_keys) in grouped_keys.into_iter() {` => `let ghost gm = gview2(grouped_keys@); let ghost grouped_keys_v = grouped_keys@; let vx_ps = vx_pairs(grouped_keys); let ghost mut cur = gs; let ghost ps = pview2(vx_ps@); proof { lemma_listing2(grouped_keys_v, vx_ps@); lemma_enter_out(*self, gs, ps, gm, rem, d, results@); } let mut vx_n: usize = 0; while vx_n < vx_ps.len() invariant vx_n <= vx_ps@.len(), pview2(vx_ps@) == ps, self.key is None, p.len() == d, listing(ps, gm), grouped(gm, rem, rem.len() as int, d), apart(ps), unset(results@, ps, vx_n as int), results@.len() == k0.len(), deleted_to(cur, gs, ps, vx_n as int), cur.subset_of(gs), below(gs, p), good(gs, gl), gs.len() <= u32::MAX, p.len() < gl, gl <= u32::MAX, below(rset(rem), p), d == current_index, prefix@ == p, dk == db.disk(), forall|t: int| 0 <= t < rem.len() ==> d < (#[trigger] rem[t]).1@.len(), mid(*self, dk, ge, b0, txn.batch@, cur, p, gl), own_same(b0, txn.batch@, p), self.items == gs.len(), trues(results@) == gs.len() - cur.len(), successes == gs.len() - cur.len(), views(child_hashes@) == hs0 decreases vx_ps.len() - vx_n { let (char, child_keys) = vx_take(&vx_ps, vx_n); vx_n = vx_n + 1; let ghost n0 = *self; let ghost bt = txn.batch@; let ghost c = char; let ghost q = p.push(c); let ghost pt = parts(child_keys@); let ghost ck = child_keys@; let ghost t = kset(pt.1); let ghost uc = under(cur, q); let ghost r0 = results@; let ghost su0 = successes; let ghost mut kc = n0; proof { assert(ps[vx_n - 1] == (c, pt)); lemma_turn_out(n0, dk, ge, b0, bt, cur, gs, ps, gm, rem, vx_n - 1, p, gl); lemma_unset_next(results@, ps, vx_n - 1); }`
//@rw `for (i, _) in child_keys.into_iter() {` => `let mut vx_a: usize = 0; while vx_a < child_keys.len() invariant vx_a <= child_keys@.len(), child_keys@ == ck, pt == parts(ck), results@ == r0, forall|j: int| 0 <= j < pt.0.len() ==> 0 <= #[trigger] pt.0[j] < r0.len() && !r0[pt.0[j] as int] decreases child_keys.len() - vx_a { let i = vx_take(&child_keys, vx_a).0; proof { assert(pt.0[vx_a as int] == i); assert(r0.update(i as int, false) =~= r0); } vx_a = vx_a + 1;`
//@before `continue;`
    proof { cur = cur.difference(t); }
//@rw `for (i, key) in child_keys.into_iter() {` => `let mut vx_a: usize = 0; while vx_a < child_keys.len() invariant vx_a <= child_keys@.len(), child_keys@ == ck, pt == parts(ck), is@ =~= pt.0.take(vx_a as int), keys@ =~= pt.1.take(vx_a as int) decreases child_keys.len() - vx_a { let (i, key) = vx_take(&child_keys, vx_a); proof { assert(pt.0[vx_a as int] == i && pt.1[vx_a as int] == key); assert(pt.0.take(vx_a + 1) =~= pt.0.take(vx_a as int).push(i)); assert(pt.1.take(vx_a + 1) =~= pt.1.take(vx_a as int).push(key)); } vx_a = vx_a + 1;`
//@rw `let (child_results, child_items) = {` => `proof { assert(is@ =~= pt.0); assert(keys@ =~= pt.1); } let (child_results, child_items) = {`
//@rw `std::mem::take(&mut self.child_hashes)` => `vx_take_map(&mut self.child_hashes)`
//@rw `child.delete(ctx, &mut child_hashes, db, txn, keys, current_index + 1)?` => `child.delete(ctx, &mut child_hashes, db, txn, keys, current_index + 1, Ghost(uc), Ghost(gl), Ghost(ge))?`
//@after 0 `let child = self.get_or_load_child(ctx, db, &prefix, char)?;`
    proof { lemma_mid_child(n0, *child, dk, ge, b0, bt, cur, p, c, gl); }
//@after `self.child_hashes = child_hashes;`
    proof { kc = self.children@[c]->Node_0; }
//@rw `for (i, result) in is.into_iter().zip(child_results) {` => `proof { lemma_turned_out(n0, *self, kc, dk, ge, b0, b0, bt, txn.batch@, cur, t, p, c, gl); cur = cur.difference(t); } let mut vx_z: usize = 0; let ghost cr = child_results@; proof { assert(cr.take(0) =~= seq![]); assert(su0 + trues(cr) <= gs.len()); } while vx_z < is.len() && vx_z < child_results.len() invariant vx_z <= is@.len(), is@.len() == cr.len(), child_results@ == cr, is@ == ps[vx_n - 1].1.0, 1 <= vx_n <= ps.len(), apart(ps), unset(results@, ps, vx_n as int), results@.len() == k0.len(), trues(results@) == trues(r0) + trues(cr.take(vx_z as int)), successes == su0 + trues(cr.take(vx_z as int)), su0 + trues(cr) <= u32::MAX, forall|j: int| vx_z <= j < is@.len() ==> 0 <= #[trigger] is@[j] < results@.len() && !results@[is@[j] as int] decreases is.len() - vx_z { let i = vx_take(&is, vx_z); let result = vx_take(&child_results, vx_z); proof { lemma_trues_update(results@, i as int, result); lemma_trues_split(cr, vx_z as int); lemma_trues_take(cr, vx_z + 1); assert(ps[vx_n - 1].1.0[vx_z as int] == i); lemma_apart_use(ps, vx_n - 1, vx_z as int, results@, result); } vx_z = vx_z + 1;`
//@loopafter 5
    proof { assert(cr.take(cr.len() as int) =~= cr); }
//@before `if successes > 0`
    let ghost n9 = *self; let ghost b9 = txn.batch@; let ghost kl = s.choose(); let ghost q = p.push(kl[p.len() as int]); let ghost small = s.len() == 1 && p.len() >= UNCOMPACTED_LENGTH;
    proof { lemma_all_out(ps, gm, rem, d, p, gs, cur); assert(cur == s); if successes == 0 { vstd::set_lib::lemma_subset_equality(s, gs); } }
//@before 1 `return Ok(results);`
    proof { assert(spot(p) =~= seq![RootPrefix::MerkleTrieNode as u8] + prefix@); assert(txn.batch@ =~= b9.insert(spot(p), None)); lemma_mid_same(n9, *self, dk, ge, b0, b9, s, p, gl); lemma_emptied(*self, dk, ge, b0, b9, s, p, gl); }
//@before `if self.items == 1`
    proof { assert(!none(s)) by { if none(s) { assert(s.len() == 0); } } assert(s.contains(kl)); assert(gs.contains(kl)); if p.len() >= UNCOMPACTED_LENGTH { lemma_longer(gs, p, gl); } lemma_mid_same(n9, *self, dk, ge, b0, b9, s, p, gl); if s.len() == 1 && p.len() >= UNCOMPACTED_LENGTH { lemma_last(*self, dk, ge, b0, b9, s, p, gl); } else { lemma_hash_mid(*self, dk, ge, b0, b9, s, p, gl); } }
    let ghost n8 = *self;
//@after 1 `let child = self.get_or_load_child(ctx, db, &prefix, char)?;`
    proof { lemma_mid_child(n8, *child, dk, ge, b0, b9, s, p, char, gl); assert(child.key is Some && child.key->Some_0@ == kl); }
//@before 2 `self.update_hash(child_hashes, &prefix)?;`
    proof { if small { lemma_hash_last(*self, kl, p, gl); assert(spot(q) =~= seq![RootPrefix::MerkleTrieNode as u8] + p.push(kl[p.len() as int])); assert(txn.batch@ =~= b9.insert(spot(q), None)); } }
//@before 2 `Ok(results)`
    proof {
        if successes > 0 {
            assert(spot(p) =~= seq![RootPrefix::MerkleTrieNode as u8] + prefix@);
            let v = txn.batch@[spot(p)]->Some_0;
            if small { lemma_compacted(*self, v, dk, ge, b0, b9, kl, p, kl[p.len() as int], gl); }
            else { assert(txn.batch@ =~= b9.insert(spot(p), Some(v))); lemma_put(*self, v, dk, ge, b0, b9, s, p, gl); }
        } else { assert(s == gs); lemma_unchanged(*self, dk, ge, b0, b9, s, p, gl); }
    }
//@endfn
}
impl TrieNode {
//@fn src/storage/trie/trie_node.rs::TrieNode::exists -> r
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires ({ let p = key@.take(current_index as int); current_index <= key@.len() && key@.len() > 0 && below(gs, p) && good(gs, gl) && gl <= u32::MAX && mem(*old(self), db.disk(), gs, p, gl) }),
    ensures r is Ok ==> r->Ok_0 == gs.contains(key@),
        r is Ok ==> mem(*final(self), db.disk(), gs, key@.take(current_index as int), gl),
//@rw `current_index: usize,` => `current_index: usize, Ghost(gs): Ghost<Keys>, Ghost(gl): Ghost<nat>,`
//@start
    let ghost p = key@.take(current_index as int); let ghost dk = db.disk(); let ghost n0 = *self; let ghost d = current_index as int;
    proof { lemma_zero_iff_equal(match n0.key { Some(k) => k@, None => seq![] }, key@); assert forall|v: Vec<u8>| (#[trigger] v@).len() == 0 implies v@ == Seq::<u8>::empty() by { assert(v@ =~= Seq::<u8>::empty()); }
        if val(*self).kids =~= Set::<u8>::empty() { lemma_leaf_any(val(*self), gs, p, gl); }
        else { lemma_longer_branch(val(*self), gs, p, gl); lemma_longer(gs, p, gl); }
        if gs.contains(key@) && key@.len() > d { lemma_push(key@, p, key@[d]); } }
//@before 0 `return Ok(false);`
    proof { if gs.contains(key@) { assert(key@.len() > p.len()); } }
//@before 1 `return Ok(false);`
    proof { lemma_kids(gs, p); assert(!val(n0).kids.contains(char)); if gs.contains(key@) { assert(starts(key@, p)); assert(under(gs, p.push(char)).contains(key@)); } }
//@before `let child = self.get_or_load_child(`
    let ghost q = p.push(char); let ghost ug = under(gs, q);
    proof { assert(key@.subrange(0, d) =~= p); lemma_kids(gs, p); if n0.children@[char] is Serialized { lemma_wired(n0, dk, gs, p, char, gl); } assert(key@.take(d + 1) =~= q); lemma_good_sub(gs, ug, gl); assert(starts(key@, p)); lemma_push(key@, p, char); }
//@rw `child.exists(ctx, db, key, current_index + 1)` => `proof { lemma_child(n0, *child, dk, gs, p, char, gl); } let vx_r = child.exists(ctx, db, key, current_index + 1, Ghost(ug), Ghost(gl)); proof { if vx_r is Ok { lemma_kids_step(n0, *self, self.children@[char]->Node_0, dk, gs, gs, p, char, gl); assert(val(*self).kids =~= val(n0).kids); assert(val(*self) == val(n0)); } } vx_r`
//@endfn
}
pub open spec fn nib(s: Seq<u8>) -> Seq<u8> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { s[i / 2] >> 4 } else { s[i / 2] & 0x0f }) }
//@fn src/storage/trie/util.rs::expand_nibbles -> r
    ensures r@ == nib(input@),
//@loops 1
//@loop 0
    invariant result@.len() == 2 * vx_i0, forall|i: int| 0 <= i < 2 * vx_i0 ==> #[trigger] result@[i] == nib(input@)[i],
//@loopafter 0
    proof { assert(result@ =~= nib(input@)); }
//@start
    proof { admit_len(input); }
//@endfn
#[verifier::external_body] proof fn admit_len(s: &[u8]) ensures s@.len() <= isize::MAX, s@.len() * 2 <= usize::MAX {}
// different keys have different paths
proof fn theorem_paths_differ(a: Seq<u8>, b: Seq<u8>) requires nib(a) == nib(b) ensures a == b
{
    assert(nib(a).len() == 2 * a.len() && nib(b).len() == 2 * b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert((2 * i) / 2 == i && (2 * i + 1) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) % 2 == 1);
        assert(nib(a)[2 * i] == a[i] >> 4 && nib(b)[2 * i] == b[i] >> 4 && nib(a)[2 * i + 1] == a[i] & 0x0f && nib(b)[2 * i + 1] == b[i] & 0x0f);
        let (x, y) = (a[i], b[i]); assert(x == y) by (bit_vector) requires x & 0x0f == y & 0x0f, x >> 4 == y >> 4;
    }
    assert(a =~= b);
}
//@item src/storage/trie/merkle_trie.rs::MerkleTrie noclone
// the trie holds the set s: in memory, and after what is still to be written
pub open spec fn holds(t: MerkleTrie, d: Disk, e: Disk, b: B, s: Keys, l: nat) -> bool { t.root is Some && mem(t.root->Some_0, d, s, seq![], l) && stored(after(e, b), seq![], s, l) }
pub open spec fn nset(v: Seq<&[u8]>) -> Keys { v.map_values(|x: &[u8]| nib(x@)).to_set() }
#[verifier::external_body] pub fn vx_all<'a>(v: Vec<&'a [u8]>) -> (r: VxIt<&'a [u8]>) ensures r.0@ == v@ { unimplemented!() }
proof fn lemma_after_after(e: Disk, a: B, b: B) ensures after(after(e, a), b) == after(e, over(a, b)), after(after(e, a), B::empty()) == after(e, a) { assert(after(after(e, a), b) =~= after(e, over(a, b))); assert(after(after(e, a), B::empty()) =~= after(e, a)); }
proof fn lemma_nset(v: Seq<&[u8]>, w: Seq<Vec<u8>>) requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i])@ == nib(v[i]@) ensures nset(v) == kset(w)
{ assert(v.map_values(|x: &[u8]| nib(x@)) =~= w.map_values(|x: Vec<u8>| x@)); }
proof fn lemma_root_below(s: Keys) ensures below(s, seq![]) { assert forall|k: Seq<u8>| starts(k, seq![]) by { assert(k.take(0) =~= seq![]); } }
impl MerkleTrie {
//@fn src/storage/trie/merkle_trie.rs::MerkleTrie::new -> r
    ensures r is Ok && r->Ok_0.root is None,
//@endfn
//@fn src/storage/trie/merkle_trie.rs::MerkleTrie::items -> r
    ensures forall|d: Disk, e: Disk, b: B, s: Keys, l: nat| #[trigger] holds(*self, d, e, b, s, l) ==> r is Ok && r->Ok_0 == s.len(),
//@endfn
//@fn src/storage/trie/merkle_trie.rs::MerkleTrie::root_hash -> r
    requires self.root is Some ==> proper(val(self.root->Some_0)),
    ensures forall|d: Disk, e: Disk, b: B, s: Keys, l: nat| #[trigger] holds(*self, d, e, b, s, l) && good(s, l) ==> r is Ok && r->Ok_0@ == tree_hash(s, seq![], l),
//@start
    proof { assert forall|d: Disk, e: Disk, b: B, s: Keys, l: nat| #[trigger] holds(*self, d, e, b, s, l) && good(s, l) implies hash_of(val(self.root->Some_0)) == tree_hash(s, seq![], l) by { lemma_root_below(s); lemma_hash(val(self.root->Some_0), s, seq![], l); } }
//@endfn
//@fn src/storage/trie/merkle_trie.rs::MerkleTrie::exists -> r
    requires old(self).root is Some ==> holds(*old(self), db.disk(), ge, gb, gs, gl), gl <= u32::MAX, good(gs, gl), key@.len() > 0,
    ensures r is Ok ==> r->Ok_0 == gs.contains(nib(key@)) && holds(*final(self), db.disk(), ge, gb, gs, gl),
//@rw `key: &[u8]` => `key: &[u8], Ghost(gs): Ghost<Keys>, Ghost(gl): Ghost<nat>, Ghost(ge): Ghost<Disk>, Ghost(gb): Ghost<B>`
//@rw `root.exists(ctx, db, &key, 0)` => `proof { lemma_root_below(gs); assert(key@.take(0) =~= Seq::<u8>::empty()); } root.exists(ctx, db, &key, 0, Ghost(gs), Ghost(gl))`
//@endfn
//@fn src/storage/trie/merkle_trie.rs::MerkleTrie::insert -> r
    requires old(self).root is Some ==> holds(*old(self), db.disk(), ge, old(txn_batch).batch@, gs, gl), gl <= u32::MAX, good(gs.union(nset(keys@)), gl), gs.union(nset(keys@)).len() <= u32::MAX,
    ensures r is Ok && keys@.len() > 0 ==> ({ let s = gs.union(nset(keys@)); holds(*final(self), db.disk(), ge, final(txn_batch).batch@, s, gl) && r->Ok_0@.len() == keys@.len() && trues(r->Ok_0@) == s.len() - gs.len() }),
//@rw `keys: Vec<&[u8]>,` => `keys: Vec<&[u8]>, Ghost(gs): Ghost<Keys>, Ghost(gl): Ghost<nat>, Ghost(ge): Ghost<Disk>,`
//@start
    let ghost k0 = keys@; let ghost b0 = txn_batch.batch@;
//@rw `keys.into_iter().map(expand_nibbles).collect()` => `vx_all(keys).map(|k: &[u8]| -> (o: Vec<u8>) ensures o@ == nib(k@) { expand_nibbles(k) }).collect()`
//@before `if keys.is_empty()`
    proof { lemma_nset(k0, keys@); lemma_root_below(gs); lemma_root_below(kset(keys@)); lemma_after_after(ge, b0, B::empty()); }
//@rw `let mut txn = RocksDbTransactionBatch::new();` => `let mut txn = RocksDbTransactionBatch::new(); proof { assert(keys@[0]@.take(0) =~= Seq::<u8>::empty()); }`
//@rw `root.insert(ctx, &mut root_stub_map, db, &mut txn, keys, 0)?` => `root.insert(ctx, &mut root_stub_map, db, &mut txn, keys, 0, Ghost(gs), Ghost(gl), Ghost(after(ge, b0)))?`
//@before `txn_batch.merge(txn);`
    proof { lemma_after_after(ge, b0, txn.batch@); }
//@endfn
//@fn src/storage/trie/merkle_trie.rs::MerkleTrie::delete -> r
    requires old(self).root is Some ==> holds(*old(self), db.disk(), ge, old(txn_batch).batch@, gs, gl), gl <= u32::MAX, good(gs, gl), gs.len() <= u32::MAX,
    ensures r is Ok && keys@.len() > 0 ==> ({ let s = gs.difference(nset(keys@)); holds(*final(self), db.disk(), ge, final(txn_batch).batch@, s, gl) && r->Ok_0@.len() == keys@.len() && trues(r->Ok_0@) == gs.len() - s.len() }),
//@rw `keys: Vec<&[u8]>,` => `keys: Vec<&[u8]>, Ghost(gs): Ghost<Keys>, Ghost(gl): Ghost<nat>, Ghost(ge): Ghost<Disk>,`
//@rw `let root_stub_map = &mut HashMap::new();` => `let mut vx_stub: HashMap<u8, Vec<u8>> = HashMap::new(); let root_stub_map = &mut vx_stub;`
//@start
    let ghost k0 = keys@; let ghost b0 = txn_batch.batch@;
//@rw `keys.into_iter().map(expand_nibbles).collect()` => `vx_all(keys).map(|k: &[u8]| -> (o: Vec<u8>) ensures o@ == nib(k@) { expand_nibbles(k) }).collect()`
//@before `if keys.is_empty()`
    proof { lemma_nset(k0, keys@); lemma_root_below(gs); lemma_root_below(kset(keys@)); lemma_after_after(ge, b0, B::empty()); }
//@rw `let mut txn = RocksDbTransactionBatch::new();` => `let mut txn = RocksDbTransactionBatch::new(); proof { assert(keys@[0]@.take(0) =~= Seq::<u8>::empty()); }`
//@rw `root.delete(ctx, root_stub_map, db, &mut txn, keys, 0)?` => `root.delete(ctx, root_stub_map, db, &mut txn, keys, 0, Ghost(gs), Ghost(gl), Ghost(after(ge, b0)))?`
//@rw `for key in keys.iter() {` => `for key in it: keys.iter() invariant it.seq().map_values(|v: &Vec<u8>| *v) == keys@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] keys@[i])@.len() >= UNCOMPACTED_LENGTH {`
//@before `txn_batch.merge(txn);`
    proof { lemma_after_after(ge, b0, txn.batch@); }
//@endfn
}
// ---- theorems
// once written, what is in memory and what is on disk still agree
proof fn theorem_commit(t: MerkleTrie, d: Disk, b: B, s: Keys, l: nat) requires holds(t, d, d, b, s, l), good(s, l) ensures holds(t, after(d, b), after(d, b), B::empty(), s, l)
{
    lemma_root_below(s); lemma_mem_moves(t.root->Some_0, d, after(d, b), s, seq![], l); lemma_after_after(d, b, B::empty());
}
proof fn lemma_mem_moves(n: TrieNode, d: Disk, d1: Disk, s: Keys, p: Path, l: nat)
    requires mem(n, d, s, p, l), stored(d1, p, s, l), good(s, l), below(s, p) ensures mem(n, d1, s, p, l) decreases l - p.len()
{
    if val(n).kids =~= Set::<u8>::empty() { assert forall|c: u8| !n.children@.contains_key(c) by { assert(!val(n).kids.contains(c)); } }
    else {
        lemma_longer_branch(val(n), s, p, l); lemma_stored_kids(d1, s, p, l);
        assert forall|c: u8| #[trigger] n.children@.contains_key(c) implies p.len() < l && match n.children@[c] {
            TrieNodeType::Serialized(_) => stored(d1, p.push(c), under(s, p.push(c)), l),
            TrieNodeType::Node(m) => fits(val(m), under(s, p.push(c)), p.push(c), l) && kids_ok(m, d1, under(s, p.push(c)), p.push(c), l),
        } by {
            let q = p.push(c); lemma_good_sub(s, under(s, q), l); assert(stored(d1, p.push(c), under(s, p.push(c)), l));
            match n.children@[c] { TrieNodeType::Node(m) => { assert(mem(m, d, under(s, q), q, l)); lemma_mem_moves(m, d, d1, under(s, q), q, l); } _ => {} }
        }
    }
}
// a trie loaded from disk is the trie that was written
proof fn theorem_reload(n: TrieNode, t: MerkleTrie, d: Disk, s: Keys, l: nat)
    requires stored(d, seq![], s, l), !none(s), good(s, l), read(wire(d[spot(seq![])])->Some_0, val(n)), forall|c: u8| #[trigger] n.children@.contains_key(c) ==> n.children@[c] is Serialized, t.root == Some(n),
    ensures holds(t, d, d, B::empty(), s, l)
{ lemma_root_below(s); lemma_loaded(n, d, s, seq![], l); assert(after(d, B::empty()) =~= d); }
// two nodes that hold the same messages have the same state root, whatever they did to get there
proof fn theorem_same_root(a: MerkleTrie, b: MerkleTrie, d0: Disk, d1: Disk, e0: Disk, e1: Disk, b0: B, b1: B, s: Keys, l: nat)
    requires holds(a, d0, e0, b0, s, l), holds(b, d1, e1, b1, s, l), good(s, l)
    ensures hash_of(val(a.root->Some_0)) == hash_of(val(b.root->Some_0)), a.root->Some_0.items == b.root->Some_0.items
{ lemma_root_below(s); lemma_hash(val(a.root->Some_0), s, seq![], l); lemma_hash(val(b.root->Some_0), s, seq![], l); }
} // verus!
fn main() {}
