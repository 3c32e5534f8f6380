//@include prelude.vrs
global size_of usize == 8;
//@proto FullProposal Commits ConsensusMessage !BlockHeader !ShardHeader !ShardWitness !Transaction !BlockEvent
use proto::{FullProposal, Height, ShardHash, Commits};
//@include height.vrs
// std::collections::BTreeMap by its documented behaviour (trusted); keys are compared field by field
pub trait VxKey: Sized { type S; spec fn k(self) -> Self::S; }
impl VxKey for Height { type S = Height; open spec fn k(self) -> Height { self } }
impl VxKey for ShardHash { type S = (u32, Seq<u8>); open spec fn k(self) -> (u32, Seq<u8>) { (self.shard_index, self.hash@) } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K: VxKey, V> { k: Vec<K>, v: Vec<V> }
impl<K: VxKey, V> View for BTreeMap<K, V> { type V = Map<K::S, V>; uninterp spec fn view(&self) -> Map<K::S, V>; }
impl<K: VxKey, V> BTreeMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::S, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.k(), v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove((*k).k()), r == (if old(self)@.contains_key((*k).k()) { Some(old(self)@[(*k).k()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.contains_key((*k).k()) { Some(&self@[(*k).k()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.contains_key((*k).k()), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *r->Some_0 == old(self)@[(*k).k()] && final(self)@ == old(self)@.insert((*k).k(), *final(r->Some_0)) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
}
pub open spec fn keyed(k: Seq<Height>, m: Map<Height, Vec<ShardHash>>) -> bool {
    &&& forall|i: int| 0 <= i < k.len() ==> m.contains_key(#[trigger] k[i])
    &&& forall|i: int, j: int| 0 <= i < j < k.len() ==> height_le(#[trigger] k[i], #[trigger] k[j]) && k[i] != k[j]
    &&& forall|x: Height| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < k.len() && #[trigger] k[i] == x
}
// iteration: every key once, ascending
#[verifier::external_body] pub fn vx_keys(m: &BTreeMap<Height, Vec<ShardHash>>) -> (r: Vec<Height>) ensures keyed(r@, m@) { unimplemented!() }
impl Height {
//@fn proto/src/lib.rs::Height::new -> r
    ensures r.shard_index == shard_index, r.block_number == block_number,
//@endfn
//@fn proto/src/lib.rs::Height::as_u64 -> r
    ensures r == self.block_number,
//@endfn
//@fn proto/src/lib.rs::Height::increment_by -> r
    requires self.block_number + n <= u64::MAX,
    ensures r.shard_index == self.shard_index, r.block_number == self.block_number + n,
//@endfn
//@fn proto/src/lib.rs::Height::increment -> r
    requires self.block_number < u64::MAX,
    ensures r.shard_index == self.shard_index, r.block_number == self.block_number + 1,
//@endfn
//@fn proto/src/lib.rs::Height::decrement_by -> r
    ensures r == (if n <= self.block_number { Some(Height { shard_index: self.shard_index, block_number: (self.block_number - n) as u64 }) } else { None }),
//@closure 0 |block_number: u64| -> (o: Height)
    ensures o.shard_index == self.shard_index, o.block_number == block_number
//@endfn
//@fn proto/src/lib.rs::Height::decrement -> r
    ensures r == (if 0 < self.block_number { Some(Height { shard_index: self.shard_index, block_number: (self.block_number - 1) as u64 }) } else { None }),
//@closure 0 |block_number: u64| -> (o: Height)
    ensures o.shard_index == self.shard_index, o.block_number == block_number
//@endfn
}
impl FullProposal {
    pub open spec fn wf(self) -> bool { self.height is Some && self.proposed_value is Some }
    pub open spec fn hash_bytes(self) -> Seq<u8> { match self.proposed_value->Some_0 { proto::full_proposal::ProposedValue::Block(b) => b.hash@, proto::full_proposal::ProposedValue::Shard(c) => c.hash@ } }
    pub open spec fn id(self) -> (u32, Seq<u8>) { (self.height->Some_0.shard_index, self.hash_bytes()) }
//@fn proto/src/lib.rs::FullProposal::height -> r
    requires self.height is Some,
    ensures r == self.height->Some_0,
//@endfn
//@fn proto/src/lib.rs::FullProposal::shard_id -> r
    ensures self.height is Some ==> r is Ok && r->Ok_0 == self.height->Some_0.shard_index, self.height is None ==> r is Err,
//@endfn
//@fn proto/src/lib.rs::FullProposal::shard_hash -> r
    requires self.wf(),
    ensures r.k() == self.id(),
//@endfn
//@fn proto/src/lib.rs::FullProposal::block -> r
    ensures match self.proposed_value { Some(proto::full_proposal::ProposedValue::Block(b)) => r == Some(proto::Block { commits: Some(commits), ..b }), _ => r is None },
//@endfn
//@fn proto/src/lib.rs::FullProposal::shard_chunk -> r
    ensures match self.proposed_value { Some(proto::full_proposal::ProposedValue::Shard(b)) => r == Some(proto::ShardChunk { commits: Some(commits), ..b }), _ => r is None },
//@endfn
}
//@item src/consensus/proposer.rs::ProposedValues
#[verifier::external_body] pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub open spec fn gone(o: ProposedValues, n: ProposedValues, hs: Seq<Height>, j: int) -> bool {
    &&& forall|x: Height| #[trigger] n.values_by_height@.contains_key(x) <==> o.values_by_height@.contains_key(x) && !hs.take(j).contains(x)
    &&& forall|x: Height| #[trigger] n.values_by_height@.contains_key(x) ==> n.values_by_height@[x] == o.values_by_height@[x]
    &&& forall|x: (u32, Seq<u8>)| #[trigger] n.values@.contains_key(x) <==> o.values@.contains_key(x) && !hs.take(j).contains(o.values@[x].height->Some_0)
    &&& forall|x: (u32, Seq<u8>)| #[trigger] n.values@.contains_key(x) ==> n.values@[x] == o.values@[x]
}
pub open spec fn removed(o: ProposedValues, n: ProposedValues, l: Seq<ShardHash>, k: int) -> bool {
    &&& forall|x: (u32, Seq<u8>)| #[trigger] n.values@.contains_key(x) <==> o.values@.contains_key(x) && forall|i: int| 0 <= i < k ==> (#[trigger] l[i]).k() != x
    &&& forall|x: (u32, Seq<u8>)| #[trigger] n.values@.contains_key(x) ==> n.values@[x] == o.values@[x]
}
proof fn lemma_decided(ks: Seq<Height>, m: Map<Height, Vec<ShardHash>>, h: Height, i: int)
    requires keyed(ks, m), 0 <= i <= ks.len(), forall|j: int| 0 <= j < i ==> height_le(#[trigger] ks[j], h)
    ensures i < ks.len() ==> (height_le(ks[i], h) ==> ks.take(i + 1) == ks.take(i).push(ks[i])), i == ks.len() || !height_le(ks[i], h) ==> decided(ks.take(i), m, h), i + 1 == ks.len() && height_le(ks[i], h) ==> decided(ks.take(i + 1), m, h)
{
    if i < ks.len() { assert(ks.take(i + 1) =~= ks.take(i).push(ks[i])); }
    if i == ks.len() || !height_le(ks[i], h) {
        assert forall|x: Height| #[trigger] m.contains_key(x) && height_le(x, h) implies ks.take(i).contains(x) by {
            let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == x;
            if i < ks.len() { if j > i { assert(height_le(ks[i], ks[j])); } }
            assert(ks.take(i)[j] == x);
        }
    }
    if i + 1 == ks.len() && height_le(ks[i], h) {
        assert(ks.take(i + 1) =~= ks);
        assert forall|x: Height| #[trigger] m.contains_key(x) && height_le(x, h) implies ks.contains(x) by { let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == x; assert(ks[j] == x); }
        assert forall|j: int| 0 <= j < ks.len() implies m.contains_key(#[trigger] ks[j]) && height_le(ks[j], h) by { }
    }
}
// exactly the keys at or below h
pub open spec fn decided(k: Seq<Height>, m: Map<Height, Vec<ShardHash>>, h: Height) -> bool {
    &&& forall|x: Height| #[trigger] m.contains_key(x) && height_le(x, h) ==> k.contains(x)
    &&& forall|i: int| 0 <= i < k.len() ==> m.contains_key(#[trigger] k[i]) && height_le(k[i], h)
}
pub type Values = Map<(u32, Seq<u8>), FullProposal>;
impl ProposedValues {
    // each held value is filed under its own identity, and listed under its own height; every listed identity is held
    pub open spec fn wf(&self) -> bool {
        &&& forall|x: (u32, Seq<u8>)| #[trigger] self.values@.contains_key(x) ==> self.values@[x].wf() && self.values@[x].id() == x && self.lists(self.values@[x].height->Some_0, x)
        &&& forall|h: Height, i: int| self.values_by_height@.contains_key(h) && 0 <= i < self.values_by_height@[h]@.len() ==> self.values@.contains_key((#[trigger] self.values_by_height@[h]@[i]).k()) && self.values@[self.values_by_height@[h]@[i].k()].height->Some_0 == h
    }
    pub open spec fn lists(&self, h: Height, x: (u32, Seq<u8>)) -> bool { self.values_by_height@.contains_key(h) && exists|i: int| 0 <= i < self.values_by_height@[h]@.len() && (#[trigger] self.values_by_height@[h]@[i]).k() == x }
    // what is left of m once heights up to h are decided
    pub open spec fn undecided(m: Values, h: Height, r: Values) -> bool {
        &&& forall|x: (u32, Seq<u8>)| #[trigger] r.contains_key(x) <==> m.contains_key(x) && !height_le(m[x].height->Some_0, h)
        &&& forall|x: (u32, Seq<u8>)| #[trigger] r.contains_key(x) ==> r[x] == m[x]
    }
}
// one height dropped, with everything listed under it
proof fn lemma_gone(o: ProposedValues, b: ProposedValues, n: ProposedValues, hs: Seq<Height>, j: int)
    requires o.wf(), gone(o, b, hs, j), 0 <= j < hs.len(), n.values_by_height@ == b.values_by_height@.remove(hs[j]),
        b.values_by_height@.contains_key(hs[j]) ==> removed(b, n, b.values_by_height@[hs[j]]@, b.values_by_height@[hs[j]]@.len() as int),
        !b.values_by_height@.contains_key(hs[j]) ==> n.values@ == b.values@,
    ensures gone(o, n, hs, j + 1)
{
    let g = hs[j];
    assert forall|x: Height| hs.take(j + 1).contains(x) <==> hs.take(j).contains(x) || x == g by {
        if hs.take(j + 1).contains(x) { let i = choose|i: int| 0 <= i < j + 1 && #[trigger] hs.take(j + 1)[i] == x; if i < j { assert(hs.take(j)[i] == x); } }
        if hs.take(j).contains(x) { let i = choose|i: int| 0 <= i < j && #[trigger] hs.take(j)[i] == x; assert(hs.take(j + 1)[i] == x); }
        assert(hs.take(j + 1)[j] == g);
    }
    assert forall|x: (u32, Seq<u8>)| #[trigger] n.values@.contains_key(x) <==> o.values@.contains_key(x) && !hs.take(j + 1).contains(o.values@[x].height->Some_0) by {
        if o.values@.contains_key(x) { assert(o.lists(o.values@[x].height->Some_0, x)); assert(b.values@.contains_key(x) <==> !hs.take(j).contains(o.values@[x].height->Some_0)); }
        if b.values_by_height@.contains_key(g) {
            let l = b.values_by_height@[g]@; assert(o.values_by_height@.contains_key(g)); assert(o.values_by_height@[g]@ == l);
            if o.values@.contains_key(x) && o.values@[x].height->Some_0 == g { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).k() == x; assert(!n.values@.contains_key(x)); }
            if b.values@.contains_key(x) && !n.values@.contains_key(x) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).k() == x; assert(o.values@[o.values_by_height@[g]@[i].k()].height->Some_0 == g); }
        }
    }
}
proof fn lemma_done(o: ProposedValues, n: ProposedValues, hs: Seq<Height>, h: Height)
    requires o.wf(), gone(o, n, hs, hs.len() as int), decided(hs, o.values_by_height@, h)
    ensures n.wf(), ProposedValues::undecided(o.values@, h, n.values@)
{
    assert(hs.take(hs.len() as int) =~= hs);
    assert forall|x: (u32, Seq<u8>)| #[trigger] n.values@.contains_key(x) implies n.values@[x].wf() && n.values@[x].id() == x && n.lists(n.values@[x].height->Some_0, x) by { assert(o.values@.contains_key(x)); assert(o.lists(o.values@[x].height->Some_0, x)); }
    assert forall|g: Height, i: int| n.values_by_height@.contains_key(g) && 0 <= i < n.values_by_height@[g]@.len() implies n.values@.contains_key((#[trigger] n.values_by_height@[g]@[i]).k()) && n.values@[n.values_by_height@[g]@[i].k()].height->Some_0 == g by {
        assert(o.values_by_height@.contains_key(g)); let y = o.values_by_height@[g]@[i].k(); assert(o.values@.contains_key(y)); assert(o.values@[y].height->Some_0 == g); assert(n.values@.contains_key(y));
    }
    assert forall|x: (u32, Seq<u8>)| #[trigger] n.values@.contains_key(x) <==> o.values@.contains_key(x) && !height_le(o.values@[x].height->Some_0, h) by {
        if o.values@.contains_key(x) { let g = o.values@[x].height->Some_0; assert(o.lists(g, x)); assert(o.values_by_height@.contains_key(g));
            if hs.contains(g) { let i = choose|i: int| 0 <= i < hs.len() && hs[i] == g; assert(height_le(hs[i], h)); } }
    }
}
proof fn lemma_added(o: ProposedValues, n: ProposedValues, v: FullProposal, sh: ShardHash)
    requires o.wf(), v.wf(), sh.k() == v.id(), o.values@.contains_key(v.id()) ==> o.values@[v.id()].height == v.height,
        n.values@ == o.values@.insert(v.id(), v), n.values_by_height@.contains_key(v.height->Some_0),
        n.values_by_height@ == o.values_by_height@.insert(v.height->Some_0, n.values_by_height@[v.height->Some_0]),
        n.values_by_height@[v.height->Some_0]@ =~= (if o.values_by_height@.contains_key(v.height->Some_0) { o.values_by_height@[v.height->Some_0]@ } else { Seq::empty() }).push(sh),
    ensures n.wf()
{
    let h = v.height->Some_0; let l = n.values_by_height@[h]@;
    assert(l[l.len() - 1].k() == v.id());
    assert forall|x: (u32, Seq<u8>)| #[trigger] n.values@.contains_key(x) implies n.values@[x].wf() && n.values@[x].id() == x && n.lists(n.values@[x].height->Some_0, x) by {
        if x != v.id() {
            assert(o.values@.contains_key(x)); let hx = o.values@[x].height->Some_0; assert(o.lists(hx, x));
            let i = choose|i: int| 0 <= i < o.values_by_height@[hx]@.len() && (#[trigger] o.values_by_height@[hx]@[i]).k() == x;
            assert(n.values_by_height@[hx]@[i].k() == x);
        }
    }
    assert forall|g: Height, i: int| n.values_by_height@.contains_key(g) && 0 <= i < n.values_by_height@[g]@.len() implies n.values@.contains_key((#[trigger] n.values_by_height@[g]@[i]).k()) && n.values@[n.values_by_height@[g]@[i].k()].height->Some_0 == g by {
        if g == h && i == l.len() - 1 { } else { assert(o.values_by_height@.contains_key(g)); assert(n.values_by_height@[g]@[i] == o.values_by_height@[g]@[i]); assert(o.values@.contains_key(o.values_by_height@[g]@[i].k())); }
    }
}
impl ProposedValues {
//@fn src/consensus/proposer.rs::ProposedValues::new -> r
    ensures r.wf(), r.values@ == Map::<(u32, Seq<u8>), FullProposal>::empty(),
//@endfn
//@fn src/consensus/proposer.rs::ProposedValues::add_proposed_value
    requires old(self).wf(), value.wf(),
        // a hash names one proposal content, hence one height
        old(self).values@.contains_key(value.id()) ==> old(self).values@[value.id()].height == value.height,
    ensures final(self).wf(), final(self).values@ == old(self).values@.insert(value.id(), value),
//@start
    let ghost vx_v = value;
//@before `match self.values_by_height`
        let ghost vx_sh = shard_hash;
//@after `hashes.push(shard_hash);`
                proof { lemma_added(*old(self), *self, vx_v, vx_sh); }
//@after `self.values_by_height.insert(height, vec![shard_hash]);`
                proof { lemma_added(*old(self), *self, vx_v, vx_sh); }
//@endfn
//@fn src/consensus/proposer.rs::ProposedValues::get_by_shard_hash -> r
    ensures r is Some <==> self.values@.contains_key(shard_hash.k()), r is Some ==> *r->Some_0 == self.values@[shard_hash.k()],
//@endfn
//@fn src/consensus/proposer.rs::ProposedValues::decide
    requires old(self).wf(),
    ensures final(self).wf(), Self::undecided(old(self).values@, height, final(self).values@),
//@rw `for (entry_height, _) in &self.values_by_height {` => `let vx_ks = vx_keys(&self.values_by_height); let mut vx_i: usize = 0; proof { assert(vx_ks@.take(0) =~= heights_to_remove@); lemma_decided(vx_ks@, self.values_by_height@, height, 0); } while vx_i < vx_ks.len() invariant_except_break vx_i <= vx_ks@.len(), vx_i == vx_ks@.len() ==> decided(heights_to_remove@, self.values_by_height@, height), keyed(vx_ks@, self.values_by_height@), heights_to_remove@ == vx_ks@.take(vx_i as int), forall|j: int| 0 <= j < vx_i ==> height_le(#[trigger] vx_ks@[j], height) ensures keyed(vx_ks@, self.values_by_height@), vx_i <= vx_ks@.len(), decided(heights_to_remove@, self.values_by_height@, height) decreases vx_ks.len() - vx_i { let entry_height = &vx_ks[vx_i]; vx_i = vx_i + 1; proof { lemma_decided(vx_ks@, self.values_by_height@, height, vx_i - 1); }`
//@rw `for height in heights_to_remove {` => `let ghost vx_hs = heights_to_remove@; let mut vx_j: usize = 0; while vx_j < heights_to_remove.len() invariant vx_hs == heights_to_remove@, vx_j <= vx_hs.len(), old(self).wf(), gone(*old(self), *self, vx_hs, vx_j as int) decreases heights_to_remove.len() - vx_j { let height = heights_to_remove[vx_j]; vx_j = vx_j + 1; let ghost vx_b = *self;`
//@rw `for shard_hash in shard_hashes {` => `let ghost vx_l = shard_hashes@; let mut vx_k: usize = 0; while vx_k < shard_hashes.len() invariant vx_l == shard_hashes@, vx_k <= vx_l.len(), self.values_by_height@ == vx_b.values_by_height@.remove(height), removed(vx_b, *self, vx_l, vx_k as int) decreases shard_hashes.len() - vx_k { let shard_hash = vx_take(&shard_hashes, vx_k); vx_k = vx_k + 1;`
//@start
        let ghost vx_height = height;
//@loopafter 1
        proof { lemma_done(*old(self), *self, vx_hs, vx_height); }
//@loopend 1
                proof { lemma_gone(*old(self), vx_b, *self, vx_hs, vx_j - 1); }
//@endfn
//@fn src/consensus/proposer.rs::ProposedValues::count -> r
    ensures r == self.values@.dom().len(),
//@endfn
}
} // verus!
fn main() {}
