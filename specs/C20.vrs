//@include prelude.vrs
global size_of usize == 8;
//@item src/core/types.rs::SnapchainShard noclone
impl Copy for SnapchainShard {}
impl Clone for SnapchainShard { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub trait ShardId: Sized { spec fn vx_id(self) -> u32; fn new(id: u32) -> (r: Self) ensures r.vx_id() == id; fn shard_id(&self) -> (r: u32) ensures r == (*self).vx_id(); }
impl ShardId for SnapchainShard {
    open spec fn vx_id(self) -> u32 { self.0 }
//@fn src/core/types.rs::<ShardId for SnapchainShard>::new -> r
//@nopub
//@endfn
//@fn src/core/types.rs::<ShardId for SnapchainShard>::shard_id -> r
//@nopub
//@endfn
}
//@item src/core/types.rs::Address noclone
impl Clone for Address { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// derive(PartialEq)
impl vstd::std_specs::cmp::PartialEqSpecImpl for Address { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Address) -> bool { self.0@ == o.0@ } }
impl PartialEq for Address { #[verifier::external_body] fn eq(&self, o: &Address) -> (r: bool) { unimplemented!() } }
// libp2p's Ed25519 public key: its 32 bytes (the curve check is opaque)
#[verifier::external_body] pub struct PublicKey { x: u8 }
impl PublicKey {
    pub uninterp spec fn bytes(self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self.bytes() { unimplemented!() }
}
impl Clone for PublicKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn key_of(hex: Seq<char>) -> Option<PublicKey>;
#[verifier::external_body] pub fn vx_key(hex: &String) -> (r: PublicKey) requires key_of(hex@) is Some ensures Some(r) == key_of(hex@) { unimplemented!() }
//@item src/core/types.rs::SnapchainValidator
impl SnapchainValidator {
//@fn src/core/types.rs::SnapchainValidator::new -> r
    ensures r.shard_index == shard_index.vx_id(), r.address.0@ == public_key.bytes(), r.public_key == public_key, r.rpc_address == rpc_address, r.current_height == current_height,
//@endfn
}
//@item src/core/types.rs::SnapchainValidatorSet
pub type Validators = Seq<SnapchainValidator>;
pub open spec fn member(s: Validators, a: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).address.0@ == a }
// no address twice, all of one shard
pub open spec fn proper(s: Validators) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).address.0@ != (#[trigger] s[j]).address.0@
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).shard_index == s[0].shard_index
}
// slice::sort rearranges
#[verifier::external_body] pub fn vx_sort(v: &mut Vec<SnapchainValidator>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len() { unimplemented!() }
pub fn vx_any<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|x: &T| f.requires((x,))
    ensures r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), true), !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false)
{
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|x: &T| f.requires((x,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false) decreases v.len() - i
    { if f(&v[i]) { return true; } i += 1; }
    false
}
proof fn lemma_same_members(a: Validators, b: Validators)
    requires a.to_multiset() == b.to_multiset(), a.len() == b.len()
    ensures forall|x: Seq<u8>| member(a, x) <==> member(b, x), forall|v: SnapchainValidator| a.contains(v) <==> b.contains(v), proper(a) ==> proper(b)
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|v: SnapchainValidator| a.contains(v) <==> b.contains(v) by { assert(a.to_multiset().count(v) > 0 <==> a.contains(v)); assert(b.to_multiset().count(v) > 0 <==> b.contains(v)); }
    assert forall|x: Seq<u8>| member(a, x) implies member(b, x) by { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).address.0@ == x; assert(a.contains(a[i])); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j].address.0@ == x); }
    assert forall|x: Seq<u8>| member(b, x) implies member(a, x) by { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).address.0@ == x; assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(a[j].address.0@ == x); }
    if proper(a) {
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).shard_index == b[0].shard_index by {
            assert(b.contains(b[i]) && b.contains(b[0])); let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; let l = choose|k: int| 0 <= k < a.len() && a[k] == b[0]; assert(a[k].shard_index == a[0].shard_index); assert(a[l].shard_index == a[0].shard_index);
        }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).address.0@ != (#[trigger] b[j]).address.0@ by {
            if b[i].address.0@ == b[j].address.0@ {
                assert(b.contains(b[i]) && b.contains(b[j]));
                let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; let l = choose|k: int| 0 <= k < a.len() && a[k] == b[j];
                if k != l { if k < l { assert(a[k].address.0@ != a[l].address.0@); } else { assert(a[l].address.0@ != a[k].address.0@); } }
                assert(b[i] == b[j]); lemma_twice(b, i, j); lemma_once(a, k);
            }
        }
    }
}
// an element at two places counts at least twice; one whose address is unique counts once
proof fn lemma_twice(s: Validators, i: int, j: int) requires 0 <= i < j < s.len(), s[i] == s[j] ensures s.to_multiset().count(s[i]) >= 2 {
    let v = s[i]; s.to_multiset_ensures();
    vstd::seq_lib::to_multiset_remove(s, i); assert(s.contains(v)); assert(s.to_multiset().count(v) > 0); broadcast use vstd::multiset::group_multiset_axioms; assert(s.to_multiset().remove(v).count(v) == s.to_multiset().count(v) - 1);
    s.remove(i).to_multiset_ensures();
    assert(s.remove(i)[j - 1] == v); assert(s.remove(i).contains(v));
}
proof fn lemma_once(s: Validators, i: int) requires proper(s), 0 <= i < s.len() ensures s.to_multiset().count(s[i]) == 1 {
    let v = s[i]; s.to_multiset_ensures();
    assert(s.contains(v));
    vstd::seq_lib::to_multiset_remove(s, i); assert(s.contains(v)); assert(s.to_multiset().count(v) > 0); broadcast use vstd::multiset::group_multiset_axioms; assert(s.to_multiset().remove(v).count(v) == s.to_multiset().count(v) - 1);
    s.remove(i).to_multiset_ensures();
    if s.remove(i).contains(v) { let j = choose|j: int| 0 <= j < s.remove(i).len() && s.remove(i)[j] == v; if j < i { assert(s[j] == v); } else { assert(s[j + 1] == v); } }
}
impl SnapchainValidatorSet {
    pub open spec fn all(&self) -> Validators { self.validators@ }
//@fn src/core/types.rs::SnapchainValidatorSet::exists -> r
    ensures r <==> member(self.all(), address.0@),
//@rw `self.validators.iter().any(` => `vx_any(&self.validators, `
//@closure 0 |v: &SnapchainValidator| -> (o: bool)
    ensures o == (v.address.0@ == address.0@)
//@endfn
//@fn src/core/types.rs::SnapchainValidatorSet::shard_id -> r
    ensures r == (if self.all().len() == 0 { 0 } else { self.all()[0].shard_index }),
//@endfn
//@fn src/core/types.rs::SnapchainValidatorSet::add -> r
    requires proper(old(self).all()),
    ensures proper(final(self).all()),
        r == (!member(old(self).all(), validator.address.0@) && (old(self).all().len() == 0 || old(self).all()[0].shard_index == validator.shard_index)),
        !r ==> final(self).all() == old(self).all(),
        r ==> final(self).all().to_multiset() == old(self).all().to_multiset().insert(validator),
        forall|x: Seq<u8>| #[trigger] member(final(self).all(), x) <==> member(old(self).all(), x) || r && x == validator.address.0@,
//@rw `self.validators.sort();` => `let ghost vx_u = self.validators@; vx_sort(&mut self.validators); proof { lemma_added(old(self).validators@, vx_v, vx_u); lemma_same_members(vx_u, self.validators@); }`
//@start
    let ghost vx_v = validator;
//@endfn
}
proof fn lemma_added(s: Validators, v: SnapchainValidator, u: Validators)
    requires u == s.push(v), proper(s), !member(s, v.address.0@), s.len() == 0 || s[0].shard_index == v.shard_index
    ensures proper(u), u.to_multiset() == s.to_multiset().insert(v), forall|x: Seq<u8>| #[trigger] member(u, x) <==> member(s, x) || x == v.address.0@
{
    s.to_multiset_ensures();
    assert forall|x: Seq<u8>| #[trigger] member(u, x) <==> member(s, x) || x == v.address.0@ by {
        if member(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).address.0@ == x; assert(u[i].address.0@ == x); }
        assert(u[s.len() as int].address.0@ == v.address.0@);
    }
}
#[verifier::external_body] pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
// everything in r was offered; every address offered is in r
pub open spec fn collects(l: Validators, n: int, r: Validators) -> bool {
    &&& forall|v: SnapchainValidator| #[trigger] r.contains(v) ==> exists|i: int| 0 <= i < n && #[trigger] l[i] == v
    &&& (forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).shard_index == l[0].shard_index) ==> forall|i: int| 0 <= i < n ==> member(r, (#[trigger] l[i]).address.0@)
}
proof fn lemma_collect(l: Validators, n: int, r: Validators, q: Validators, added: bool)
    requires 0 <= n < l.len(), collects(l, n, r), proper(r),
        added == (!member(r, l[n].address.0@) && (r.len() == 0 || r[0].shard_index == l[n].shard_index)),
        !added ==> q == r, added ==> q.to_multiset() == r.to_multiset().insert(l[n]),
        forall|x: Seq<u8>| #[trigger] member(q, x) <==> member(r, x) || added && x == l[n].address.0@,
    ensures collects(l, n + 1, q)
{
    broadcast use vstd::multiset::group_multiset_axioms;
    q.to_multiset_ensures(); r.to_multiset_ensures();
    assert forall|v: SnapchainValidator| #[trigger] q.contains(v) implies exists|i: int| 0 <= i < n + 1 && #[trigger] l[i] == v by {
        if added {
            assert(q.to_multiset().count(v) > 0);
            if v == l[n] { assert(l[n] == v); } else { assert(r.to_multiset().count(v) > 0); assert(r.contains(v)); let i = choose|i: int| 0 <= i < n && #[trigger] l[i] == v; assert(l[i] == v); }
        } else { assert(r.contains(v)); let i = choose|i: int| 0 <= i < n && #[trigger] l[i] == v; assert(l[i] == v); }
    }
    if forall|i: int| 0 <= i < n + 1 ==> (#[trigger] l[i]).shard_index == l[0].shard_index {
        assert forall|i: int| 0 <= i < n + 1 implies member(q, (#[trigger] l[i]).address.0@) by {
            if i < n { assert(member(r, l[i].address.0@)); } else {
                if !added { if !member(r, l[n].address.0@) { assert(r.len() > 0); assert(r.contains(r[0])); let k = choose|k: int| 0 <= k < n && #[trigger] l[k] == r[0]; assert(l[k].shard_index == l[0].shard_index); assert(l[n].shard_index == l[0].shard_index); } }
            }
        }
    }
}
impl SnapchainValidatorSet {
//@fn src/core/types.rs::SnapchainValidatorSet::new -> r
    ensures proper(r.all()), collects(validators@, validators@.len() as int, r.all()),
//@rw `for validator in validators {` => `let mut vx_i: usize = 0; while vx_i < validators.len() invariant vx_i <= validators@.len(), proper(set.all()), collects(validators@, vx_i as int, set.all()) decreases validators.len() - vx_i { let validator = vx_take(&validators, vx_i); let ghost vx_r = set.all(); vx_i = vx_i + 1;`
//@rw `set.add(validator);` => `let vx_a = set.add(validator); proof { lemma_collect(validators@, vx_i - 1, vx_r, set.all(), vx_a); }`
//@endfn
}
//@item src/consensus/consensus.rs::ValidatorSetConfig
//@item src/consensus/validator.rs::StoredValidatorSet
//@item src/consensus/validator.rs::StoredValidatorSets
pub open spec fn keys_ok(c: ValidatorSetConfig) -> bool { forall|i: int| 0 <= i < c.validator_public_keys@.len() ==> key_of((#[trigger] c.validator_public_keys@[i])@) is Some }
pub open spec fn configured(c: ValidatorSetConfig, n: int, x: Seq<u8>) -> bool { exists|i: int| 0 <= i < n && key_of((#[trigger] c.validator_public_keys@[i])@)->Some_0.bytes() == x }
impl StoredValidatorSet {
    // the set of a configuration: its keys, each once, for the shard and from the height it names
    pub open spec fn of(&self, shard: u32, c: ValidatorSetConfig) -> bool {
        &&& proper(self.validators.all()) && self.effective_at == c.effective_at && self.shard_ids@ == c.shard_ids@
        &&& forall|x: Seq<u8>| #[trigger] member(self.validators.all(), x) <==> configured(c, c.validator_public_keys@.len() as int, x)
        &&& forall|i: int| 0 <= i < self.validators.all().len() ==> (#[trigger] self.validators.all()[i]).shard_index == shard
    }
//@fn src/consensus/validator.rs::StoredValidatorSet::new -> r
    requires keys_ok(*config),
    ensures r.of(shard_id.vx_id(), *config),
//@loops 1
//@loop 0
        invariant keys_ok(*config), building(validators.all(), *config, vx_i0 as int, shard_id.vx_id()),
//@loopstart 0
            let ghost vx_r = validators.all();
//@rw `PublicKey::try_from_bytes(&hex::decode(address).unwrap()).unwrap()` => `vx_key(address)`
//@rw `validators.add(validator);` => `let ghost vx_v = validator; let vx_a = validators.add(validator); proof { lemma_build(vx_r, validators.all(), *config, vx_i0 as int, shard_id.vx_id(), vx_v, vx_a); }`
//@after `let mut validators = SnapchainValidatorSet::new(vec![]);`
    proof { if validators.all().len() > 0 { assert(validators.all().contains(validators.all()[0])); } }
//@endfn
}
pub open spec fn building(s: Validators, c: ValidatorSetConfig, n: int, shard: u32) -> bool {
    &&& proper(s)
    &&& forall|x: Seq<u8>| #[trigger] member(s, x) <==> configured(c, n, x)
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).shard_index == shard
}
proof fn lemma_build(r: Validators, q: Validators, c: ValidatorSetConfig, n: int, shard: u32, v: SnapchainValidator, added: bool)
    requires building(r, c, n, shard), 0 <= n < c.validator_public_keys@.len(), v.shard_index == shard, v.address.0@ == key_of(c.validator_public_keys@[n]@)->Some_0.bytes(), proper(q),
        added == (!member(r, v.address.0@) && (r.len() == 0 || r[0].shard_index == v.shard_index)),
        !added ==> q == r, added ==> q.to_multiset() == r.to_multiset().insert(v),
        forall|x: Seq<u8>| #[trigger] member(q, x) <==> member(r, x) || added && x == v.address.0@,
    ensures building(q, c, n + 1, shard)
{
    broadcast use vstd::multiset::group_multiset_axioms;
    q.to_multiset_ensures(); r.to_multiset_ensures();
    assert forall|x: Seq<u8>| #[trigger] member(q, x) <==> configured(c, n + 1, x) by {
        if configured(c, n, x) { let i = choose|i: int| 0 <= i < n && key_of((#[trigger] c.validator_public_keys@[i])@)->Some_0.bytes() == x; assert(key_of(c.validator_public_keys@[i]@)->Some_0.bytes() == x); }
        if configured(c, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && key_of((#[trigger] c.validator_public_keys@[i])@)->Some_0.bytes() == x; if i < n { assert(configured(c, n, x)); } }
        if x == v.address.0@ { assert(key_of(c.validator_public_keys@[n]@)->Some_0.bytes() == x); if r.len() > 0 { assert(r[0].shard_index == shard); } }
    }
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).shard_index == shard by {
        assert(q.contains(q[i])); assert(q.to_multiset().count(q[i]) > 0);
        if q[i] != v { assert(r.to_multiset().count(q[i]) > 0); assert(r.contains(q[i])); let j = choose|j: int| 0 <= j < r.len() && r[j] == q[i]; assert(r[j].shard_index == shard); }
    }
}
// the set of a height: the first with the latest start among those of the shard that have started, the first one failing that
pub open spec fn applies(c: StoredValidatorSet, shard: u32, h: u64) -> bool { c.shard_ids@.contains(shard) && c.effective_at <= h }
pub open spec fn selects(s: Seq<StoredValidatorSet>, n: int, shard: u32, h: u64, k: int) -> bool {
    &&& 0 <= k < s.len() && (k == 0 || k < n && applies(s[k], shard, h) && s[k].effective_at > s[0].effective_at)
    &&& forall|j: int| 0 <= j < n && applies(#[trigger] s[j], shard, h) ==> s[j].effective_at <= s[k].effective_at
    &&& forall|j: int| 0 <= j < k && applies(#[trigger] s[j], shard, h) ==> s[j].effective_at < s[k].effective_at
}
// with a genesis set first, the set used covers the shard, has started, and no set of the shard that has started starts later
proof fn theorem_selected(s: Seq<StoredValidatorSet>, shard: u32, h: u64, k: int)
    requires selects(s, s.len() as int, shard, h, k), s[0].effective_at == 0, s[0].shard_ids@.contains(shard)
    ensures applies(s[k], shard, h), forall|j: int| 0 <= j < s.len() && applies(#[trigger] s[j], shard, h) ==> s[j].effective_at <= s[k].effective_at
{ }
// so two nodes with the same list agree: the choice is unique
proof fn theorem_unique(s: Seq<StoredValidatorSet>, shard: u32, h: u64, k: int, l: int)
    requires selects(s, s.len() as int, shard, h, k), selects(s, s.len() as int, shard, h, l), s[0].effective_at == 0, s[0].shard_ids@.contains(shard)
    ensures k == l
{ assert(applies(s[0], shard, h)); assert(applies(s[k], shard, h)); assert(applies(s[l], shard, h)); }
#[verifier::external_body] pub fn vx_contains(v: &Vec<u32>, x: &u32) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
impl StoredValidatorSets {
//@fn src/consensus/validator.rs::StoredValidatorSets::new -> r
    ensures r.shard_id == shard_id, r.sets == sets,
//@endfn
//@fn src/consensus/validator.rs::StoredValidatorSets::get_validator_set -> r
    requires self.sets@.len() > 0,
    ensures exists|k: int| #[trigger] selects(self.sets@, self.sets@.len() as int, self.shard_id, height, k) && r == self.sets@[k].validators,
//@rw `config.shard_ids.contains(&self.shard_id)` => `vx_contains(&config.shard_ids, &self.shard_id)`
//@start
    let ghost mut vx_k: int = 0;
//@loops 1
//@loop 0
        invariant self.sets@.len() > 0, *result == self.sets@[vx_k], selects(self.sets@, vx_i0 as int, self.shard_id, height, vx_k),
//@after `result = config;`
                proof { vx_k = vx_i0 as int; }
//@endfn
}
#[verifier::external_body] pub struct Duration { x: u8 }
//@item src/consensus/consensus.rs::Config noclone
#[verifier::external_body] pub fn vx_to_vec<T>(s: &Vec<T>) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
pub fn vx_map<T, U, F: Fn(&T) -> U>(v: &Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((&v@[i],), #[trigger] r@[i])
{
    let mut r: Vec<U> = Vec::new();
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), r@.len() == i, forall|j: int| 0 <= j < v@.len() ==> f.requires((&#[trigger] v@[j],)), forall|j: int| 0 <= j < i ==> f.ensures((&v@[j],), #[trigger] r@[j]) decreases v.len() - i
    { r.push(f(&v[i])); i += 1; }
    r
}
impl Config {
    // the list of sets, or the deprecated single list of keys for whichever shard asks; neither is a startup error
    pub open spec fn configured(&self) -> bool { match self.validator_sets { Some(s) => s@.len() > 0, None => self.validator_addresses is Some && self.validator_addresses->Some_0@.len() > 0 } }
    pub open spec fn sets_for(&self, shard: u32, r: Seq<ValidatorSetConfig>) -> bool {
        match self.validator_sets {
            Some(s) => r == s@,
            None => r.len() == 1 && r[0].effective_at == 0 && r[0].validator_public_keys@ =~= self.validator_addresses->Some_0@ && r[0].shard_ids@ =~= seq![shard],
        }
    }
//@fn src/consensus/consensus.rs::Config::get_validator_set_config -> r
    requires self.configured(),
    ensures self.sets_for(shard_id, r@), r@.len() > 0,
//@rw `sets.to_vec()` => `vx_to_vec(sets)`
//@rw `addresses.clone()` => `vx_to_vec(addresses)`
//@endfn
//@fn src/consensus/consensus.rs::Config::to_stored_validator_sets -> r
    requires self.configured(), forall|r: Seq<ValidatorSetConfig>, i: int| self.sets_for(shard_id, r) && 0 <= i < r.len() ==> keys_ok(#[trigger] r[i]),
    ensures r.shard_id == shard_id, exists|c: Seq<ValidatorSetConfig>| #[trigger] self.sets_for(shard_id, c) && r.sets@.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] r.sets@[i]).of(shard_id, c[i]),
//@rw `validator_set_config.iter().map(` => `vx_map(&validator_set_config, `
//@rw `.collect()` => ``
//@closure 0 |config: &ValidatorSetConfig| -> (o: StoredValidatorSet)
    requires keys_ok(*config) ensures o.of(shard_id, *config)
//@endfn
}
} // verus!
fn main() {}
