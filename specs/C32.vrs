// A commit certificate is accepted only with a quorum of valid signatures over exactly its height, round and value.
//@include prelude.vrs
global size_of usize == 8;
//@proto Commits Vote VoteType
use proto::{Commits, Height, ShardHash};
impl Copy for Height {}
impl Height {
//@fn proto/src/lib.rs::Height::as_u64 -> r
    ensures r == self.block_number
//@endfn
}
//@item src/core/types.rs::Address noclone
impl Clone for Address { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Address {
//@fn src/core/types.rs::Address::to_vec -> r
    ensures r@ == self.0@
//@rw `self.0.to_vec()` => `vx_bytes(&self.0)`
//@endfn
//@fn src/core/types.rs::Address::from_vec -> r
    requires vec@.len() == 32
    ensures r.0@ == vec@
//@endfn
}
#[verifier::external_body] pub fn vx_bytes(b: &[u8; 32]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
// ---- malachite (trusted): rounds, nil-or-value, certificates, the quorum threshold
#[derive(Clone, Copy)] pub struct Round { pub n: i64 }
pub open spec fn round_of(n: i64) -> i64 { if n < 0 { -1i64 } else { n } } // every negative number is the round without a value
impl Round {
    #[verifier::external_body] pub fn from(n: i64) -> (r: Round) ensures r.n == round_of(n) { unimplemented!() }
    #[verifier::external_body] pub fn as_i64(&self) -> (r: i64) ensures r == self.n { unimplemented!() }
}
pub enum NilOrVal<T> { Nil, Val(T) }
#[derive(Clone, Copy)] pub enum VoteType { Prevote = 0, Precommit = 1 }
pub struct Signature(pub Vec<u8>);
pub struct CommitSignature { pub address: Address, pub signature: Signature }
pub struct AggregatedSignature { pub signatures: Vec<CommitSignature> }
impl AggregatedSignature { pub fn new(signatures: Vec<CommitSignature>) -> (r: AggregatedSignature) ensures r.signatures == signatures { AggregatedSignature { signatures } } }
pub struct CommitCertificate { pub height: Height, pub round: Round, pub value_id: ShardHash, pub aggregated_signature: AggregatedSignature }
pub struct ThresholdParam { pub k: u8 }
pub struct ThresholdParams { pub quorum: ThresholdParam, pub honest: ThresholdParam }
impl ThresholdParams { #[verifier::external_body] pub fn default() -> (r: ThresholdParams) ensures r.quorum.k == 2, r.honest.k == 1 { unimplemented!() } }
impl ThresholdParam { #[verifier::external_body] pub fn is_met(&self, weight: u64, total: u64) -> (r: bool) ensures r == (weight as int * 3 > total as int * self.k as int) { unimplemented!() } }
// ---- Ed25519 keys (libp2p, trusted)
#[verifier::external_body] pub struct PublicKey { x: u8 }
pub struct KeyError { pub k: u8 }
#[verifier::external] impl std::fmt::Debug for KeyError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub uninterp spec fn valid_signature(key: Seq<u8>, m: Seq<u8>, sig: Seq<u8>) -> bool;
pub uninterp spec fn point(b: Seq<u8>) -> bool;
impl PublicKey {
    pub uninterp spec fn bytes(self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self.bytes(), point(self.bytes()) { unimplemented!() }
    #[verifier::external_body] pub fn try_from_bytes(b: &[u8]) -> (r: Result<PublicKey, KeyError>) ensures point(b@) ==> r is Ok, r is Ok ==> r->Ok_0.bytes() == b@ { unimplemented!() }
    #[verifier::external_body] pub fn verify(&self, m: &[u8], s: &[u8]) -> (r: bool) ensures r == valid_signature(self.bytes(), m@, s@) { unimplemented!() }
}
impl Clone for PublicKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub broadcast axiom fn ax_point(k: PublicKey) ensures point(#[trigger] k.bytes());
//@item src/core/types.rs::SnapchainValidator
//@item src/core/types.rs::SnapchainValidatorSet
#[derive(Clone, Copy)] pub struct SnapchainShard(pub u32);
//@item src/consensus/validator.rs::StoredValidatorSet
//@item src/consensus/validator.rs::StoredValidatorSets
// the set of a height, as C20 proves it is selected
pub uninterp spec fn set_at(s: StoredValidatorSets, h: u64) -> SnapchainValidatorSet;
impl StoredValidatorSets {
//@fn src/consensus/validator.rs::StoredValidatorSets::get_validator_set -> r external
    ensures r == set_at(*self, height)
//@endfn
}
// ---- votes
//@item src/core/types.rs::Vote noclone
pub uninterp spec fn encoded(v: proto::Vote) -> Seq<u8>;
impl proto::Vote { #[verifier::external_body] pub fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == encoded(*self) { unimplemented!() } }
// the vote signed for a value at a height and round; texts of different votes differ (prost encodes, trusted)
pub open spec fn is_precommit(p: proto::Vote, h: Height, round: i64, value: ShardHash, voter: Seq<u8>) -> bool {
    p.r#type == 1 && p.height == Some(h) && p.round == round && p.value == Some(value) && p.voter@ == voter
}
impl Vote {
//@fn src/core/types.rs::Vote::new_precommit -> r
    ensures r.vote_type is Precommit, r.height == height, r.round == round, r.shard_hash == value, r.voter == address
//@endfn
//@fn src/core/types.rs::Vote::to_proto -> r
    ensures r.r#type == (if self.vote_type is Prevote { 0i32 } else { 1i32 }), r.height == Some(self.height), r.round == self.round.n, r.voter@ == self.voter.0@,
        r.value == (match self.shard_hash { NilOrVal::Nil => None, NilOrVal::Val(v) => Some(v) })
//@rw `shard_hash.clone()` => `vx_same(shard_hash)`
//@endfn
//@fn src/core/types.rs::Vote::to_sign_bytes -> r
    ensures exists|p: proto::Vote| r@ == #[trigger] encoded(p) && p.r#type == (if self.vote_type is Prevote { 0i32 } else { 1i32 }) && p.height == Some(self.height) && p.round == self.round.n && p.voter@ == self.voter.0@
        && p.value == (match self.shard_hash { NilOrVal::Nil => None, NilOrVal::Val(v) => Some(v) })
//@endfn
}
// ---- certificates
pub trait VxMapRef<T>: Sized {
    spec fn vx_refs(&self) -> Seq<T>;
    fn vx_map_ref<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_refs().len() ==> f.requires((&#[trigger] self.vx_refs()[i],))
        ensures r@.len() == self.vx_refs().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self.vx_refs()[i],), #[trigger] r@[i]);
}
impl<T> VxMapRef<T> for Vec<T> {
    open spec fn vx_refs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_map_ref<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>) { unimplemented!() }
}
pub open spec fn well_formed(c: Commits) -> bool { c.height is Some && c.value is Some && forall|i: int| 0 <= i < c.signatures@.len() ==> (#[trigger] c.signatures@[i]).signer@.len() == 32 }
pub open spec fn same_signatures(a: Seq<CommitSignature>, b: Seq<proto::CommitSignature>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).address.0@ == b[i].signer@ && a[i].signature.0@ == b[i].signature@ }
impl Commits {
//@fn src/core/types.rs::<CommitsExt for Commits>::to_commit_certificate -> r
    requires well_formed(*self)
    ensures r.height == self.height->Some_0, r.round.n == round_of(self.round), r.value_id == self.value->Some_0, same_signatures(r.aggregated_signature.signatures@, self.signatures@)
//@rw `informalsystems_malachitebft_core_types::CommitCertificate<SnapchainValidatorContext>` => `CommitCertificate`
//@rw `informalsystems_malachitebft_core_types::CommitCertificate {` => `CommitCertificate {`
//@rw `self.value.clone().unwrap()` => `vx_same(&self.value).unwrap()`
//@rw `self.signatures.iter().map(` => `self.signatures.vx_map_ref(`
//@rw `commit.signer.clone()` => `vx_same(&commit.signer)`
//@rw `commit.signature.clone()` => `vx_same(&commit.signature)`
//@rw `.collect()` => ` `
//@closure 0 |commit: &proto::CommitSignature| -> (o: CommitSignature)
    requires commit.signer@.len() == 32
    ensures o.address.0@ == commit.signer@ && o.signature.0@ == commit.signature@
//@endfn
}
// ---- a list of keys read front to back: `contains` (itertools) consumes up to the first match
#[verifier::external_body] pub struct Keys { x: u8 }
impl Keys {
    pub uninterp spec fn left(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.left().len() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&mut self, x: &[u8; 32]) -> (r: bool)
        ensures r ==> exists|i: int| 0 <= i < old(self).left().len() && old(self).left()[i] == x@ && final(self).left() == #[trigger] old(self).left().skip(i + 1),
            !r ==> !old(self).left().contains(x@) { unimplemented!() }
}
pub open spec fn keys_of(v: Seq<SnapchainValidator>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].public_key.bytes()) }
#[verifier::external_body] pub fn vx_keys(v: &Vec<SnapchainValidator>) -> (r: Keys) ensures r.left() == keys_of(v@) { unimplemented!() }
// each signature by a different place of the set, places in order, over exactly this height, round and value
pub open spec fn counted(c: Commits, set: Seq<SnapchainValidator>, at: Seq<int>) -> bool {
    forall|i: int| 0 <= i < at.len() ==> 0 <= #[trigger] at[i] < set.len() && (i > 0 ==> at[i - 1] < at[i]) && set[at[i]].public_key.bytes() == c.signatures@[i].signer@ && signed(c, i)
}
pub open spec fn signed(c: Commits, i: int) -> bool {
    exists|p: proto::Vote| is_precommit(p, c.height->Some_0, round_of(c.round), c.value->Some_0, c.signatures@[i].signer@) && valid_signature(c.signatures@[i].signer@, #[trigger] encoded(p), c.signatures@[i].signature@)
}
pub open spec fn accepted(c: Commits, set: Seq<SnapchainValidator>) -> bool {
    c.signatures@.len() * 3 > set.len() * 2 && exists|at: Seq<int>| at.len() == c.signatures@.len() && #[trigger] counted(c, set, at)
}
pub open spec fn after(set: Seq<SnapchainValidator>, at: Seq<int>) -> Seq<Seq<u8>> { keys_of(set).skip(if at.len() == 0 { 0 } else { at.last() + 1 }) }
//@fn src/core/util.rs::verify_signatures -> r
    requires well_formed(*commits)
    ensures r ==> accepted(*commits, set_at(*validator_sets, commits.height->Some_0.block_number).validators@)
//@rw `validator_set.validators.iter().map(|validator| validator.public_key.to_bytes())` => `vx_keys(&validator_set.validators)`
//@rw `signature.address.clone()` => `vx_same(&signature.address)`
//@rw `certificate.value_id.clone()` => `vx_same(&certificate.value_id)`
//@rw `for signature in certificate.aggregated_signature.signatures {` => `for signature in it: certificate.aggregated_signature.signatures.iter() invariant well_formed(*commits), certificate.height == commits.height->Some_0, certificate.round.n == round_of(commits.round), certificate.value_id == commits.value->Some_0, same_signatures(certificate.aggregated_signature.signatures@, commits.signatures@), vx_at.len() == it.index@, counted(*commits, vx_set, vx_at), expected_pubkeys.left() == after(vx_set, vx_at) {`
//@start
    let ghost mut vx_at: Seq<int> = Seq::empty(); let ghost mut vx_place: int = 0;
    let ghost vx_set = set_at(*validator_sets, commits.height->Some_0.block_number).validators@;
    broadcast use ax_point;
//@loopstart 0
    let ghost vx_left = expected_pubkeys.left(); let ghost vx_base: int = if vx_at.len() == 0 { 0 } else { vx_at.last() + 1 };
//@before 0 `let vote`
    proof {
        let vx_i = choose|i: int| 0 <= i < vx_left.len() && vx_left[i] == address_bytes@ && expected_pubkeys.left() == #[trigger] vx_left.skip(i + 1);
        vx_place = vx_base + vx_i;
        ax_point(vx_set[vx_place].public_key);
        assert(vx_left[vx_i] == keys_of(vx_set)[vx_place]);
        assert(vx_left.skip(vx_i + 1) =~= keys_of(vx_set).skip(vx_place + 1));
    }
//@loopend 0
    proof {
        let vx_n = vx_at.push(vx_place);
        assert(signed(*commits, it.index@ as int));
        assert(counted(*commits, vx_set, vx_n));
        vx_at = vx_n;
    }
//@endfn
} // verus!
fn main() {}
