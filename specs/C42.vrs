// What a chain says about a name or a wallet is asked as the standards prescribe and believed only as they prescribe.
//@include prelude.vrs
global size_of usize == 8;
//@include strings.vrs
//@include split.vrs
//@proto VerificationAddAddressBody
use proto::VerificationAddAddressBody;
// ---- Keccak and the two wrappers of bytes (alloy: trusted)
pub uninterp spec fn kec(b: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn ax_kec(b: Seq<u8>) ensures (#[trigger] kec(b)).len() == 32;
#[derive(Clone, Copy)] pub struct B256 { pub b: [u8; 32] }
pub open spec fn zeros() -> Seq<u8> { Seq::new(32, |i: int| 0u8) }
#[verifier::external_body] pub fn vx_zero() -> (r: B256) ensures r.b@ == zeros() { unimplemented!() }
pub struct Keccak256 { pub fed: Ghost<Seq<u8>> }
impl Keccak256 {
    #[verifier::external_body] pub fn new() -> (r: Keccak256) ensures r.fed@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).fed@ == old(self).fed@ + b@ { unimplemented!() }
    // finalize_into panics unless the place has 32 bytes
    #[verifier::external_body] pub fn vx_into<const N: usize>(self, a: &mut [u8; N], lo: usize, hi: usize) requires lo <= hi <= N, hi - lo == 32 ensures final(a)@ == old(a)@.take(lo as int) + kec(self.fed@) + old(a)@.skip(hi as int) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_first32(a: &[u8; 64]) -> (r: B256) ensures r.b@ == a@.take(32) { unimplemented!() }
#[verifier::external_body] pub fn vx_whole(a: &[u8; 64]) -> (r: &[u8]) ensures r@ == a@ { unimplemented!() }
// ---- texts
pub open spec fn without(s: Seq<char>, c: char) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s[0] == c { without(s.drop_first(), c) } else { seq![s[0]] + without(s.drop_first(), c) }
}
proof fn lemma_without(s: Seq<char>, c: char) requires !has_char(s, c) ensures without(s, c) == s decreases s.len() {
    if s.len() > 0 {
        assert(s[0] != c);
        assert(!has_char(s.drop_first(), c)) by { if has_char(s.drop_first(), c) { let i = choose|i: int| 0 <= i < s.drop_first().len() && #[trigger] s.drop_first()[i] == c; assert(s[i + 1] == c); } }
        lemma_without(s.drop_first(), c);
        assert(seq![s[0]] + s.drop_first() =~= s);
    } else { assert(without(s, c) =~= s); }
}
pub struct VxText { pub t: String }
impl VxText {
    #[verifier::external_body] pub fn owned(t: String) -> (r: VxText) ensures r.t@ == t@ { unimplemented!() }
    #[verifier::external_body] pub fn borrowed(t: &str) -> (r: VxText) ensures r.t@ == t@ { unimplemented!() }
    // str::rsplit: the pieces between the separators, last first
    #[verifier::external_body] pub fn vx_rsplit(&self, c: char) -> (r: Vec<String>)
        ensures r@.len() >= 1, joined(pieces(r@), c) == self.t@, forall|i: int| 0 <= i < r@.len() ==> !has_char(#[trigger] r@[i]@, c) { unimplemented!() }
}
pub open spec fn pieces(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[v.len() - 1 - i]@) }
#[verifier::external_body] pub fn vx_has(s: &str, c: char) -> (r: bool) ensures r == has_char(s@, c) { unimplemented!() }
#[verifier::external_body] pub fn vx_drop(s: &str, c: char) -> (r: String) ensures r@ == without(s@, c) { unimplemented!() }
#[verifier::external_body] pub fn vx_none(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
// ---- EIP-137: a name is its labels, the node of a name the hash of the node above and the hash of its first label
pub open spec fn node(p: Seq<Seq<char>>) -> Seq<u8> decreases p.len() { if p.len() == 0 { zeros() } else { kec(node(p.drop_first()) + kec(encode_utf8(p[0]))) } }
pub open spec fn labels(p: Seq<Seq<char>>, s: Seq<char>) -> bool { p.len() >= 1 && joined(p, '.') == s && forall|i: int| 0 <= i < p.len() ==> !has_char(#[trigger] p[i], '.') }
pub open spec fn ens(s: Seq<char>, h: Seq<u8>) -> bool { if s.len() == 0 { h == zeros() } else { exists|p: Seq<Seq<char>>| #[trigger] labels(p, without(s, '\u{fe0f}')) && h == node(p) } }
proof fn lemma_node_len(p: Seq<Seq<char>>) ensures node(p).len() == 32 { broadcast use ax_kec; }
// every name has one node
proof fn lemma_one_split(p: Seq<Seq<char>>, q: Seq<Seq<char>>, s: Seq<char>) requires labels(p, s), labels(q, s) ensures p == q decreases p.len() {
    if p.len() == 1 { lemma_split_last(q, s, '.'); assert(p =~= q); }
    else {
        assert(joined(p, '.') == p[0] + seq!['.'] + joined(p.drop_first(), '.'));
        lemma_split_more(q, p[0], joined(p.drop_first(), '.'), '.');
        assert forall|i: int| 0 <= i < p.drop_first().len() implies !has_char(#[trigger] p.drop_first()[i], '.') by { assert(p.drop_first()[i] == p[i + 1]); }
        lemma_one_split(p.drop_first(), q.drop_first(), joined(p.drop_first(), '.'));
        assert(p =~= seq![p[0]] + p.drop_first()); assert(q =~= seq![q[0]] + q.drop_first());
    }
}
proof fn theorem_one_node(s: Seq<char>, g: Seq<u8>, h: Seq<u8>) requires ens(s, g), ens(s, h) ensures g == h {
    if s.len() > 0 {
        let p = choose|p: Seq<Seq<char>>| #[trigger] labels(p, without(s, '\u{fe0f}')) && g == node(p);
        let q = choose|p: Seq<Seq<char>>| #[trigger] labels(p, without(s, '\u{fe0f}')) && h == node(p);
        lemma_one_split(p, q, without(s, '\u{fe0f}'));
    }
}
proof fn theorem_subname(p: Seq<Seq<char>>, label: Seq<char>) ensures node(seq![label] + p) == kec(node(p) + kec(encode_utf8(label))) { assert((seq![label] + p).drop_first() =~= p); }
//@fn src/connectors/onchain_events/ens.rs::namehash -> r
    ensures ens(name@, r.b@),
//@rw `B256::ZERO` => `vx_zero()`
//@rw `name.is_empty()` => `vx_none(name)`
//@rw `name.contains(VARIATION_SELECTOR)` => `vx_has(name, VARIATION_SELECTOR)`
//@rw `name.replace(VARIATION_SELECTOR, "")` => `vx_drop(name, VARIATION_SELECTOR)`
//@rw `Cow::Owned(` => `VxText::owned(`
//@rw `Cow::Borrowed(` => `VxText::borrowed(`
//@rw `name.rsplit('.')` => `vx_p.iter()`
//@rw `[0u8; 64];` => `[0u8; 64]; let vx_p = name.vx_rsplit('.');`
//@rw `label_hasher.finalize_into(&mut buffer[32..])` => `label_hasher.vx_into(&mut buffer, 32, 64)`
//@rw `buffer_hasher.finalize_into(&mut buffer[..32])` => `buffer_hasher.vx_into(&mut buffer, 0, 32)`
//@rw `buffer.as_slice()` => `vx_whole(&buffer)`
//@rw `buffer[..32].try_into().unwrap()` => `vx_first32(&buffer)`
//@start
    broadcast use ax_kec;
    let ghost vx_s = name@;
    proof { if !has_char(vx_s, '\u{fe0f}') { lemma_without(vx_s, '\u{fe0f}'); } }
//@loops 1
//@loop 0 it
    invariant buffer@.take(32) == node(pieces(vx_p@).skip(vx_p@.len() - it.index@)), vx_p@.len() >= 1, labels(pieces(vx_p@), name.t@), forall|b: Seq<u8>| (#[trigger] kec(b)).len() == 32,
//@loopstart 0
    let ghost vx_b = buffer@; let ghost vx_n = pieces(vx_p@).skip(vx_p@.len() - it.index@);
//@loopend 0
    proof {
        let w = pieces(vx_p@).skip(vx_p@.len() - it.index@ - 1);
        assert(w[0] == label@); assert(w.drop_first() =~= vx_n);
        assert(buffer@.take(32) == node(w));
    }
//@loopafter 0
    proof { assert(pieces(vx_p@).skip(0) =~= pieces(vx_p@)); assert(buffer@.take(32) == node(pieces(vx_p@))); assert(name.t@ == without(vx_s, '\u{fe0f}')); }
//@endfn
// ---- resolution: the contracts answer or fail (alloy: trusted)
#[derive(Clone, Copy, PartialEq, Eq)] pub struct Address { pub b: [u8; 20] }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Address { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Address) -> bool { *self == *o } }
pub uninterp spec fn nobody() -> Address;
#[verifier::external_body] pub fn vx_nobody() -> (r: Address) ensures r == nobody() { unimplemented!() }
pub struct AlloyError { pub k: u8 }
pub enum EnsError { Resolver(AlloyError), ResolverNotFound(String), Resolve(AlloyError) }
pub struct RootProvider { pub k: Ghost<int> }
impl RootProvider { #[verifier::external_body] pub fn clone(&self) -> (r: RootProvider) ensures r == *self { unimplemented!() } }
// what the contract at an address says to resolver(node), and to addr(node)
pub uninterp spec fn resolver_of(p: RootProvider, at: Address, n: Seq<u8>) -> Result<Address, AlloyError>;
pub uninterp spec fn address_of(p: RootProvider, at: Address, n: Seq<u8>) -> Result<Address, AlloyError>;
pub struct Call { pub r: Ghost<Result<Address, AlloyError>> }
impl Call { #[verifier::external_body] pub fn call(self) -> (r: Result<Address, AlloyError>) ensures r == self.r@ { unimplemented!() } }
pub struct EnsRegistry { pub at: Address, pub p: RootProvider }
impl EnsRegistry {
    #[verifier::external_body] pub fn new(at: Address, p: RootProvider) -> (r: EnsRegistry) ensures r.at == at, r.p == p { unimplemented!() }
    #[verifier::external_body] pub fn resolver(&self, n: B256) -> (r: Call) ensures r.r@ == resolver_of(self.p, self.at, n.b@) { unimplemented!() }
}
pub struct EnsResolverInstance { pub at: Address, pub p: RootProvider }
impl EnsResolverInstance {
    #[verifier::external_body] pub fn new(at: Address, p: RootProvider) -> (r: EnsResolverInstance) ensures r.at == at, r.p == p { unimplemented!() }
    #[verifier::external_body] pub fn addr(&self, n: B256) -> (r: Call) ensures r.r@ == address_of(self.p, self.at, n.b@) { unimplemented!() }
}
pub struct RealL1Client { pub provider: RootProvider, pub ens_resolver_address: Option<Address> }
// a name resolves to what the resolver its registry names says, and to nothing else
pub open spec fn resolved(me: RealL1Client, n: Seq<u8>, r: Result<Address, EnsError>) -> bool {
    match me.ens_resolver_address {
        None => r is Err && r->Err_0 is ResolverNotFound,
        Some(at) => match resolver_of(me.provider, at, n) {
            Err(e) => r == Err::<Address, EnsError>(EnsError::Resolver(e)),
            Ok(x) => if x == nobody() { r is Err && r->Err_0 is ResolverNotFound } else {
                match address_of(me.provider, x, n) { Err(e) => r == Err::<Address, EnsError>(EnsError::Resolve(e)), Ok(a) => r == Ok::<Address, EnsError>(a) }
            },
        },
    }
}
impl RealL1Client {
//@fn src/connectors/onchain_events/mod.rs::<ChainAPI for RealL1Client>::resolve_ens_name -> r
    ensures exists|n: Seq<u8>| #[trigger] ens(name@, n) && resolved(*self, n, r),
//@rw `.map_err(EnsError::Resolver)` => `.map_err(|e: AlloyError| -> (o: EnsError) ensures o == EnsError::Resolver(e) { EnsError::Resolver(e) })`
//@rw `.map_err(EnsError::Resolve)` => `.map_err(|e: AlloyError| -> (o: EnsError) ensures o == EnsError::Resolve(e) { EnsError::Resolve(e) })`
//@rw `.inspect_err(|e| { warn!("Failed to resolve ens name {name}: {}", e); })` => ``
//@rw `Address::ZERO` => `vx_nobody()`
//@rw `name.to_string()` => `name`
//@endfn
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Chain { EthMainnet, BaseMainnet, OptimismMainnet }
impl Chain {
//@fn src/connectors/onchain_events/mod.rs::Chain::from_chain_id -> r
    ensures r == (if chain_id == 1 { Some(Chain::EthMainnet) } else if chain_id == 10 { Some(Chain::OptimismMainnet) } else if chain_id == 8453 { Some(Chain::BaseMainnet) } else { None::<Chain> }),
//@endfn
}
} // verus!
fn main() {}
