// Ethereum typed data, secp256k1 recovery and hexadecimal text (alloy, hex: trusted); EIP-712 reads four members of the JSON text
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Address { pub b: [u8; 20] }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Address { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Address) -> bool { *self == *o } }
impl Address { pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.b@ { let r = self.b.to_vec(); proof { assert(r@ =~= self.b@); } r } }
#[derive(Clone, Copy)] pub struct Hash32 { pub b: [u8; 32] }
pub struct SigError { pub k: u8 }
pub struct JsonError { pub k: u8 }
#[verifier::external] impl std::fmt::Debug for SigError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
#[verifier::external] impl std::fmt::Debug for JsonError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub struct TypedData { pub k: u8 }
pub uninterp spec fn typed4(types: J, primary: J, domain: J, message: J) -> Option<TypedData>;
pub open spec fn typed(j: J) -> Option<TypedData> { typed4(get(j, "types"@), get(j, "primaryType"@), get(j, "domain"@), get(j, "message"@)) }
pub uninterp spec fn digest(t: TypedData) -> Option<Hash32>;
pub open spec fn digest_of(types: J, primary: J, domain: J, message: J) -> Option<Hash32> { match typed4(types, primary, domain, message) { Some(t) => digest(t), None => None } }
impl TypedData { #[verifier::external_body] pub fn eip712_signing_hash(&self) -> (r: Result<Hash32, SigError>) ensures (r is Ok) == (digest(*self) is Some), r is Ok ==> r->Ok_0 == digest(*self)->Some_0 { unimplemented!() } }
pub mod serde_json { use super::*; verus! {
#[verifier::external_body] pub fn from_value<T>(v: Value) -> (r: Result<TypedData, JsonError>) ensures (r is Ok) == (typed(v@) is Some), r is Ok ==> r->Ok_0 == typed(v@)->Some_0 { unimplemented!() }
} }
pub uninterp spec fn recover(rs: Seq<u8>, odd: bool, h: Hash32) -> Option<Address>;
pub mod alloy_primitives { pub use super::{Address, Signature}; }
pub struct Signature { pub rs: Ghost<Seq<u8>>, pub odd: bool }
impl Signature {
    // panics unless given 64 bytes
    #[verifier::external_body] pub fn from_bytes_and_parity(b: &[u8], odd: bool) -> (r: Signature) requires b@.len() == 64 ensures r.rs@ == b@, r.odd == odd { unimplemented!() }
    #[verifier::external_body] pub fn recover_address_from_prehash(&self, h: &Hash32) -> (r: Result<Address, SigError>)
        ensures (r is Ok) == (recover(self.rs@, self.odd, *h) is Some), r is Ok ==> r->Ok_0 == recover(self.rs@, self.odd, *h)->Some_0 { unimplemented!() }
}
// the address a 65-byte signature was made by
pub open spec fn signer(sig: Seq<u8>, h: Option<Hash32>) -> Option<Address> {
    if sig.len() != 65 { None } else { match h { None => None, Some(h) => recover(sig.take(64), sig[64] != 0x1b && sig[64] != 0, h) } }
}
#[verifier::external_body] pub fn vx_part(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
pub uninterp spec fn hex(b: Seq<u8>) -> Seq<char>;
pub broadcast axiom fn ax_hex(a: Seq<u8>, b: Seq<u8>) requires #[trigger] hex(a) == #[trigger] hex(b) ensures a == b;
pub trait VxRaw: Sized { spec fn raw(&self) -> Seq<u8>; }
impl VxRaw for Vec<u8> { open spec fn raw(&self) -> Seq<u8> { self@ } }
impl VxRaw for &Vec<u8> { open spec fn raw(&self) -> Seq<u8> { self@ } }
impl VxRaw for &[u8] { open spec fn raw(&self) -> Seq<u8> { self@ } }
pub mod hex { use super::*; verus! {
#[verifier::external_body] pub fn encode<T: VxRaw>(t: T) -> (r: String) ensures r@ == super::hex(t.raw()) { unimplemented!() }
} }
pub proof fn lemma_members()
    ensures "types"@ != "primaryType"@, "types"@ != "domain"@, "types"@ != "message"@, "primaryType"@ != "domain"@, "primaryType"@ != "message"@, "domain"@ != "message"@
{ reveal_strlit("types"); reveal_strlit("primaryType"); reveal_strlit("domain"); reveal_strlit("message");
  assert("domain"@[0] == 'd'); assert("types"@[0] == 't'); assert("message"@[0] == 'm'); assert("primaryType"@[0] == 'p'); }
pub open spec fn field(name: Seq<char>, ty: Seq<char>) -> J { put(put(obj0(), "name"@, J::Str(name)), "type"@, J::Str(ty)) }
