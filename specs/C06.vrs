// An address verification passes only with a signature by that address over a claim naming fid, address, block hash and network.
//@include prelude.vrs
//@include errors.vrs
global size_of usize == 8;
//@include strings.vrs
//@include fmt.vrs
//@include json.vrs
//@include eth.vrs
//@proto VerificationAddAddressBody VerificationRemoveBody FarcasterNetwork Protocol FnameTransfer
use proto::{FarcasterNetwork, VerificationAddAddressBody};
//@item src/core/validations/error.rs::ValidationError
//@item src/core/validations/verification.rs::VerificationAddressClaim
//@item src/core/validations/verification.rs::EIP_712_FARCASTER_VERIFICATION_CLAIM_CHAIN_IDS
#[verifier::external] impl std::fmt::Debug for ValidationError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
#[verifier::external] impl std::fmt::Debug for VerificationAddressClaim { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl VxDisp for i32 { open spec fn shown(&self) -> Seq<char> { if *self >= 0 { dec(*self as nat) } else { "-"@ + dec((-*self) as nat) } } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
// base58 text and ed25519 (bs58, ed25519_dalek: trusted)
pub uninterp spec fn b58(b: Seq<u8>) -> Seq<char>;
pub mod bs58 { use super::*; verus! {
pub struct Enc { pub b: Ghost<Seq<u8>> }
#[verifier::external_body] pub fn encode<T: VxRaw>(t: T) -> (r: Enc) ensures r.b@ == t.raw() { unimplemented!() }
impl Enc { #[verifier::external_body] pub fn into_string(self) -> (r: String) ensures r@ == b58(self.b@) { unimplemented!() } }
} }
pub uninterp spec fn on_curve(k: Seq<u8>) -> bool;
pub uninterp spec fn strict(k: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool;
pub mod ed25519_dalek { use super::*; verus! {
pub struct VerifyingKey { pub b: [u8; 32] }
pub struct Signature { pub b: [u8; 64] }
impl VerifyingKey {
    #[verifier::external_body] pub fn from_bytes(b: &[u8; 32]) -> (r: Result<VerifyingKey, SigError>) ensures (r is Ok) == on_curve(b@), r is Ok ==> r->Ok_0.b@ == b@ { unimplemented!() }
    // weak keys and malleable signatures are refused
    #[verifier::external_body] pub fn verify_strict(&self, m: &Vec<u8>, s: &Signature) -> (r: Result<(), SigError>) ensures (r is Ok) == strict(self.b@, m@, s.b@) { unimplemented!() }
}
impl Signature { #[verifier::external_body] pub fn from_bytes(b: &[u8; 64]) -> (r: Signature) ensures r.b@ == b@ { unimplemented!() } }
} }
#[verifier::external_body] pub fn vx_arr32(v: &Vec<u8>) -> (r: &[u8; 32]) requires v@.len() == 32 ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_arr64(v: &Vec<u8>) -> (r: &[u8; 64]) requires v@.len() == 64 ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == exists|i: int| #![trigger s@[i]] 0 <= i < s@.len() && s@[i].eq_spec(x);
// ---- what is signed
pub open spec fn domain_fields() -> J { push(push(push(push(arr0(), field("name"@, "string"@)), field("version"@, "string"@)), field("chainId"@, "uint256"@)), field("verifyingContract"@, "address"@)) }
pub open spec fn claim_fields() -> J { push(push(push(push(arr0(), field("fid"@, "uint256"@)), field("address"@, "address"@)), field("blockHash"@, "bytes32"@)), field("network"@, "uint8"@)) }
pub open spec fn claim_types() -> J { put(put(obj0(), "EIP712Domain"@, domain_fields()), "VerificationClaim"@, claim_fields()) }
pub open spec fn claim_domain() -> J {
    put(put(put(obj0(), "name"@, J::Str("Farcaster Verify Ethereum Address"@)), "version"@, J::Str("2.0.0"@)), "salt"@, J::Str("0xf2d857f4a3edcb9b78b4d503bfe733db1e3f6cdc2b7971ee739626c97e86a558"@))
}
pub open spec fn claim_message(fid: u64, address: Seq<u8>, block: Seq<u8>, network: int) -> J {
    put(put(put(put(obj0(), "fid"@, J::Num(fid as int)), "address"@, J::Str(hex(address))), "blockHash"@, J::Str(hex(block))), "network"@, J::Num(network))
}
pub open spec fn claim_digest(fid: u64, address: Seq<u8>, block: Seq<u8>, network: int) -> Option<Hash32> { digest_of(claim_types(), J::Str("VerificationClaim"@), claim_domain(), claim_message(fid, address, block, network)) }
pub open spec fn sol_text(fid: u64, address: Seq<u8>, block: Seq<u8>, network: i32) -> Seq<char> {
    "fid: "@ + fid.shown() + " address: "@ + b58(address) + " network: "@ + network.shown() + " blockHash: "@ + b58(block) + " protocol: "@ + 1i32.shown()
}
// the claim made by an Ethereum address, by a Solana address
pub open spec fn eth_claim(c: VerificationAddressClaim, fid: u64, address: Seq<u8>, block: Seq<u8>, network: i32) -> bool { c.fid == fid && c.address@ == hex(address) && c.block_hash@ == hex(block) && c.network == network }
pub open spec fn sol_claim(c: VerificationAddressClaim, fid: u64, address: Seq<u8>, block: Seq<u8>, network: i32) -> bool { c.fid == fid && c.address@ == b58(address) && c.block_hash@ == b58(block) && c.network == network && c.protocol == 1 }
pub open spec fn is_at(r: Option<Address>, a: Seq<u8>) -> bool { r matches Some(x) && x.b@ == a }
pub open spec fn chain_ok(c: u32) -> bool { c == 0 || c == 1 || c == 5 || c == 10 || c == 420 }
pub open spec fn ok_eth(b: VerificationAddAddressBody, fid: u64, network: FarcasterNetwork) -> bool {
    b.address@.len() == 20 && b.block_hash@.len() == 32 && b.claim_signature@.len() <= 2048 && chain_ok(b.chain_id)
        && (b.verification_type == 1 || (b.verification_type == 0 && is_at(signer(b.claim_signature@, claim_digest(fid, b.address@, b.block_hash@, network as i32 as int)), b.address@)))
}
pub open spec fn ok_sol(b: VerificationAddAddressBody, fid: u64, network: FarcasterNetwork) -> bool {
    b.address@.len() == 32 && b.block_hash@.len() == 32 && b.claim_signature@.len() == 64 && on_curve(b.address@)
        && strict(b.address@, encode_utf8(sol_text(fid, b.address@, b.block_hash@, network as i32)), b.claim_signature@)
}
pub open spec fn ok_add(b: VerificationAddAddressBody, fid: u64, network: FarcasterNetwork) -> bool { (b.protocol == 0 && ok_eth(b, fid, network)) || (b.protocol == 1 && ok_sol(b, fid, network)) }
pub open spec fn ok_remove(b: proto::VerificationRemoveBody) -> bool { (b.protocol == 0 && b.address@.len() == 20) || (b.protocol == 1 && b.address@.len() == 32) }

//@fn src/core/validations/verification.rs::eip_712_farcaster_verification_claim -> r
    ensures r@ == claim_types()
//@endfn
//@fn src/core/validations/verification.rs::address_verification_domain -> r
    ensures r@ == claim_domain()
//@endfn
//@fn src/core/validations/verification.rs::validate_eth_address -> r
    ensures (r is Ok) == (address@.len() == 20), r is Ok ==> r->Ok_0 == address
//@endfn
//@fn src/core/validations/verification.rs::validate_eth_block_hash -> r
    ensures (r is Ok) == (block_hash@.len() == 32), r is Ok ==> r->Ok_0 == block_hash
//@endfn
//@fn src/core/validations/verification.rs::validate_sol_address -> r
    ensures (r is Ok) == (address@.len() == 32), r is Ok ==> r->Ok_0 == address
//@endfn
//@fn src/core/validations/verification.rs::validate_sol_block_hash -> r
    ensures (r is Ok) == (block_hash@.len() == 32), r is Ok ==> r->Ok_0 == block_hash
//@endfn
//@fn src/core/validations/verification.rs::make_verification_address_claim -> r
    ensures protocol is Ethereum ==> (r is Ok) == (address@.len() == 20 && block_hash@.len() == 32), protocol is Solana ==> (r is Ok) == (address@.len() == 32 && block_hash@.len() == 32),
        protocol is Ethereum && r is Ok ==> eth_claim(r->Ok_0, fid, address@, block_hash@, network as i32), protocol is Solana && r is Ok ==> sol_claim(r->Ok_0, fid, address@, block_hash@, network as i32)
//@endfn
//@fn src/core/validations/verification.rs::validate_verification_eoa_signature -> r
    ensures forall|f: u64, b: Seq<u8>, n: i32| #[trigger] eth_claim(claim, f, body.address@, b, n) ==> (r is Ok) == is_at(signer(body.claim_signature@, claim_digest(f, body.address@, b, n as int)), body.address@)
//@rw `&body.claim_signature[0..64]` => `vx_part(body.claim_signature.as_slice(), 0, 64)`
//@rw `body.address.clone()` => `vx_same(&body.address)`
//@start
    proof { lemma_members(); }
    broadcast use ax_vec_eq;
//@endfn
//@fn src/core/validations/verification.rs::validate_verification_add_eth_address_signature -> r
    ensures body.address@.len() == 20 && body.block_hash@.len() == 32 ==> (r is Ok) == ok_eth(*body, fid, network)
//@start
    proof { let ids = EIP_712_FARCASTER_VERIFICATION_CLAIM_CHAIN_IDS@; assert(ids[0] == 0 && ids[1] == 1 && ids[2] == 5 && ids[3] == 10 && ids[4] == 420); }
//@endfn
//@fn src/core/validations/verification.rs::recreate_solana_claim_message -> r
    ensures forall|f: u64, a: Seq<u8>, b: Seq<u8>, n: i32| #[trigger] sol_claim(claim, f, a, b, n) ==> r@ == encode_utf8(sol_text(f, a, b, n))
//@format
//@rw `message_content.into_bytes()` => `vx_into_bytes(message_content)`
//@endfn
#[verifier::external_body] pub fn vx_into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@) { unimplemented!() }
//@fn src/core/validations/verification.rs::validate_verification_add_sol_address_signature -> r
    ensures body.address@.len() == 32 && body.block_hash@.len() == 32 ==> (r is Ok) == ok_sol(*body, fid, network)
//@rw `body.address.as_slice().try_into().unwrap()` => `vx_arr32(&body.address)`
//@rw `body.claim_signature.as_slice().try_into().unwrap()` => `vx_arr64(&body.claim_signature)`
//@endfn
//@fn src/core/validations/verification.rs::validate_add_eth_address -> r
    ensures (r is Ok) == ok_eth(*body, fid, network)
//@endfn
//@fn src/core/validations/verification.rs::validate_add_sol_address -> r
    ensures (r is Ok) == ok_sol(*body, fid, network)
//@endfn
//@fn src/core/validations/verification.rs::validate_add_address -> r
    ensures (r is Ok) == ok_add(*body, fid, network)
//@endfn
//@fn src/core/validations/verification.rs::validate_remove_eth_address -> r
    ensures (r is Ok) == (body.address@.len() == 20)
//@endfn
//@fn src/core/validations/verification.rs::validate_remove_sol_address -> r
    ensures (r is Ok) == (body.address@.len() == 32)
//@endfn
//@fn src/core/validations/verification.rs::validate_remove_address -> r
    ensures (r is Ok) == ok_remove(*body)
//@endfn
// ---- contract wallets: the answer of the chain named, over the same claim
pub open spec fn chain_domain(chain: u16) -> J { put(claim_domain(), "chainId"@, J::Num(chain as int)) }
pub trait Provider {
    // what the chain answers when asked whether the wallet made the signature
    spec fn says(&self, signature: Seq<u8>, wallet: Address, h: Hash32) -> Option<Verification>;
}
//@item src/core/validations/contract_signature.rs::Verification
pub struct RpcFailure { pub k: u8 }
pub struct Bytes { pub v: Vec<u8> }
impl Bytes { #[verifier::external_body] pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r.v@ == v@ { unimplemented!() } }
pub mod contract_signature { use super::*; verus! {
#[verifier::external_body] pub fn verify_signature<P: Provider>(s: Bytes, a: Address, h: Hash32, p: &P) -> (r: Result<Verification, RpcFailure>) ensures (r is Ok) == (p.says(s.v@, a, h) is Some), r is Ok ==> r->Ok_0 == p.says(s.v@, a, h)->Some_0 { unimplemented!() }
} }
#[verifier::external_body] pub fn vx_wallet(b: &[u8; 20]) -> (r: Address) ensures r.b == *b { unimplemented!() }
#[verifier::external_body] pub fn vx_arr20(v: Vec<u8>) -> (r: Result<[u8; 20], Vec<u8>>) ensures (r is Ok) == (v@.len() == 20), r is Ok ==> r->Ok_0@ == v@ { unimplemented!() }
pub open spec fn wallet_valid<P: Provider>(p: P, s: Seq<u8>, a: Seq<u8>, h: Option<Hash32>) -> bool { h matches Some(d) && exists|w: Address| w.b@ == a && #[trigger] p.says(s, w, d) == Some(Verification::Valid) }
//@fn src/core/validations/verification.rs::address_verification_domain_with_chain -> r
    ensures r@ == chain_domain(chain_id)
//@endfn
//@fn src/core/validations/verification.rs::validate_verification_contract_signature -> r
    ensures forall|f: u64, a: Seq<u8>, b: Seq<u8>, n: i32| #[trigger] eth_claim(claim, f, a, b, n) && body.chain_id <= 0xffff ==> (r is Ok) == wallet_valid(provider, body.claim_signature@, body.address@, digest_of(claim_types(), J::Str("VerificationClaim"@), chain_domain(body.chain_id as u16), claim_message(f, a, b, n as int)))
//@rw `body.address.clone().try_into()` => `vx_arr20(vx_same(&body.address))`
//@rw `body.claim_signature.clone()` => `vx_same(&body.claim_signature)`
//@rw `alloy_primitives::Bytes::from(` => `Bytes::from(`
//@rw `alloy_primitives::Address::from(` => `vx_wallet(`
//@start
    proof { lemma_members(); assert forall|x: Address, y: Address| #[trigger] x.b@ == #[trigger] y.b@ implies x == y by { assert(x.b =~= y.b); } }
//@endfn
// ---- username transfers: signed by the name registry (except on a development network)
pub uninterp spec fn text_of(b: Seq<u8>) -> Option<Seq<char>>;
pub struct Utf8Failure { pub k: u8 }
#[verifier::external] impl std::fmt::Debug for Utf8Failure { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
#[verifier::external_body] pub fn vx_utf8(b: &Vec<u8>) -> (r: Result<&str, Utf8Failure>) ensures (r is Ok) == (text_of(b@) is Some), r is Ok ==> r->Ok_0@ == text_of(b@)->Some_0 { unimplemented!() }
pub uninterp spec fn registry() -> Address;
#[verifier::external_body] pub fn vx_registry() -> (r: Address) ensures r == registry() { unimplemented!() }
pub open spec fn name_fields() -> J { push(push(push(arr0(), field("name"@, "string"@)), field("timestamp"@, "uint256"@)), field("owner"@, "address"@)) }
pub open spec fn name_types() -> J { put(put(obj0(), "EIP712Domain"@, domain_fields()), "UserNameProof"@, name_fields()) }
pub open spec fn name_domain() -> J {
    put(put(put(put(obj0(), "name"@, J::Str("Farcaster name verification"@)), "version"@, J::Str("1"@)), "chainId"@, J::Num(1)), "verifyingContract"@, J::Str("0xe3be01d99baa8db9905b33a3ca391238234b79d1"@))
}
pub open spec fn name_message(name: Seq<char>, timestamp: u64, owner: Seq<u8>) -> J { put(put(put(obj0(), "name"@, J::Str(name)), "timestamp"@, J::Num(timestamp as int)), "owner"@, J::Str(hex(owner))) }
pub open spec fn name_digest(p: proto::UserNameProof) -> Option<Hash32> { match text_of(p.name@) { Some(t) => digest_of(name_types(), J::Str("UserNameProof"@), name_domain(), name_message(t, p.timestamp, p.owner@)), None => None } }
//@fn src/core/validations/verification.rs::eip_712_domain -> r
    ensures r@ == name_types()
//@endfn
//@fn src/core/validations/verification.rs::name_registry_domain -> r
    ensures r@ == name_domain()
//@endfn
//@fn src/core/validations/verification.rs::validate_fname_transfer -> r
    requires transfer.proof is Some
    ensures (r is Ok) == (name_digest(transfer.proof->Some_0) is Some && (network is Devnet || signer(transfer.proof->Some_0.signature@, name_digest(transfer.proof->Some_0)) == Some(match signer_address { Some(a) => a, None => registry() })))
//@rw `std::str::from_utf8(` => `vx_utf8(`
//@rw `proof.owner.clone()` => `vx_same(&proof.owner)`
//@rw `&proof.signature[0..64]` => `vx_part(proof.signature.as_slice(), 0, 64)`
//@rw `FNAME_SIGNER_ADDRESS` => `vx_registry()`
//@start
    proof { lemma_members(); }
//@endfn
} // verus!
fn main() {}
