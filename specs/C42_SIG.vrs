// What a chain says about a signature of a wallet: which questions are asked, and what their answers mean.
//@include prelude.vrs
global size_of usize == 8;
//@include strings.vrs
#[derive(Clone, Copy)] pub struct Address { pub b: [u8; 20] }
#[derive(Clone, Copy)] pub struct B32 { pub b: [u8; 32] }
pub struct Bytes { pub b: Vec<u8> }
impl Bytes { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.b@.len() == 0) { unimplemented!() } }
// bytes made of what the caller gave (Into<Bytes>)
pub uninterp spec fn raw<S>(s: S) -> Seq<u8>;
#[verifier::external_body] pub fn vx_raw<S>(s: S) -> (r: Bytes) ensures r.b@ == raw(s) { unimplemented!() }
#[verifier::external_body] pub fn vx_get4(b: &Bytes) -> (r: Option<&[u8]>) ensures (r is Some) == (b.b@.len() >= 4), r is Some ==> r->Some_0@ == b.b@.take(4) { unimplemented!() }
#[verifier::external_body] pub fn vx_is(a: Option<&[u8]>, m: &Vec<u8>) -> (r: bool) ensures r == (a is Some && a->Some_0@ == m@) { unimplemented!() }
#[verifier::external_body] pub fn vx_word(x: u32) -> (r: Vec<u8>) ensures r@ == be32(x) { unimplemented!() }
#[verifier::external_body] pub fn vx_first(b: &Bytes) -> (r: Option<u8>) ensures (r is Some) == (b.b@.len() > 0), r is Some ==> r->Some_0 == b.b@[0] { unimplemented!() }
#[verifier::external_body] pub fn vx_starts(s: &String, p: &str) -> (r: bool) ensures r == starts(s@, p@) { unimplemented!() }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
// ---- the chain (alloy: trusted): it answers or fails; a failure either carries what the chain says or does not come from it
pub struct Payload { pub message: String, pub code: i64 }
pub struct SignatureRpcError { pub said: Option<Payload> }
impl SignatureRpcError { #[verifier::external_body] pub fn as_error_resp(&self) -> (r: Option<&Payload>) ensures (r is Some) == (self.said is Some), r is Some ==> *r->Some_0 == self.said->Some_0 { unimplemented!() } }
pub enum Verification { Valid, Invalid }
impl Verification {
//@fn src/core/validations/contract_signature.rs::Verification::is_valid -> r
    ensures r == (self is Valid),
//@endfn
}
pub struct Question { pub to: Option<Address>, pub data: Ghost<Seq<u8>> }
pub struct TransactionInput { pub data: Ghost<Seq<u8>> }
impl TransactionInput { #[verifier::external_body] pub fn new(d: Vec<u8>) -> (r: TransactionInput) ensures r.data@ == d@ { unimplemented!() } }
pub struct TransactionRequest { pub to: Option<Address>, pub data: Ghost<Seq<u8>> }
impl TransactionRequest {
    #[verifier::external_body] pub fn default() -> (r: TransactionRequest) ensures r.to is None, r.data@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn to(self, a: Address) -> (r: TransactionRequest) ensures r.to == Some(a), r.data == self.data { unimplemented!() }
    #[verifier::external_body] pub fn input(self, i: TransactionInput) -> (r: TransactionRequest) ensures r.to == self.to, r.data == i.data { unimplemented!() }
}
pub trait Provider: Sized {
    spec fn code(&self, a: Address) -> Result<Bytes, SignatureRpcError>;
    spec fn answer(&self, to: Option<Address>, data: Seq<u8>) -> Result<Bytes, SignatureRpcError>;
    fn get_code_at(&self, a: Address) -> (r: Result<Bytes, SignatureRpcError>) ensures r == self.code(a);
    fn call(&self, q: TransactionRequest) -> (r: Result<Bytes, SignatureRpcError>) ensures r == self.answer(q.to, q.data@);
}
// calls as contracts read them (sol!: trusted; the harness checks the bytes)
pub uninterp spec fn abi_ask(hash: Seq<u8>, sig: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn abi_make(who: Address, hash: Seq<u8>, sig: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn validator() -> Seq<u8>;
pub mod Erc1271 { use super::*; verus! {
pub struct isValidSignatureCall { pub _hash: B32, pub _signature: Bytes }
impl isValidSignatureCall { #[verifier::external_body] pub fn abi_encode(&self) -> (r: Vec<u8>) ensures r@ == abi_ask(self._hash.b@, self._signature.b@) { unimplemented!() } }
} }
pub mod ValidateSigOffchain { use super::*; verus! {
pub struct constructorCall { pub _signer: Address, pub _hash: B32, pub _signature: Bytes }
impl constructorCall { #[verifier::external_body] pub fn abi_encode(&self) -> (r: Vec<u8>) ensures r@ == abi_make(self._signer, self._hash.b@, self._signature.b@) { unimplemented!() } }
} }
#[verifier::external_body] pub fn vx_deploy(args: Vec<u8>) -> (r: Vec<u8>) ensures r@ == validator() + args@ { unimplemented!() }
// ---- what an answer means
pub open spec fn reverted(e: SignatureRpcError) -> bool { e.said is Some && starts(e.said->Some_0.message@, "execution reverted"@) }
pub open spec fn failed(e: SignatureRpcError) -> Result<Verification, SignatureRpcError> { if reverted(e) { Ok(Verification::Invalid) } else { Err(e) } }
pub open spec fn verdict(yes: bool) -> Result<Verification, SignatureRpcError> { Ok(if yes { Verification::Valid } else { Verification::Invalid }) }
pub open spec fn magic() -> Seq<u8> { seq![0x16u8, 0x26u8, 0xbau8, 0x7eu8] }
pub open spec fn vouches<P: Provider>(p: P, who: Address, hash: Seq<u8>, sig: Seq<u8>) -> Result<Verification, SignatureRpcError> {
    match p.code(who) {
        Err(e) => Err(e),
        Ok(c) => if c.b@.len() > 0 {
            match p.answer(Some(who), abi_ask(hash, sig)) { Ok(a) => verdict(a.b@.len() >= 4 && a.b@.take(4) == magic()), Err(e) => failed(e) }
        } else {
            match p.answer(None, validator() + abi_make(who, hash, sig)) { Ok(a) => verdict(a.b@.len() > 0 && a.b@[0] == 1), Err(e) => failed(e) }
        },
    }
}
// no verdict without an answer: what is called valid, the chain answered for
proof fn theorem_valid_is_answered<P: Provider>(p: P, who: Address, hash: Seq<u8>, sig: Seq<u8>)
    requires vouches(p, who, hash, sig) == verdict(true)
    ensures p.code(who) is Ok, ({ let c = p.code(who)->Ok_0.b@.len() > 0; let a = if c { p.answer(Some(who), abi_ask(hash, sig)) } else { p.answer(None, validator() + abi_make(who, hash, sig)) };
        &&& a is Ok &&& (if c { a->Ok_0.b@.len() >= 4 && a->Ok_0.b@.take(4) == magic() } else { a->Ok_0.b@.len() > 0 && a->Ok_0.b@[0] == 1 }) }) {}
//@item src/core/validations/contract_signature.rs::SUCCESS_RESULT
//@item src/core/validations/contract_signature.rs::MAGIC_VALUE
//@fn src/core/validations/contract_signature.rs::reverts_mean_invalid -> r
    ensures r == failed(e),
//@rw `error_response.message.starts_with(` => `vx_starts(&error_response.message, `
//@endfn
//@fn src/core/validations/contract_signature.rs::verify_signature -> r
    ensures r == vouches(provider, address, message.b@, raw(signature)),
//@rw `FixedBytes<32>` => `B32`
//@rw `where S: Into<Bytes>, P: Provider,` => `where P: Provider,`
//@rw `signature.into()` => `vx_raw(signature)`
//@rw `.abi_encode().into()` => `.abi_encode()`
//@rw `deploy_bytes.into()` => `deploy_bytes`
//@rw `result.get(..4)` => `vx_get4(&result)`
//@rw `magic == Some(&MAGIC_VALUE.to_be_bytes()[..])` => `vx_is(magic, &vx_word(MAGIC_VALUE))`
//@rw `match result.first()` => `match vx_first(&result)`
//@rw `Some(&SUCCESS_RESULT) =>` => `Some(vx_b) if vx_b == SUCCESS_RESULT =>`
//@rw `VALIDATE_SIG_OFFCHAIN_BYTECODE.iter().copied().chain(call.abi_encode()).collect()` => `vx_deploy(call.abi_encode())`
//@start
    proof {
        assert((0x1626ba7eu32 >> 24) as u8 == 0x16u8 && (0x1626ba7eu32 >> 16) as u8 == 0x26u8 && (0x1626ba7eu32 >> 8) as u8 == 0xbau8 && 0x1626ba7eu32 as u8 == 0x7eu8) by(bit_vector);
        assert(be32(MAGIC_VALUE) =~= magic());
    }
//@endfn
} // verus!
fn main() {}
