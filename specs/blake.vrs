// the blake3 crate by its documented behaviour (trusted): a function of the bytes fed in, 32 bytes long
pub uninterp spec fn blake3_of(b: Seq<u8>) -> Seq<u8>;
pub mod blake3 {
    use super::*;
    #[verifier::external_body] pub struct Hasher { x: u8 }
    impl View for Hasher { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    pub struct Hash(pub [u8; 32]);
    impl Hasher {
        #[verifier::external_body] pub fn new() -> (r: Hasher) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(&self) -> (r: Hash) ensures r.0@ == blake3_of(self@) { unimplemented!() }
    }
    impl Hash { pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self.0@ { &self.0 } }
}
pub open spec fn digest20(b: Seq<u8>) -> Seq<u8> { blake3_of(b).take(20) }
//@item src/storage/util.rs::BLAKE3_HASH_LEN
//@fn src/storage/util.rs::blake3_20 -> r
    ensures r@ =~= digest20(input@),
//@before `hasher.finalize()`
    assert(Seq::<u8>::empty() + input@ =~= input@);
//@endfn
