//@include fid.vrs
pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_sha256(b: [u8; 4]) -> (r: [u8; 32]) ensures r@ == sha256(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_four(b: &[u8]) -> (r: [u8; 4]) requires b@.len() == 4 ensures r@ == b@ { unimplemented!() }
pub trait MessageRouter {
    spec fn routes(&self, fid: u64, n: u32) -> u32;
    fn route_fid(&self, fid: u64, num_shards: u32) -> (r: u32) requires num_shards > 0 ensures r == self.routes(fid, num_shards);
}
pub struct ShardRouter {}
// shard 1..=n, from the first four bytes of the SHA-256 of the 32-bit big-endian fid
pub open spec fn home_shard(fid: u64, n: u32) -> u32 { (unbe32(sha256(be32(fid as u32)).subrange(0, 4)) % n + 1) as u32 }
impl MessageRouter for ShardRouter {
    open spec fn routes(&self, fid: u64, n: u32) -> u32 { home_shard(fid, n) }
//@fn src/mempool/routing.rs::ShardRouter::route_fid -> r
    ensures
        1 <= r <= num_shards,
//@rw `Sha256::digest(` => `vx_sha256(`
//@rw `hash[..4].try_into().unwrap()` => `vx_four(&hash[..4])`
//@nopub
//@endfn
}
