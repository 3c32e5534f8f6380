//@include prelude.vrs
//@include errors.vrs
//@include time.vrs
//@include seqs.vrs
//@include version.vrs
//@proto Message MessageType OnChainEvent FnameTransfer BlockEvent FarcasterNetwork
use proto::{Message, MessageType, MessageData, FarcasterNetwork, block_event_data};
//@include route.vrs
//@include poolroute.vrs
pub struct ReadNodeMempool { pub message_router: Box<ShardRouter>, pub num_shards: u32, pub network: FarcasterNetwork }
pub mod routing { pub use super::route_message; }
impl ReadNodeMempool {
//@fn src/mempool/mempool.rs::ReadNodeMempool::route_mempool_message -> r
    requires complete(*message), 0 < self.num_shards < u32::MAX,
    ensures exists|t: int| r@ =~= held_on(*message, self.num_shards, #[trigger] EngineVersion::at(self.network, t))
//@rw `(1..self.num_shards + 1).collect()` => `vx_range(1, self.num_shards + 1)`
//@endfn
}
proof fn theorem_one_shard(fid: u64, n: u32) requires n > 0 ensures 1 <= home_shard(fid, n) <= n {
    let h = unbe32(sha256(be32(fid as u32)).subrange(0, 4));
    assert(h % n < n);
}
// all of a user's ordinary messages share one shard; nothing ordinary ever goes to shard 0
proof fn theorem_same_user(a: Message, b: Message, n: u32, v: EngineVersion, ra: u32, rb: u32)
    requires n > 0, owner(a) == owner(b), !on_zero(kind(a), v), !on_zero(kind(b), v), ra == home_shard(owner(a), n), rb == home_shard(owner(b), n)
    ensures ra == rb, ra != 0
{ theorem_one_shard(owner(a), n); }
} // verus!
fn main() {}
