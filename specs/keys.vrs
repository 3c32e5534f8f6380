//@include fid.vrs
use proto::{MessageType, CastId};
//@item src/storage/constants.rs::RootPrefix
//@item src/storage/constants.rs::UserPostfix
impl UserPostfix {
//@fn src/storage/constants.rs::UserPostfix::as_u8 -> r
    ensures r == self as u8,
//@endfn
}
//@item src/storage/store/account/message.rs::FID_BYTES
//@item src/storage/store/account/message.rs::TS_HASH_LENGTH
//@item src/storage/store/account/message.rs::HASH_LENGTH
pub open spec fn fid_key(fid: u64) -> Seq<u8> { be32(fid as u32) }
pub open spec fn user_key(fid: u64) -> Seq<u8> { seq![3u8] + fid_key(fid) }
pub open spec fn ts_hash(t: u32, h: Seq<u8>) -> Seq<u8> { be32(t) + h }
pub open spec fn opt(s: Option<&[u8; TS_HASH_LENGTH]>) -> Seq<u8> { match s { Some(x) => x@, None => Seq::empty() } }
pub open spec fn primary_key(fid: u64, set: u8, s: Seq<u8>) -> Seq<u8> { user_key(fid) + seq![set] + s }
pub open spec fn cast_id_key(c: CastId) -> Seq<u8> { fid_key(c.fid) + c.hash@ }
//@fn src/storage/store/account/message.rs::make_fid_key -> r
    ensures r@ == fid_key(fid), r@.len() == 4,
//@endfn
//@fn src/storage/store/account/message.rs::make_user_key -> r
    ensures r@ =~= user_key(fid), r@.len() == 5,
//@endfn
//@fn src/storage/store/account/message.rs::make_ts_hash -> r
    ensures r is Ok <==> hash@.len() == 20, r is Ok ==> r->Ok_0@ =~= ts_hash(timestamp, hash@),
//@endfn
//@fn src/storage/store/account/message.rs::unpack_ts_hash -> r
    ensures r.0 == unbe32(ts_hash@.take(4)), r.1@ =~= ts_hash@.skip(4),
//@endfn
//@fn src/storage/store/account/message.rs::read_fid_key -> r
    requires offset + 4 <= key@.len(), key@.len() <= usize::MAX,
    ensures r == unbe32(key@.subrange(offset as int, offset + 4)),
//@endfn
//@fn src/storage/store/account/message.rs::read_ts_hash -> r
    requires offset + 24 <= key@.len(), key@.len() <= usize::MAX,
    ensures r@ == key@.subrange(offset as int, offset + 24),
//@endfn
//@fn src/storage/store/account/message.rs::make_message_primary_key -> r
    ensures r@ =~= primary_key(fid, set, opt(ts_hash)),
//@endfn
//@fn src/storage/store/account/message.rs::make_cast_id_key -> r
    ensures r@ =~= cast_id_key(*cast_id),
//@endfn
