// Channel bodies are accepted exactly when well formed; a channel URI parses exactly when it is the canonical text of an asset.
//@include prelude.vrs
//@include errors.vrs
global size_of usize == 8;
//@include strings.vrs
//@include fmt.vrs
//@include split.vrs
//@proto ChannelUpdateBody ChannelMemberBody ChannelPinBody ChannelModerateBody FarcasterNetwork
use proto::FarcasterNetwork;
//@item src/core/validations/error.rs::ValidationError
//@item src/storage/store/account/channel_store.rs::CHANNEL_ID_LENGTH
//@item src/storage/store/account/channel_store.rs::CHANNEL_MODERATE_CAST_HASH_LENGTH
pub open spec fn opt_in(o: Option<i32>, top: i32) -> bool { o matches Some(m) ==> 0 <= m <= top }
pub open spec fn ok_update(b: proto::ChannelUpdateBody) -> bool { b.channel_id@.len() == 32 && opt_in(b.casting_mode, 3) && opt_in(b.membership_mode, 2) }
pub open spec fn ok_member(b: proto::ChannelMemberBody) -> bool { b.channel_id@.len() == 32 && 1 <= b.fid <= 0xffff_ffff && 1 <= b.action <= 6 }
pub open spec fn ok_pin(b: proto::ChannelPinBody) -> bool { b.channel_id@.len() == 32 && (b.cast_hash@.len() == 0 || b.cast_hash@.len() == 20) }
pub open spec fn ok_moderate(b: proto::ChannelModerateBody) -> bool { b.channel_id@.len() == 32 && b.cast_hash@.len() == 20 && 1 <= b.action <= 2 }
//@fn src/core/validations/message.rs::invalid_channel -> r
//@rw `crate::core::error::HubError` => `HubError`
//@endfn
//@fn src/core/validations/message.rs::validate_channel_id -> r
    ensures r is Ok <==> channel_id@.len() == 32
//@endfn
//@fn src/core/validations/message.rs::validate_channel_update_body -> r
    ensures r is Ok <==> ok_update(*body)
//@closure 0 |mode: i32| -> (k: bool) ensures k == !(0 <= mode <= 3)
//@closure 1 |mode: i32| -> (k: bool) ensures k == !(0 <= mode <= 2)
//@endfn
//@fn src/core/validations/message.rs::validate_channel_member_body -> r
    ensures r is Ok <==> ok_member(*body)
//@closure 0 |_vx: UnknownEnumValue| -> (k: ValidationError)
//@endfn
//@fn src/core/validations/message.rs::validate_channel_pin_body -> r
    ensures r is Ok <==> ok_pin(*body)
//@endfn
//@fn src/core/validations/message.rs::validate_channel_moderate_body -> r
    ensures r is Ok <==> ok_moderate(*body)
//@closure 0 |_vx: UnknownEnumValue| -> (k: ValidationError)
//@endfn

//@include uri.vrs
} // verus!
fn main() {}
