// Admission gates: network, clock skew, loan age, size, features.
//@include admit.vrs
//@fn src/core/validations/message.rs::validate_message_hash -> r external
    ensures r is Ok == good_hash(hash_scheme, data_bytes@, hash@)
//@endfn
//@fn src/core/validations/message.rs::validate_signature -> r external
    ensures r is Ok == good_signature(signature_scheme, data_bytes@, signature@, signer@)
//@endfn
//@fn src/core/validations/message.rs::validate_timestamp -> r
    requires block_timestamp.time <= u64::MAX - 600
    ensures r is Ok == timely(message_timestamp, block_timestamp.time, engine_version)
//@endfn
//@fn src/core/validations/message.rs::validate_message -> r
    requires 600 <= block_timestamp.time <= u32::MAX
    ensures r is Ok ==> gates(*message, current_network, is_pro_user, block_timestamp.time, version),
        authentic(*message) && gates(*message, current_network, is_pro_user, block_timestamp.time, version) && body_ok(data_of(*message)->Some_0, is_pro_user, version) ==> r is Ok
//@rw `message.data_bytes.as_ref().unwrap().clone()` => `vx_same(message.data_bytes.as_ref().unwrap())`
//@rw `data.clone()` => `vx_same(&data)`
//@rw `message.data.as_ref().unwrap().clone()` => `vx_same(message.data.as_ref().unwrap())`
//@rw `std::str::from_utf8(` => `vx_utf8(`
//@rw `crate::version::version::ProtocolFeature` => `ProtocolFeature`
//@closure 0 |_vx: UnknownEnumValue| -> (k: Result<FarcasterNetwork, ValidationError>) ensures k is Err
//@endfn
// ---- the gates as theorems
pub proof fn only_mainnet_messages_on_mainnet(m: proto::Message, pro: bool, now: u64, v: EngineVersion)
    requires gates(m, FarcasterNetwork::Mainnet, pro, now, v) ensures data_of(m)->Some_0.network == 1 {}
pub proof fn no_message_beyond_65536_bytes(m: proto::Message, n: FarcasterNetwork, pro: bool, now: u64, v: EngineVersion)
    requires gates(m, n, pro, now, v) ensures bytes_of(m).len() <= 65536, bytes_of(m).len() > 2048 ==> v as int >= 5 && (data_of(m)->Some_0.r#type == 14 || (pro && data_of(m)->Some_0.r#type == 1) || (v as int >= 15 && data_of(m)->Some_0.r#type == 12)) {}
pub proof fn a_channel_body_needs_its_feature(m: proto::Message, n: FarcasterNetwork, pro: bool, now: u64, v: EngineVersion)
    requires gates(m, n, pro, now, v), data_of(m)->Some_0.body matches Some(proto::message_data::Body::ChannelPinBody(_)) ensures v as int >= 21 {}
} // verus!
fn main() {}
