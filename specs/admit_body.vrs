// What validate_message makes of the rules of the body kinds named by about(): all of them, on the signed data, and nothing else.
//@include admit.vrs
//@fn src/core/validations/message.rs::validate_message_hash -> r external
    ensures r is Ok == good_hash(hash_scheme, data_bytes@, hash@)
//@endfn
//@fn src/core/validations/message.rs::validate_signature -> r external
    ensures r is Ok == good_signature(signature_scheme, data_bytes@, signature@, signer@)
//@endfn
//@fn src/core/validations/message.rs::validate_timestamp -> r external
    ensures r is Ok == timely(message_timestamp, block_timestamp.time, engine_version)
//@endfn
//@fn src/core/validations/message.rs::validate_message -> r
    requires 600 <= block_timestamp.time <= u32::MAX
    ensures r is Ok && about(data_of(*message)->Some_0) ==> body_ok(data_of(*message)->Some_0, is_pro_user, version),
        authentic(*message) && gates(*message, current_network, is_pro_user, block_timestamp.time, version) && about(data_of(*message)->Some_0) && body_ok(data_of(*message)->Some_0, is_pro_user, version) ==> r is Ok
//@rw `message.data_bytes.as_ref().unwrap().clone()` => `vx_same(message.data_bytes.as_ref().unwrap())`
//@rw `data.clone()` => `vx_same(&data)`
//@rw `message.data.as_ref().unwrap().clone()` => `vx_same(message.data.as_ref().unwrap())`
//@rw `std::str::from_utf8(` => `vx_utf8(`
//@rw `crate::version::version::ProtocolFeature` => `ProtocolFeature`
//@closure 0 |_vx: UnknownEnumValue| -> (k: Result<FarcasterNetwork, ValidationError>) ensures k is Err
//@endfn
