pub open spec fn set_of(t: MessageType) -> Option<u8> {
    match t {
        MessageType::CastAdd | MessageType::CastRemove => Some(1u8),
        MessageType::LinkAdd | MessageType::LinkRemove => Some(2u8),
        MessageType::ReactionAdd | MessageType::ReactionRemove => Some(3u8),
        MessageType::VerificationAddEthAddress | MessageType::VerificationRemove => Some(4u8),
        MessageType::UserDataAdd => Some(6u8),
        MessageType::UsernameProof => Some(7u8),
        MessageType::LendStorage => Some(8u8),
        MessageType::ChannelUpdate => Some(9u8),
        MessageType::ChannelMember => Some(10u8),
        MessageType::ChannelPin => Some(11u8),
        MessageType::ChannelModerate => Some(12u8),
        _ => None,
    }
}
//@fn src/storage/store/account/message.rs::type_to_set_postfix -> r
    ensures r is Ok <==> set_of(message_type) is Some, r is Ok ==> r->Ok_0 as u8 == set_of(message_type)->Some_0,
//@endfn
