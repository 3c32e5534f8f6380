//@item src/version/version.rs::EngineVersion ord
//@item src/version/version.rs::ProtocolFeature
//@item src/version/version.rs::LATEST_PROTOCOL_VERSION

// the version that introduces each feature
pub open spec fn introduced(f: ProtocolFeature) -> int {
    match f {
        ProtocolFeature::SignerRevokeBug => 1,
        ProtocolFeature::FarcasterPro | ProtocolFeature::Basenames | ProtocolFeature::EnsValidation | ProtocolFeature::MessageLengthCheckFix
        | ProtocolFeature::UsernameShardRoutingFix | ProtocolFeature::PrimaryAddresses => 5,
        ProtocolFeature::FutureTimestampValidation => 6,
        ProtocolFeature::DependentMessagesInBulkSubmit => 7,
        ProtocolFeature::DecoupleShardZeroBlockProduction => 8,
        ProtocolFeature::WriteDataToShardZero => 9,
        ProtocolFeature::ReadDataFromShardZero | ProtocolFeature::UserProfileToken => 10,
        ProtocolFeature::StorageLending => 11,
        ProtocolFeature::EventIdBugFix => 12,
        ProtocolFeature::StorageLendingLimitFix => 13,
        ProtocolFeature::StopRevokingExistingMessages => 14,
        ProtocolFeature::IncreaseUsernameProofSizeLimit => 15,
        ProtocolFeature::GaslessSigners => 16,
        ProtocolFeature::LiveAt => 17,
        ProtocolFeature::StorageExpiryExtension2026 => 18,
        ProtocolFeature::BlockLinks => 19,
        ProtocolFeature::IncreaseEmbedLimitForAllUsers => 20,
        ProtocolFeature::ChannelRegistrations | ProtocolFeature::SortedBlockEngineEvents | ProtocolFeature::ChannelOwnershipEvents
        | ProtocolFeature::ChannelMessages | ProtocolFeature::VerificationsOnShardZero | ProtocolFeature::ChannelFollows => 21,
    }
}
// the one feature that was a bug: present in versions 1 and 3 only
pub open spec fn enabled(v: EngineVersion, f: ProtocolFeature) -> bool {
    if f == ProtocolFeature::SignerRevokeBug { v as int == 1 || v as int == 3 } else { v as int >= introduced(f) }
}
impl EngineVersion {
//@fn src/version/version.rs::EngineVersion::is_enabled -> r
    ensures r == enabled(*self, feature),
//@endfn
//@fn src/version/version.rs::EngineVersion::protocol_version -> r
    ensures r == protocol_number(*self),
//@endfn
}
pub open spec fn protocol_number(v: EngineVersion) -> u32 {
    let n = v as int;
    if n <= 4 { 1 } else if n <= 10 { (n - 3) as u32 } else if n <= 13 { 8 } else if n <= 17 { (n - 5) as u32 } else { 13 }
}
