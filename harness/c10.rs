//@mount src/version/version.rs
use super::*;
use crate::verif_h::support::*;

// the published schedules (Unix seconds -> version number) and the feature table
const MAIN: &[(u64, u32)] = &[(0, 0), (1747333800, 1), (1747352400, 2), (1747356000, 3), (1747417200, 4), (1750093200, 5), (1752685200, 6), (1756141200, 7),
    (1756918800, 8), (1757523600, 9), (1758733200, 10), (1759942800, 11), (1759942800, 12), (1759942800, 13), (1761757200, 14), (1765386000, 15),
    (1778173200, 16), (1780592400, 17), (1782147600, 18), (1785160800, 19), (1786640400, 20)];
const TEST: &[(u64, u32)] = &[(0, 0), (1748970000, 5), (1752099060, 6), (1755291600, 7), (1755709200, 8), (1756918800, 9), (1757523600, 10), (1758733200, 11),
    (1758763200, 12), (1758906000, 13), (1761152400, 14), (1764783794, 15), (1777406400, 16), (1779382800, 17), (1781283600, 18), (1784124000, 19), (1786035600, 20)];
const DEV: &[(u64, u32)] = &[(0, 21)];
const EPOCH: u64 = 1_609_459_200;

fn table(n: FarcasterNetwork) -> &'static [(u64, u32)] { match n { FarcasterNetwork::Mainnet => MAIN, FarcasterNetwork::Testnet => TEST, _ => DEV } }
fn version_at(n: FarcasterNetwork, t: u64) -> u32 { let mut v = 0; for (a, x) in table(n) { if *a <= t { v = *x } } v }

fn features() -> Vec<(&'static str, ProtocolFeature, u32)> {
    use ProtocolFeature::*;
    vec![("FarcasterPro", FarcasterPro, 5), ("Basenames", Basenames, 5), ("EnsValidation", EnsValidation, 5), ("MessageLengthCheckFix", MessageLengthCheckFix, 5),
        ("PrimaryAddresses", PrimaryAddresses, 5), ("UsernameShardRoutingFix", UsernameShardRoutingFix, 5), ("FutureTimestampValidation", FutureTimestampValidation, 6),
        ("DependentMessagesInBulkSubmit", DependentMessagesInBulkSubmit, 7), ("DecoupleShardZeroBlockProduction", DecoupleShardZeroBlockProduction, 8),
        ("WriteDataToShardZero", WriteDataToShardZero, 9), ("ReadDataFromShardZero", ReadDataFromShardZero, 10), ("UserProfileToken", UserProfileToken, 10),
        ("StorageLending", StorageLending, 11), ("EventIdBugFix", EventIdBugFix, 12), ("StorageLendingLimitFix", StorageLendingLimitFix, 13),
        ("StopRevokingExistingMessages", StopRevokingExistingMessages, 14), ("IncreaseUsernameProofSizeLimit", IncreaseUsernameProofSizeLimit, 15),
        ("GaslessSigners", GaslessSigners, 16), ("LiveAt", LiveAt, 17), ("StorageExpiryExtension2026", StorageExpiryExtension2026, 18), ("BlockLinks", BlockLinks, 19),
        ("IncreaseEmbedLimitForAllUsers", IncreaseEmbedLimitForAllUsers, 20), ("ChannelRegistrations", ChannelRegistrations, 21),
        ("SortedBlockEngineEvents", SortedBlockEngineEvents, 21), ("ChannelOwnershipEvents", ChannelOwnershipEvents, 21), ("ChannelMessages", ChannelMessages, 21),
        ("VerificationsOnShardZero", VerificationsOnShardZero, 21), ("ChannelFollows", ChannelFollows, 21)]
}

pub fn run(c: &mut Ctx) {
    let nets = [FarcasterNetwork::None, FarcasterNetwork::Mainnet, FarcasterNetwork::Testnet, FarcasterNetwork::Devnet];
    let vs: Vec<EngineVersion> = EngineVersion::iter().collect();
    c.case("latest", "", || same("latest", EngineVersion::latest() as u32, 21));
    for v in vs {
        let n = v as u32;
        for (name, f, intro) in features() {
            c.case("is_enabled", format!("{} at V{}", name, n), || same("is_enabled", v.is_enabled(f), n >= intro));
        }
        c.case("is_enabled", format!("SignerRevokeBug at V{}", n), || same("is_enabled", v.is_enabled(ProtocolFeature::SignerRevokeBug), n == 1 || n == 3));
        let want = match n { 0..=4 => 1, 5..=10 => n - 3, 11..=13 => 8, 14..=17 => n - 5, _ => 13 };
        c.case("protocol_version", format!("V{}", n), || same("protocol_version", v.protocol_version(), want));
    }
    let mut instants: Vec<u64> = vec![EPOCH, EPOCH + 1, EPOCH + u32::MAX as u64];
    for (t, _) in MAIN.iter().chain(TEST) { for d in [-86400i64, -3600, -1, 0, 1, 3600, 86400] { instants.push((*t as i64 + d).max(EPOCH as i64) as u64) } }
    for s in [ENGINE_VERSION_SCHEDULE_MAINNET, ENGINE_VERSION_SCHEDULE_TESTNET, ENGINE_VERSION_SCHEDULE_DEVNET] { for e in s { for d in [-1i64, 0, 1] { instants.push((e.active_at as i64 + d).max(EPOCH as i64) as u64) } } }
    for _ in 0..c.rounds(20000) { let x = EPOCH + c.int_in(0, u32::MAX as u64); instants.push(x); let y = c.range(1_740_000_000, 1_790_000_000); instants.push(y); let z = c.int(); if z >= EPOCH && z < 1 << 40 { instants.push(z) } }
    for t in instants { for n in nets {
        c.case("version_for", format!("{:?} at Unix second {}", n, t), || {
            let ft = FarcasterTime::from_unix_seconds(t);
            let v = EngineVersion::version_for(&ft, n);
            same("version", v as u32, version_at(n, t))?;
            same("channel_messages_enabled_for_snapshot", EngineVersion::channel_messages_enabled_for_snapshot(t - EPOCH, n), version_at(n, t) >= 21)?;
            same("next switch", EngineVersion::next_version_timestamp_for(&ft, n), table(n).iter().map(|x| x.0).find(|x| *x > t))
        });
    } }
    for n in nets { c.case("current", format!("{:?}", n), || {
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
        let (a, v, b) = (now(), EngineVersion::current(n) as u32, now());
        holds("current version is the version of the clock's time", version_at(n, a) <= v && v <= version_at(n, b))
    }); }
}
