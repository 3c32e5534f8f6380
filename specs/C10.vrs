//@include prelude.vrs
//@include errors.vrs
//@include time.vrs
//@include seqs.vrs
//@include version.vrs
//@proto FarcasterNetwork
use proto::FarcasterNetwork;
//@item src/version/version.rs::VersionSchedule
//@slice_const src/version/version.rs::ENGINE_VERSION_SCHEDULE_MAINNET VersionSchedule
//@slice_const src/version/version.rs::ENGINE_VERSION_SCHEDULE_TESTNET VersionSchedule
//@slice_const src/version/version.rs::ENGINE_VERSION_SCHEDULE_DEVNET VersionSchedule
impl EngineVersion {
//@fn src/version/version.rs::EngineVersion::version_for -> r
    requires time.time <= u64::MAX - 1609459200u64,
    ensures active(schedule_of(network), unix(*time), r),
//@rw `&ENGINE_VERSION_SCHEDULE_MAINNET` => `ENGINE_VERSION_SCHEDULE_MAINNET_vec()`
//@rw `&ENGINE_VERSION_SCHEDULE_TESTNET` => `ENGINE_VERSION_SCHEDULE_TESTNET_vec()`
//@rw `&ENGINE_VERSION_SCHEDULE_DEVNET` => `ENGINE_VERSION_SCHEDULE_DEVNET_vec()`
//@rw `schedule.iter().filter(` => `vx_filter(&schedule, `
//@before `match version`
    proof { theorem_schedules_ordered(network); assert(schedule_of(network)[0].active_at == 0); }
//@closure 0 |schedule: &VersionSchedule| -> (b: bool) requires time.time <= u64::MAX - 1609459200u64 ensures b == (schedule.active_at <= unix(*time))
//@endfn
//@fn src/version/version.rs::EngineVersion::next_version_timestamp_for -> r
    requires time.time <= u64::MAX - 1609459200u64,
    ensures next_switch(schedule_of(network), unix(*time), r),
//@rw `&ENGINE_VERSION_SCHEDULE_MAINNET` => `ENGINE_VERSION_SCHEDULE_MAINNET_vec()`
//@rw `&ENGINE_VERSION_SCHEDULE_TESTNET` => `ENGINE_VERSION_SCHEDULE_TESTNET_vec()`
//@rw `&ENGINE_VERSION_SCHEDULE_DEVNET` => `ENGINE_VERSION_SCHEDULE_DEVNET_vec()`
//@rw `schedule.iter().find(` => `vx_find(&schedule, `
//@closure 0 |schedule_entry: &VersionSchedule| -> (b: bool) requires time.time <= u64::MAX - 1609459200u64 ensures b == (schedule_entry.active_at > unix(*time))
//@closure 1 |schedule_entry: &VersionSchedule| -> (b: u64) ensures b == schedule_entry.active_at
//@endfn
//@fn src/version/version.rs::EngineVersion::channel_messages_enabled_for_snapshot -> r
    requires snapshot_timestamp <= u64::MAX - 1609459200u64,
    ensures exists|v: EngineVersion| #[trigger] active(schedule_of(network), snapshot_timestamp + 1609459200, v) && r == (v as int >= 21),
//@endfn
}
pub open spec fn unix(t: FarcasterTime) -> int { t.time + 1609459200 }
pub open spec fn schedule_of(n: FarcasterNetwork) -> Seq<VersionSchedule> {
    match n {
        FarcasterNetwork::Mainnet => ENGINE_VERSION_SCHEDULE_MAINNET_spec(),
        FarcasterNetwork::Testnet => ENGINE_VERSION_SCHEDULE_TESTNET_spec(),
        _ => ENGINE_VERSION_SCHEDULE_DEVNET_spec(),
    }
}
// v is the last scheduled version whose activation time is not later than t
pub open spec fn active(s: Seq<VersionSchedule>, t: int, v: EngineVersion) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i].version == v && s[i].active_at <= t && forall|j: int| i < j < s.len() ==> #[trigger] s[j].active_at > t
}
pub open spec fn next_switch(s: Seq<VersionSchedule>, t: int, r: Option<u64>) -> bool {
    match r {
        Some(x) => exists|i: int| 0 <= i < s.len() && x == #[trigger] s[i].active_at && x > t && forall|j: int| 0 <= j < i ==> #[trigger] s[j].active_at <= t,
        None => forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j].active_at <= t,
    }
}
pub open spec fn ordered(s: Seq<VersionSchedule>) -> bool {
    &&& s.len() > 0 && s[0].active_at == 0
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].active_at <= #[trigger] s[j].active_at && (s[i].version as int) < (s[j].version as int)
}
proof fn theorem_schedules_ordered(n: FarcasterNetwork) ensures ordered(schedule_of(n)) {}
// a function of time alone
proof fn theorem_deterministic(n: FarcasterNetwork, t: int, v: EngineVersion, w: EngineVersion)
    requires active(schedule_of(n), t, v), active(schedule_of(n), t, w) ensures v == w
{
    let s = schedule_of(n);
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].version == v && s[i].active_at <= t && forall|j: int| i < j < s.len() ==> #[trigger] s[j].active_at > t;
    let k = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].version == w && s[i].active_at <= t && forall|j: int| i < j < s.len() ==> #[trigger] s[j].active_at > t;
    assert(s[i].active_at <= t && s[k].active_at <= t);
}
// never decreasing as time passes, so a feature once on stays on
proof fn theorem_monotone(n: FarcasterNetwork, t: int, u: int, v: EngineVersion, w: EngineVersion, f: ProtocolFeature)
    requires t <= u, active(schedule_of(n), t, v), active(schedule_of(n), u, w)
    ensures v as int <= w as int, f != ProtocolFeature::SignerRevokeBug && enabled(v, f) ==> enabled(w, f)
{
    let s = schedule_of(n);
    theorem_schedules_ordered(n);
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].version == v && s[i].active_at <= t && forall|j: int| i < j < s.len() ==> #[trigger] s[j].active_at > t;
    let k = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].version == w && s[i].active_at <= u && forall|j: int| i < j < s.len() ==> #[trigger] s[j].active_at > u;
    assert(s[i].active_at <= t && s[k].active_at <= u);
    if k < i { assert(s[i].active_at > u); }
}
// nothing switches before the announced time, and something does at it
proof fn theorem_announcement(n: FarcasterNetwork, t: int, x: u64, u: int, v: EngineVersion, w: EngineVersion)
    requires next_switch(schedule_of(n), t, Some(x)), t <= u, active(schedule_of(n), t, v), active(schedule_of(n), u, w)
    ensures u < x ==> v == w, u >= x ==> (v as int) < (w as int)
{
    let s = schedule_of(n);
    theorem_schedules_ordered(n);
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].version == v && s[i].active_at <= t && forall|j: int| i < j < s.len() ==> #[trigger] s[j].active_at > t;
    let k = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].version == w && s[i].active_at <= u && forall|j: int| i < j < s.len() ==> #[trigger] s[j].active_at > u;
    let m = choose|m: int| 0 <= m < s.len() && x == #[trigger] s[m].active_at && x > t && forall|j: int| 0 <= j < m ==> #[trigger] s[j].active_at <= t;
    assert(s[i].active_at <= t && s[k].active_at <= u && s[m].active_at == x);
    assert(i < m);
    if i + 1 < m { assert(s[i + 1].active_at > t); }
    if u < x { if k > i { assert(k >= m); } theorem_monotone(n, t, u, v, w, ProtocolFeature::LiveAt); }
    else { if k < m { assert(s[m].active_at > u); } }
}
} // verus!
fn main() {}
