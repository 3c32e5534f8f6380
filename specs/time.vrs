//@item src/core/types.rs::FARCASTER_EPOCH
//@item src/core/util.rs::FarcasterTime
impl FarcasterTime {
//@fn src/core/util.rs::FarcasterTime::new -> r
    ensures r.time == time,
//@endfn
//@fn src/core/util.rs::FarcasterTime::from_unix_seconds -> r
    requires time >= 1609459200u64,
    ensures r.time == time - 1609459200,
//@endfn
//@fn src/core/util.rs::FarcasterTime::to_unix_seconds -> r
    requires self.time <= u64::MAX - 1609459200u64,
    ensures r == self.time + 1609459200,
//@endfn
//@fn src/core/util.rs::FarcasterTime::to_u64 -> r
    ensures r == self.time,
//@endfn
//@fn src/core/util.rs::FarcasterTime::incr_by -> r
    requires self.time <= u64::MAX - secs,
    ensures r.time == self.time + secs,
//@endfn
//@fn src/core/util.rs::FarcasterTime::decr_by -> r
    requires self.time >= secs,
    ensures r.time == self.time - secs,
//@endfn
}
