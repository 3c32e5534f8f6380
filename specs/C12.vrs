//@include prelude.vrs
//@include errors.vrs
//@include time.vrs
//@fn src/core/util.rs::to_farcaster_time -> r
    ensures
        r is Ok <==> to_ft(time_ms as int) is Some,
        r is Ok ==> r->Ok_0 == to_ft(time_ms as int)->Some_0,
        r is Err ==> (r->Err_0).code@ == "bad_request.invalid_param"@,
//@endfn
//@fn src/core/util.rs::from_farcaster_time -> r
    requires time <= u32::MAX,
    ensures r == from_ft(time as int),
//@endfn

// milliseconds of the epoch 2021-01-01T00:00:00Z: 18628 days of 86400 s
pub open spec fn epoch_ms() -> int { 18628int * 86400 * 1000 }
pub open spec fn to_ft(ms: int) -> Option<int> {
    if ms < epoch_ms() || (ms - epoch_ms()) / 1000 > 0xffff_ffff { None } else { Some((ms - epoch_ms()) / 1000) }
}
pub open spec fn from_ft(t: int) -> int { epoch_ms() + 1000 * t }

proof fn theorem_epoch() ensures FARCASTER_EPOCH == epoch_ms() {}
proof fn theorem_roundtrip(t: int) requires 0 <= t <= 0xffff_ffff ensures to_ft(from_ft(t)) == Some(t), from_ft(t) <= u64::MAX {}
proof fn theorem_same_second(ms: int) requires to_ft(ms) is Some ensures from_ft(to_ft(ms)->Some_0) <= ms < from_ft(to_ft(ms)->Some_0) + 1000 {}
proof fn theorem_monotone(a: int, b: int) requires a <= b, to_ft(a) is Some, to_ft(b) is Some ensures to_ft(a)->Some_0 <= to_ft(b)->Some_0 {}
// Unix-second conversions are exact inverses of each other (over the contracts of the real functions)
fn theorem_unix_inverse(s: u64) requires s >= 1609459200u64 {
    let t = FarcasterTime::from_unix_seconds(s);
    let u = t.to_unix_seconds();
    assert(u == s);
}
fn theorem_unix_inverse2(t: FarcasterTime) requires t.time <= u64::MAX - 1609459200u64 {
    let u = t.to_unix_seconds();
    let v = FarcasterTime::from_unix_seconds(u);
    assert(v.time == t.time);
}
fn theorem_shift(t: FarcasterTime, n: u64) requires t.time <= u64::MAX - n {
    let a = t.incr_by(n);
    let b = a.decr_by(n);
    assert(b.time == t.time && a.time - t.time == n);
}
} // verus!
fn main() {}
