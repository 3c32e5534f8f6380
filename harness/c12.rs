use super::support::*;
use crate::core::types::FARCASTER_EPOCH;
use crate::core::util::*;

const E: u64 = 1_609_459_200_000;
fn ft(ms: u64) -> Option<u64> { let x = ms.checked_sub(E)? / 1000; if x > u32::MAX as u64 { None } else { Some(x) } }

pub fn run(c: &mut Ctx) {
    c.case("epoch", "", || same("FARCASTER_EPOCH", FARCASTER_EPOCH, E));
    for _ in 0..c.rounds(60000) {
        let ms = match c.below(6) { 0 => c.int(), 1 => E.wrapping_add(c.below(3000)).wrapping_sub(1500), 2 => E + (u32::MAX as u64) * 1000 + c.below(4000) - 1000, 3 => E + c.below(1 << 40), 4 => E + c.int_in(0, u32::MAX as u64) * 1000 + c.pick(&[0, 1, 499, 500, 501, 999]), _ => E + c.u64() % (1 << 43) };
        c.case("to_farcaster_time", format!("{}", ms), || {
            let r = to_farcaster_time(ms);
            same("to_farcaster_time", r.clone().ok(), ft(ms))?;
            if let Err(e) = &r { same("error code", e.code.as_str(), "bad_request.invalid_param")?; }
            if let Ok(t) = r { let b = from_farcaster_time(t); holds("back gives the same second", b <= ms && ms - b < 1000)?; same("round trip", to_farcaster_time(b).ok(), Some(t))?; }
            Ok(())
        });
        let t = c.int_in(0, u32::MAX as u64);
        c.case("from_farcaster_time", format!("{}", t), || same("from", from_farcaster_time(t), t * 1000 + E));
        let s = c.int_in(E / 1000, u64::MAX / 2);
        let n = c.int_in(0, u64::MAX / 4);
        c.case("FarcasterTime", format!("unix {} shift {}", s, n), || {
            let f = FarcasterTime::from_unix_seconds(s);
            same("to_u64", f.to_u64(), s - E / 1000)?;
            same("unix inverse", f.to_unix_seconds(), s)?;
            same("incr", f.incr_by(n).to_u64(), s - E / 1000 + n)?;
            if n <= f.to_u64() { same("decr", f.decr_by(n).to_u64(), f.to_u64() - n)?; }
            same("new", FarcasterTime::new(n).to_u64(), n)?;
            same("shift back", f.incr_by(n).decr_by(n), f.clone())?;
            let x: u64 = f.clone().into(); same("into", x, s - E / 1000)?;
            same("order", f.cmp(&FarcasterTime::new(n)), (s - E / 1000).cmp(&n))
        });
    }
    c.case("current", "", || {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
        let a = FarcasterTime::current().to_unix_seconds();
        let b = get_farcaster_time().map_err(|e| e.message)? + E / 1000;
        holds("current time", a >= now && a <= now + 5 && b >= now && b <= now + 5)
    });
}
