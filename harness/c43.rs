//@mount src/mempool/mempool.rs
use super::*;
use crate::proto::message_data::Body;
use crate::verif_h::support::*;

fn client() -> StatsdClientWrapper { StatsdClientWrapper::new(cadence::StatsdClient::builder("", cadence::NopMetricSink {}).build(), true) }
pub fn run(c: &mut Ctx) {
    c.case("intake.idle", "default settings", || {
        let d = RateLimitsConfig::default();
        holds("an hour's allowance is remembered for at least the hour", d.time_to_idle >= Duration::from_secs(3600))?; holds("room for many users", d.max_capacity >= 100_000)
    });
    c.case("intake.key_idle", "key additions", || {
        let k = KeyAddRateLimits::new(client()); let p = k.rate_limits_by_fid.policy();
        holds("a minute's allowance is remembered for at least the minute", p.time_to_idle().map_or(true, |t| t >= Duration::from_secs(60)) && p.time_to_live().map_or(true, |t| t >= Duration::from_secs(60)))?;
        holds("room for many users", p.max_capacity().map_or(true, |n| n >= 100_000))
    });
    for _ in 0..c.rounds(400) {
        let n = c.range(1, 40); let few = c.p(1, 2);
        let mut fids: Vec<u64> = (0..n).map(|_| if few { c.below(5) } else { c.fid() }).collect();
        // users whose numbers differ in one bit only
        if c.p(1, 2) { let f = fids[0]; let b = c.below(64); fids.push(f ^ (1u64 << b)); let b = c.below(64); fids.push(f ^ (1u64 << b)); }
        c.case("intake.key_add", format!("{:?}", fids), || {
            let k = KeyAddRateLimits::new(client()); let t = std::time::Instant::now();
            let mut seen = std::collections::HashSet::new();
            let mut got = vec![]; let mut want = vec![];
            for f in &fids { got.push(k.consume_for_fid(*f)); want.push(seen.insert(*f)); }
            // judged only if it all fell well inside a minute
            if t.elapsed() < Duration::from_secs(20) { same("key additions of each user: one a minute", got, want)?; }
            Ok(())
        });
        let f = c.fid();
        c.case("intake.key_quota", format!("{}", f), || {
            let k = KeyAddRateLimits::new(client()); k.consume_for_fid(f);
            let l = match k.rate_limits_by_fid.get(&f) { Some(l) => l, None => return Ok(()) };
            match l.check() { Ok(_) => Err("a second key addition at once".to_string()), Err(e) => { let q = e.quota(); same("one at a time", q.burst_size().get(), 1)?; holds("one a minute", q.replenish_interval() >= Duration::from_secs(60)) } }
        });
    }
    for n in [1_000u64, 70_000] {
        c.case("intake.spray", format!("{} other users", n), || {
            let k = KeyAddRateLimits::new(client()); let t = std::time::Instant::now();
            k.consume_for_fid(7);
            for f in 0..n { k.consume_for_fid(1_000 + f); }
            k.rate_limits_by_fid.run_pending_tasks();
            let again = k.consume_for_fid(7);
            if t.elapsed() < Duration::from_secs(20) { holds("a user's allowance survives those of many others", !again)?; }
            Ok(())
        });
    }
    for _ in 0..c.rounds(3000) {
        let body = match c.below(7) {
            0 => None, 1 => Some(Body::KeyAddBody(Default::default())), 2 => Some(Body::KeyRemoveBody(Default::default())), 3 => Some(Body::CastAddBody(Default::default())),
            _ => Some(Body::UserDataBody(proto::UserDataBody { r#type: if c.p(1, 2) { proto::UserDataType::LiveAt as i32 } else { c.below(20) as i32 }, value: c.string(&[3]) })),
        };
        let m = proto::Message { data: Some(proto::MessageData { body: body.clone(), timestamp: c.u32(), fid: c.fid(), r#type: c.below(20) as i32, network: 1 }), hash: c.blob(&[20]), ..Default::default() };
        c.case("intake.kind", format!("{:?}", m), || {
            same("counted as a key addition", is_key_add(&m), matches!(body, Some(Body::KeyAddBody(_))))?;
            same("counted as a heartbeat", is_live_at(&m), matches!(&body, Some(Body::UserDataBody(u)) if u.r#type == 14))
        });
    }
}
