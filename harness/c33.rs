//@mount src/network/replication/replicator.rs
use super::*;
use crate::verif_h::support::*;

fn set(n: usize) -> Arc<HashMap<Vec<u8>, CacheMessageEntry>> {
    Arc::new((0..n as u32).map(|i| (i.to_be_bytes().to_vec(), CacheMessageEntry::OnChainEvent(proto::OnChainEvent { fid: n as u64, ..Default::default() }))).collect())
}

pub fn run(c: &mut Ctx) {
    let limit = 100_000usize;
    let sets: Vec<_> = [0, 1, 2, 33_333, 33_334, 49_999, 50_000, 99_999, 100_001].into_iter().map(set).collect();
    let key = |c: &mut Ctx| match c.below(2) {
        0 => MessageHashCacheKey::new_for_user_message(c.pick(&[1, 2]), c.pick(&[0, 1]), c.pick(&[1, 1 << 32]), c.pick(&[proto::MessageType::CastAdd, proto::MessageType::CastRemove])),
        _ => MessageHashCacheKey::new_for_onchain_event(c.pick(&[1, 2]), c.pick(&[0, 1]), c.pick(&[1, 1 << 32]), c.pick(&[proto::OnChainEventType::EventTypeSigner, proto::OnChainEventType::EventTypeIdRegister])),
    };
    for _ in 0..c.rounds(400) {
        let statsd = StatsdClientWrapper::new(cadence::StatsdClient::builder("", cadence::NopMetricSink {}).build(), false);
        let mut m = MessageHashCache::new(statsd);
        let mut log = Vec::new();
        let few: Vec<_> = (0..c.int_in(2, 8)).map(|_| key(c)).collect();
        let small = c.p(1, 3);
        for _ in 0..c.int_in(3, 40) {
            let k = few[c.below(few.len() as u64) as usize].clone();
            // a second passes
            let moment = SystemTime::now();
            for t in m.cache_lru.values_mut() { *t -= std::time::Duration::from_secs(1); }
            if c.p(1, 3) {
                let want = m.cache.get(&k).cloned(); let others = m.cache_lru.clone(); let n = m.cache_size;
                log.push(format!("get({:?})", k));
                let l = log.clone();
                let mm = &mut m;
                c.case("get", format!("{}", l.join("; ")), || {
                    let got = mm.get(&k);
                    holds("get returns what is held", match (&got, &want) { (Some(a), Some(b)) => Arc::ptr_eq(a, b), (None, None) => true, _ => false })?;
                    same("size", mm.cache_size, n)?;
                    for (x, t) in &others { if *x != k { same("age of another entry", mm.cache_lru.get(x), Some(t))?; } else { holds("a read counts as a use", mm.cache_lru[x] >= moment)?; let _ = t; } }
                    same("entries with an age", mm.cache_lru.len(), mm.cache.len())
                });
            } else {
                let v = if small { c.pick(&sets[0..6]) } else { c.pick(&sets) };
                let mut held = m.cache.clone(); held.remove(&k); let ages = m.cache_lru.clone();
                log.push(format!("insert({:?}, {} entries)", k, v.len()));
                let l = log.clone();
                let mm = &mut m;
                c.case("insert", format!("{}", l.join("; ")), || {
                    mm.insert(k.clone(), v.clone());
                    holds("an insertion counts as a use", mm.cache_lru.get(&k).map_or(false, |t| *t >= moment))?;
                    holds("the inserted entry is held", mm.cache.get(&k).map_or(false, |x| Arc::ptr_eq(x, &v)))?;
                    let sum: usize = mm.cache.values().map(|x| x.len()).sum();
                    same("size accounting", mm.cache_size, sum)?;
                    holds("within the budget, or one entry alone", sum <= limit || mm.cache.len() == 1)?;
                    let mut a: Vec<_> = mm.cache_lru.keys().cloned().collect(); let mut b: Vec<_> = mm.cache.keys().cloned().collect();
                    a.sort_by_key(|x| format!("{:?}", x)); b.sort_by_key(|x| format!("{:?}", x));
                    same("entries with an age", a, b)?;
                    let gone: Vec<_> = held.keys().filter(|x| !mm.cache.contains_key(*x)).collect();
                    for x in mm.cache.keys() { if *x != k { holds("nothing appears", held.get(x).map_or(false, |h| Arc::ptr_eq(h, &mm.cache[x])))?; } }
                    let before: usize = held.values().map(|x| x.len()).sum();
                    if before + v.len() <= limit { holds("nothing is evicted while everything fits", gone.is_empty())?; }
                    for g in &gone { for x in mm.cache.keys() { if *x != k { holds("the least recently used go first", ages[*g] <= ages[x])?; } } }
                    if !gone.is_empty() { holds("no more is evicted than needed", gone.iter().any(|g| sum + held[*g].len() > limit))?; }
                    Ok(())
                });
            }
        }
    }
}
