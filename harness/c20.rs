//@mount src/consensus/consensus.rs
use super::*;
use crate::core::types::{ShardId, SnapchainShard, SnapchainValidator, SnapchainValidatorSet};
use crate::verif_h::support::*;
use std::collections::BTreeSet;

fn keys() -> Vec<libp2p::identity::ed25519::PublicKey> {
    (1..=8u8).map(|i| Keypair::from(SecretKey::try_from_bytes([i; 32]).unwrap()).public()).collect()
}
fn hexed(k: &libp2p::identity::ed25519::PublicKey) -> String { hex::encode(k.to_bytes()) }

pub fn run(c: &mut Ctx) {
    let keys = keys();
    // one set: additions, membership, shard
    for _ in 0..c.rounds(3000) {
        let mut s = SnapchainValidatorSet::new(vec![]);
        let mut model: Vec<(u32, [u8; 32], u64)> = vec![];
        let mut log = vec![];
        for _ in 0..c.int_in(1, 12) {
            let (shard, k, h) = (if c.p(5, 6) { 1 } else { c.pick(&[0u32, 2]) }, c.pick(&keys), c.pick(&[0u64, 1, 7]));
            let v = SnapchainValidator::new(SnapchainShard::new(shard), k.clone(), None, h);
            let fresh = !model.iter().any(|m| m.1 == k.to_bytes()) && model.first().map_or(true, |m| m.0 == shard);
            log.push(format!("add(shard {}, {}.., height {})", shard, &hexed(&k)[..4], h));
            if fresh { model.push((shard, k.to_bytes(), h)); }
            let l = log.clone(); let (m, ks, ss) = (model.clone(), keys.clone(), &mut s);
            c.case("set", l.join("; "), || {
                same("added", ss.add(v.clone()), fresh)?;
                let mut got: Vec<_> = ss.validators.iter().map(|v| (v.shard_index, v.address.0, v.current_height)).collect(); got.sort();
                let mut want = m.clone(); want.sort();
                same("members", got, want)?;
                for v in &ss.validators { same("key", v.public_key.to_bytes(), v.address.0)?; }
                for k in &ks { same("exists", ss.exists(&crate::core::types::Address(k.to_bytes())), m.iter().any(|x| x.1 == k.to_bytes()))?; }
                same("shard", ss.shard_id(), m.first().map_or(0, |x| x.0))
            });
        }
        c.case("no members", "SnapchainValidatorSet::new([])", || same("shard", SnapchainValidatorSet::new(vec![]).shard_id(), 0));
        let turned: Vec<SnapchainValidator> = model.iter().rev().map(|m| SnapchainValidator::new(SnapchainShard::new(m.0), libp2p::identity::ed25519::PublicKey::try_from_bytes(&m.1).unwrap(), None, m.2)).collect();
        c.case("set.order", format!("{:?}", log), || same("set, however its members were added", SnapchainValidatorSet::new(turned), s.clone()));
        // built in one go, in any order of the members
        let list: Vec<SnapchainValidator> = model.iter().chain(model.iter().rev()).map(|m| SnapchainValidator::new(SnapchainShard::new(m.0), libp2p::identity::ed25519::PublicKey::try_from_bytes(&m.1).unwrap(), None, m.2)).collect();
        c.case("set.new", format!("{:?}", log), || same("set", SnapchainValidatorSet::new(list.clone()), s.clone()));
    }
    // the set of a height
    for _ in 0..c.rounds(20000) {
        let n = c.int_in(1, 6);
        let genesis = c.p(2, 3);
        let mut sets: Vec<ValidatorSetConfig> = (0..n).map(|_| {
            let ks: Vec<String> = (0..c.int_in(1, 4)).map(|_| { let k = hexed(&c.pick(&keys)); if c.p(1, 6) { k.to_uppercase() } else { k } }).collect();
            ValidatorSetConfig { effective_at: c.pick(&[0u64, 1, 5, 10, 10, 11, 1000, 1 << 32, u64::MAX - 1, u64::MAX]), validator_public_keys: ks, shard_ids: (0..c.below(4)).map(|_| c.pick(&[0u32, 1, 2, 3])).collect() }
        }).collect();
        if genesis { sets[0].effective_at = 0; sets[0].shard_ids = vec![0, 1, 2, 3]; }
        let shard = c.pick(&[0u32, 1, 2, 3]);
        let h = c.pick(&[0u64, 1, 4, 5, 6, 9, 10, 11, 999, 1000, 1001, (1 << 32) - 1, 1 << 32, u64::MAX]);
        let cfg = Config::default().with(vec![1, 2], sets.clone());
        let mut k = 0;
        for (i, s) in sets.iter().enumerate() { if s.shard_ids.contains(&shard) && s.effective_at <= h && s.effective_at > sets[k].effective_at { k = i; } }
        if genesis {
            let best = sets.iter().filter(|s| s.shard_ids.contains(&shard) && s.effective_at <= h).map(|s| s.effective_at).max().unwrap();
            k = sets.iter().position(|s| s.shard_ids.contains(&shard) && s.effective_at == best).unwrap();
        }
        c.case("height", format!("shard {} height {} sets {:?}", shard, h, sets), || {
            let got = cfg.to_stored_validator_sets(shard).get_validator_set(h);
            let g: BTreeSet<_> = got.validators.iter().map(|v| hex::encode(v.address.0)).collect();
            let w: BTreeSet<_> = sets[k].validator_public_keys.iter().map(|x| x.to_lowercase()).collect();
            same("keys", &g, &w)?;
            same("each once", got.validators.len(), w.len())?;
            for v in &got.validators { same("shard", v.shard_index, shard)?; same("from", v.current_height, sets[k].effective_at)?; same("key", hex::encode(v.public_key.to_bytes()), hex::encode(v.address.0))?; }
            Ok(())
        });
        if c.p(1, 4) {
            let mut last: std::collections::BTreeMap<u32, &ValidatorSetConfig> = Default::default();
            for s in &sets { for x in &s.shard_ids { last.insert(*x, s); } }
            let mut want: Vec<String> = last.values().flat_map(|s| s.validator_public_keys.clone()).collect(); want.sort();
            c.case("latest keys", format!("sets {:?}", sets), || { let mut g = cfg.latest_validator_public_keys(); g.sort(); same("keys", g, want.clone()) });
        }
    }
    for _ in 0..c.rounds(1000) {
        let ks: Vec<String> = (0..c.int_in(1, 4)).map(|_| hexed(&c.pick(&keys))).collect();
        let mut cfg = Config::default(); cfg.validator_addresses = Some(ks.clone());
        let (shard, h) = (c.u32(), c.u64());
        c.case("deprecated list", format!("shard {} height {} {:?}", shard, h, ks), || {
            let got = cfg.to_stored_validator_sets(shard).get_validator_set(h);
            let g: BTreeSet<_> = got.validators.iter().map(|v| hex::encode(v.address.0)).collect();
            same("keys", g, ks.iter().cloned().collect::<BTreeSet<_>>())?;
            same("shard", got.shard_id(), shard)
        });
    }
    for _ in 0..c.rounds(5000) {
        let (a, b) = (crate::proto::Height::new(c.pick(&[0, 1, 2, u32::MAX]), c.u64()), crate::proto::Height::new(c.pick(&[0, 1, 2, u32::MAX]), c.u64()));
        c.case("height order", format!("{:?} {:?}", a, b), || same("order", a.cmp(&b), (a.shard_index, a.block_number).cmp(&(b.shard_index, b.block_number))));
    }
}
