use super::support::*;
use std::collections::BTreeMap;
use crate::proto::UserNameProof;
use crate::storage::db::RocksDbTransactionBatch;
use crate::storage::store::account::*;
use prost::Message as _;

type M = BTreeMap<Vec<u8>, Option<Vec<u8>>>;
fn view(b: &RocksDbTransactionBatch) -> M { b.batch.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
fn idx(f: u64) -> Vec<u8> { cat(&[&[15], &be(f, 4)]) }
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(10000) {
        let (a, b) = (c.fid32() as u64, c.fid32() as u64);
        let p = UserNameProof { timestamp: c.u64(), name: c.string(&[8]).into_bytes(), owner: c.blob(&[20]), signature: c.blob(&[65]), fid: a, r#type: c.i32() };
        let old = match c.below(4) { 0 => None, 1 => Some(a), _ => Some(b) };
        let nk = make_fname_username_proof_key(&p.name);
        c.case("username.keys", format!("{:?}", p), || { same("by name", nk.clone(), cat(&[&[11], &p.name]))?; same("by fid", make_fname_username_proof_by_fid_key(a), idx(a)) });
        let mut t = RocksDbTransactionBatch::new(); let mut m = M::new();
        for _ in 0..c.below(4) { let k = match c.below(5) { 0 => idx(a), 1 => idx(b), 2 => nk.clone(), _ => c.blob(&[9]) }; let v = if c.p(1, 2) { Some(c.blob(&[3])) } else { None }; match &v { Some(v) => t.put(k.clone(), v.clone()), None => t.delete(k.clone()) } m.insert(k, v); }
        let (t0, m0) = (t.clone(), m.clone());
        c.case("username.register", format!("{:?} previous owner {:?} onto {:?}", p, old, m0), || {
            put_username_proof_transaction(&mut t, &p, old);
            let mut w = m0.clone(); w.insert(nk.clone(), Some(p.encode_to_vec())); if let Some(o) = old { w.insert(idx(o), None); } w.insert(idx(a), Some(nk.clone()));
            same("batch", view(&t), w)
        });
        c.case("username.deregister", format!("{:?} previous owner {:?} onto {:?}", p, old, m0), || {
            let mut t = t0.clone(); delete_username_proof_transaction(&mut t, &p, old);
            let mut w = m0.clone(); w.insert(nk.clone(), Some(p.encode_to_vec())); if let Some(o) = old { w.insert(idx(o), None); }
            same("batch", view(&t), w)
        });
    }
}
