use super::support::*;
use std::collections::BTreeMap;
use crate::proto::{self, MessageType, message_data::Body};
use crate::storage::db::RocksDbTransactionBatch;
use crate::storage::store::account::*;
use prost::Message as _;

type M = BTreeMap<Vec<u8>, Option<Vec<u8>>>;
fn view(b: &RocksDbTransactionBatch) -> M { b.batch.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
fn ops(c: &mut Ctx, keys: &[Vec<u8>], b: &mut RocksDbTransactionBatch, m: &mut M) -> String {
    let mut log = String::new();
    for _ in 0..c.below(8) {
        let k = c.pick(keys);
        if c.p(2, 3) { let v = c.blob(&[3]); log += &format!("put {:?}={:?}; ", k, v); b.put(k.clone(), v.clone()); m.insert(k, Some(v)); } else { log += &format!("delete {:?}; ", k); b.delete(k.clone()); m.insert(k, None); }
    }
    log
}
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(6000) {
        let keys: Vec<Vec<u8>> = (0..1 + c.below(5)).map(|_| { let n = c.below(4) as usize; c.bytes(n) }).collect();
        let (mut a, mut b) = (RocksDbTransactionBatch::new(), RocksDbTransactionBatch::new());
        let (mut ma, mut mb) = (M::new(), M::new());
        let l = format!("{} | merge | {}", ops(c, &keys, &mut a, &mut ma), ops(c, &keys, &mut b, &mut mb));
        c.case("batch.put_delete", l.clone(), || { same("batch", view(&a), ma.clone())?; same("len", a.len(), ma.len())?; same("len", b.len(), mb.len()) });
        let cp = a.clone();
        c.case("batch.merge", l, || {
            let mut a = cp; a.merge(b.clone());
            let mut m = ma.clone(); for (k, v) in mb.clone() { m.insert(k, v); }
            same("merged", view(&a), m.clone())?; same("len", a.len(), m.len())
        });
    }
    let types: Vec<i32> = (0..40).filter(|i| MessageType::try_from(*i).is_ok()).collect();
    for _ in 0..c.rounds(6000) {
        let body = match c.below(3) { 0 => None, 1 => Some(Body::CastAddBody(proto::CastAddBody { text: c.string(&[3]), mentions: vec![c.fid()], ..Default::default() })), _ => Some(Body::LinkBody(proto::LinkBody { r#type: c.string(&[4]), target: None, display_timestamp: Some(c.u32()) })) };
        let data = proto::MessageData { fid: c.fid(), timestamp: c.u32(), r#type: c.pick(&types), network: c.below(3) as i32, body };
        let other = proto::MessageData { fid: c.fid(), timestamp: c.u32(), ..data.clone() };
        let bytes = match c.below(6) { 0 => None, 1 => Some(vec![]), 2 => Some(c.blob(&[5])), 3 => Some(other.encode_to_vec()), _ => Some(data.encode_to_vec()) };
        let hash = if c.p(5, 6) { c.bytes(20) } else { c.blob(&[20]) };
        let m = proto::Message { data: if c.p(9, 10) { Some(data.clone()) } else { None }, hash: hash.clone(), hash_scheme: c.i32(), signature: c.blob(&[64]), signature_scheme: c.i32(), signer: c.blob(&[32]), data_bytes: bytes.clone() };
        let raw = bytes.as_ref().map(|b| b.len() > 0).unwrap_or(false);
        let want_data = if raw { proto::MessageData::decode(bytes.as_ref().unwrap().as_slice()).ok() } else { m.data.clone() };
        c.case("message.decode", format!("{:?}", m), || { let mut x = m.clone(); message_bytes_decode(&mut x); same("decoded", x, proto::Message { data: want_data.clone(), ..m.clone() }) });
        c.case("message.roundtrip", format!("{:?}", m), || {
            let e = message_encode(&m);
            same("encoding", e.clone(), if raw { proto::Message { data: None, ..m.clone() }.encode_to_vec() } else { m.encode_to_vec() })?;
            let mut x = proto::Message::decode(e.as_slice()).map_err(|e| e.to_string())?; message_bytes_decode(&mut x);
            same("read back", x, proto::Message { data: want_data.clone(), ..m.clone() })
        });
        if m.data.is_none() { continue; }
        let mut t = RocksDbTransactionBatch::new(); let mut mt = M::new();
        for _ in 0..c.below(3) { let k = c.blob(&[30]); t.put(k.clone(), vec![1]); mt.insert(k, Some(vec![1])); }
        let set = crate::proto::MessageType::try_from(data.r#type).ok().and_then(|t| type_to_set_postfix(t).ok()).map(|p| p as u8);
        c.case("message.put_delete", format!("{:?}", m), || {
            let ok = hash.len() == 20 && set.is_some();
            let key = cat(&[&ukey(data.fid), &[set.unwrap_or(0)], &be(data.timestamp as u64, 4), &hash]);
            let mut w = mt.clone(); if ok { w.insert(key.clone(), Some(message_encode(&m))); }
            same("put ok", put_message_transaction(&mut t, &m).is_ok(), ok)?;
            same("put", view(&t), w.clone())?;
            if ok { w.insert(key, None); }
            same("delete ok", delete_message_transaction(&mut t, &m).is_ok(), ok)?;
            same("delete", view(&t), w)
        });
    }
}
