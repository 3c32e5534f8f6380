//@mount src/network/server.rs
use super::*;
use crate::verif_h::support::*;

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(2500) {
        let klen = c.pick(&[0usize, 20, 32, 33]); let key = c.bytes(klen);
        let fid = c.u64();
        let body = match c.below(5) {
            0 => None,
            1 => Some(Body::IdRegisterEventBody(Default::default())),
            _ => Some(Body::SignerEventBody(proto::SignerEventBody { key: key.clone(), key_type: c.u32(), event_type: c.pick(&[0, 1, 2, 3]), metadata: c.bytes(3), metadata_type: c.u32() })),
        };
        let e = OnChainEvent { fid, block_timestamp: c.u64(), block_number: c.u32(), body, ..Default::default() };
        c.case("on-chain signer", format!("{:?}", e), || {
            let s = signer_from_onchain_event(&e);
            let (k, kt) = match &e.body { Some(Body::SignerEventBody(b)) => (b.key.clone(), b.key_type), _ => (vec![], 0) };
            same("signer", s, Signer { source: SignerSource::Onchain as i32, key: k, key_type: kt, fid, added_at: Some(e.block_timestamp), last_used_at: None, ttl: None, expires_at: None, scopes: vec![], request_fid: None, nonce: None, onchain_event: Some(e.clone()) })
        });
        let n = c.int_in(0, 4);
        let add = proto::KeyAddBody { key: key.clone(), key_type: c.u32(), scopes: (0..n).map(|_| c.i32()).collect(), ttl: c.pick(&[0u32, 1, 60, 7_776_000, u32::MAX]), nonce: c.pick(&[0, 1, 7, u32::MAX]), ..Default::default() };
        let ts = c.pick(&[0u32, 1, 150_000_000, u32::MAX]);
        let kind = c.below(6);
        let data = |b| Some(proto::MessageData { timestamp: ts, fid: fid ^ 1, body: b, ..Default::default() });
        let m = match kind {
            0 => None,
            1 => Some(proto::Message { data: if n % 2 == 0 { None } else { data(None) }, ..Default::default() }),
            2 => Some(proto::Message { data: data(Some(message_data::Body::KeyRemoveBody(Default::default()))), ..Default::default() }),
            _ => Some(proto::Message { data: data(Some(message_data::Body::KeyAddBody(add.clone()))), ..Default::default() }),
        };
        let rec = GaslessKeyRecord { message: m, request_fid: c.u64(), ..Default::default() };
        let public = c.bytes(32);
        let used = c.pick(&[None, Some(0u64), Some(1), Some(150_000_000), Some(u32::MAX as u64)]);
        c.case("gasless signer", format!("{:?} key {:?} fid {} used {:?}", rec, public, fid, used), || {
            let got = signer_from_gasless_record(&rec, &public, fid, used);
            let want = if kind < 3 { None } else {
                Some(Signer { source: SignerSource::Offchain as i32, key: public.clone(), key_type: add.key_type, fid, added_at: Some(ts as u64 + 1_609_459_200), last_used_at: used.map(|u| u + 1_609_459_200), ttl: Some(add.ttl),
                    expires_at: used.filter(|_| add.ttl > 0).map(|u| u + 1_609_459_200 + add.ttl as u64), scopes: add.scopes.clone(), request_fid: Some(rec.request_fid), nonce: Some(add.nonce), onchain_event: None })
            };
            same("signer", got, want)
        });
        if c.enough() { return; }
    }
}
