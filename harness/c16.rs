use super::support::*;
use crate::proto::{self, hub_event::Body, message_data, Message, MessageData, MessageType, UserNameType};
use crate::storage::trie::merkle_trie::TrieKey;
use sha2::{Digest, Sha256};

type K = Vec<u8>;
fn head(fid: u64) -> K {
    let f = be(fid, 4);
    let h = Sha256::digest(&f);
    cat(&[&[h[3]], &f]) // (x mod 256 + 1) - 1 is the last of the first four bytes
}
fn own(fid: u64, t: u8, h: &[u8]) -> K { cat(&[&head(fid), &[t.wrapping_mul(8)], h]) }
fn kind(m: &Message) -> u8 { let t = m.data.as_ref().map_or(0, |d| d.r#type); MessageType::try_from(t).map_or(0, |t| t as i32) as u8 }
fn msg_keys(m: &Message) -> Vec<K> {
    let d = m.data.as_ref().unwrap();
    let mut r = vec![own(d.fid, kind(m), &m.hash)];
    if let Some(message_data::Body::LendStorageBody(b)) = &d.body { r.push(own(b.to_fid, kind(m), &m.hash)); }
    r
}
fn chain_key(e: &proto::OnChainEvent) -> K { cat(&[&head(e.fid), &[e.r#type as u8], &e.transaction_hash, &be(e.log_index as u64, 4)]) }
fn name_key(fid: u64, n: &[u8]) -> K { let mut k = cat(&[&head(fid), &[7], n]); while k.len() < 26 { k.push(0); } k }

fn message(c: &mut Ctx) -> Message {
    let types: Vec<i32> = (0..64).filter(|i| MessageType::try_from(*i).is_ok()).collect();
    let lend = c.p(1, 3);
    let (to, fid) = (c.fid32(), c.fid32());
    let to = if c.p(1, 6) { fid } else { to };
    let ty = if lend { MessageType::LendStorage as i32 } else { c.pick(&types) };
    let body = if lend { Some(message_data::Body::LendStorageBody(proto::LendStorageBody { to_fid: to, num_units: c.below(300), unit_type: c.below(4) as i32 })) }
        else if c.p(1, 2) { Some(message_data::Body::CastAddBody(Default::default())) } else { None };
    let hash = if c.p(3, 4) { c.bytes(20) } else { c.blob(&[20]) };
    Message { data: Some(MessageData { r#type: ty, fid, timestamp: c.u32(), body, ..Default::default() }), hash, ..Default::default() }
}
fn name_proof(c: &mut Ctx) -> proto::UserNameProof {
    let n = c.pick(&[0usize, 1, 5, 16, 19, 20, 20, 21, 25, 40]);
    let name = c.alpha("abcxyz019-.", n);
    proto::UserNameProof { fid: if c.p(1, 4) { 0 } else { c.fid32() }, name: name.into_bytes(), r#type: c.pick(&[1, 1, 1, 0, 2, 3, 7]), timestamp: c.below(1 << 40), ..Default::default() }
}
fn chain(c: &mut Ctx) -> proto::OnChainEvent {
    proto::OnChainEvent { r#type: c.below(7) as i32, fid: c.fid32(), transaction_hash: if c.p(3, 4) { c.bytes(32) } else { c.blob(&[32]) }, log_index: c.u32(), tx_index: c.u32(), block_number: c.u32(), ..Default::default() }
}
fn some<T>(c: &mut Ctx, f: impl Fn(&mut Ctx) -> T) -> Option<T> { if c.p(3, 4) { Some(f(c)) } else { None } }

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(15000) {
        if c.enough() { return; }
        let m = message(c);
        c.case("TrieKey::for_message", format!("{:?}", m), || same("keys", TrieKey::for_message(&m), msg_keys(&m)));
        let e = chain(c);
        c.case("TrieKey::for_onchain_event", format!("{:?}", e), || same("key", TrieKey::for_onchain_event(&e), chain_key(&e)));
        let p = name_proof(c);
        c.case("TrieKey::for_fname", format!("fid {} name {:?}", p.fid, p.name), || {
            same("for_fname", TrieKey::for_fname(p.fid, &String::from_utf8(p.name.clone()).unwrap()), name_key(p.fid, &p.name))?;
            same("for_fid", TrieKey::for_fid(p.fid), head(p.fid))?;
            same("fid_shard", TrieKey::fid_shard(p.fid), head(p.fid)[0])
        });
        let t = c.below(32) as u8;
        c.case("TrieKey::for_message_type", format!("fid {} type {}", p.fid, t), || same("key", TrieKey::for_message_type(p.fid, t), own(p.fid, t, &[])));
        let n = c.len(&[6, 11, 12, 26, 30]); let mut k = c.bytes(n);
        if n > 5 && c.p(1, 2) { k[5] = c.pick(&[0u8, 1, 6, 7, 8, 9, 15, 16, 128, 255]); }
        c.case("TrieKey::decode", format!("{:?}", k), || {
            let r = TrieKey::decode(&k).ok();
            if k.len() < 12 { return holds("too short is refused", r.is_none()); }
            let Some(r) = r else { return Err("a key of sufficient length was refused".into()); };
            same("shard", r.virtual_shard, k[0])?;
            same("fid", be(r.fid, 8), cat(&[&[0; 4], &k[1..5]]))?;
            same("types", (r.onchain_message_type, r.message_type), if k[5] < 8 { (Some(k[5]), None) } else { (None, Some(k[5] / 8)) })?;
            same("rest", r.rest, k[6..].to_vec())
        });
        // events
        let (mut ins, mut del): (Vec<K>, Vec<K>) = (vec![], vec![]);
        let body = match c.below(9) {
            0 | 1 => { let b = proto::MergeMessageBody { message: some(c, message), deleted_messages: (0..c.below(4)).map(|_| message(c)).collect() };
                ins = b.message.iter().flat_map(msg_keys).collect(); del = b.deleted_messages.iter().flat_map(msg_keys).collect(); Body::MergeMessageBody(b) }
            2 => { let b = proto::MergeOnChainEventBody { on_chain_event: some(c, chain) }; ins = b.on_chain_event.iter().map(chain_key).collect(); Body::MergeOnChainEventBody(b) }
            3 => { let b = proto::PruneMessageBody { message: some(c, message) }; del = b.message.iter().flat_map(msg_keys).collect(); Body::PruneMessageBody(b) }
            4 => { let b = proto::RevokeMessageBody { message: some(c, message) }; del = b.message.iter().flat_map(msg_keys).collect(); Body::RevokeMessageBody(b) }
            5 => Body::MergeFailure(proto::MergeFailureBody { message: some(c, message), ..Default::default() }),
            6 => { let n = c.below(3); if n == 0 { Body::ChannelOwnerChangeHintBody(Default::default()) } else { Body::BlockConfirmedBody(Default::default()) } }
            _ => {
                let b = proto::MergeUserNameProofBody { username_proof: some(c, name_proof), deleted_username_proof: some(c, name_proof), username_proof_message: some(c, message), deleted_username_proof_message: some(c, message) };
                let fname = UserNameType::UsernameTypeFname as i32;
                ins = b.username_proof_message.iter().flat_map(msg_keys).collect(); del = b.deleted_username_proof_message.iter().flat_map(msg_keys).collect();
                if let Some(p) = &b.username_proof { if p.r#type == fname && p.fid != 0 { ins.push(name_key(p.fid, &p.name)); } }
                if let Some(p) = &b.deleted_username_proof { if p.r#type == fname { del.push(name_key(p.fid, &p.name)); } }
                Body::MergeUsernameProofBody(b)
            }
        };
        let ev = proto::HubEvent { body: Some(body), id: c.u64(), block_number: c.u64(), shard_index: c.u32(), ..Default::default() };
        c.case("TrieKey::for_hub_event", format!("{:?}", ev), || {
            let sort = |mut v: Vec<K>| { v.sort(); v };
            let (i, d) = TrieKey::for_hub_event(&ev);
            same("inserts", sort(i), sort(ins))?;
            same("deletes", sort(d), sort(del))
        });
    }
}
