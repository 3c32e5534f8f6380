//@mount src/bootstrap/replication/service.rs
use super::*;
use crate::verif_h::support::*;
use ed25519_dalek::{Signer, SigningKey};
use prost::Message as _;
use proto::{Message, MessageData, ShardTrieEntryWithMessage};

fn digest(b: &[u8]) -> Vec<u8> { blake3::hash(b).as_bytes()[..20].to_vec() }
fn data(c: &mut Ctx) -> MessageData {
    MessageData { r#type: c.pick(&[1, 3, 5]), fid: c.int_in(1, 9), timestamp: c.int_in(1, 9) as u32, network: 1,
        body: c.pick(&[None, Some(proto::message_data::Body::CastAddBody(proto::CastAddBody { text: "hello".to_string(), ..Default::default() })),
            Some(proto::message_data::Body::LinkBody(proto::LinkBody { r#type: "follow".to_string(), ..Default::default() }))]), ..Default::default() }
}
fn spoil(c: &mut Ctx, b: &[u8]) -> Vec<u8> { let mut v = b.to_vec(); if v.is_empty() || c.p(1, 3) { if c.p(1, 2) { v.pop(); } else { v.push(0); } } else { let i = c.below(v.len() as u64) as usize; v[i] ^= 1 << c.below(8); } v }

// what a peer may send, and whether every part of it is genuine
fn entry(c: &mut Ctx, spoiled: bool) -> (Message, bool) {
    let d = data(c);
    let k = SigningKey::from_bytes(&[c.int_in(1, 5) as u8; 32]);
    let raw = d.encode_to_vec();
    let with = c.p(1, 2);
    let mut m = Message { data: Some(d.clone()), hash: digest(&raw), hash_scheme: 1, signature: vec![], signature_scheme: 1, signer: k.verifying_key().to_bytes().to_vec(), data_bytes: if with { Some(raw.clone()) } else { None } };
    m.signature = k.sign(&m.hash).to_bytes().to_vec();
    if !spoiled { return (m, true); }
    let whole = m.clone();
    match c.below(11) {
        0 => m.hash = spoil(c, &m.hash),
        1 => { m.hash = spoil(c, &m.hash); m.signature = k.sign(&m.hash).to_bytes().to_vec(); }
        2 => { let other = data(c); m.data = Some(other); }
        3 => m.data = None,
        4 => m.signature = SigningKey::from_bytes(&[9; 32]).sign(&m.hash).to_bytes().to_vec(),
        5 => { m.signer = SigningKey::from_bytes(&[9; 32]).verifying_key().to_bytes().to_vec(); }
        6 => m.signature = k.sign(b"something else").to_bytes().to_vec(),
        7 => m.signer = c.pick(&[&[][..], &[1; 31], &[2; 33], &[2; 32]]).to_vec(),
        8 => m.signature = c.pick(&[&[][..], &[1; 63], &[0; 65]]).to_vec(),
        9 => m.data_bytes = c.pick(&[Some(vec![]), Some(vec![0xff]), Some(b"not a message".to_vec())]),
        _ => { m.hash_scheme = c.pick(&[0, 2, -1]); }
    }
    let same = m == whole;
    (m, same)
}

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(1500) {
        let n = c.below(5);
        let bad = if n > 0 && c.p(2, 3) { Some(c.below(n)) } else { None };
        let mut all = true;
        let mut page: Vec<ShardTrieEntryWithMessage> = vec![];
        for i in 0..n {
            let t = if bad == Some(i) || c.p(4, 5) {
                let (m, ok) = entry(c, bad == Some(i)); all &= ok; Some(TrieMessage::UserMessage(m))
            } else { c.pick(&[None, Some(TrieMessage::OnChainEvent(proto::OnChainEvent::default())), Some(TrieMessage::FnameTransfer(proto::FnameTransfer::default()))]) };
            page.push(ShardTrieEntryWithMessage { trie_key: vec![], trie_message: t });
        }
        c.case("page from a peer", format!("{:?}", page), || same("accepted", ReplicatorBootstrap::validate_messages_signatures(&page).is_ok(), all));
    }
}
