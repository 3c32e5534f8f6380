//@mount src/core/validations/message.rs
use super::*;
use crate::verif_h::support::*;
use ed25519_dalek::{Signer, SigningKey};
use proto::message_data::Body;
use strum::IntoEnumIterator;

fn digest(b: &[u8]) -> Vec<u8> { blake3::hash(b).as_bytes()[..20].to_vec() }
fn key(c: &mut Ctx) -> SigningKey { let b: Vec<u8> = (0..32).map(|_| c.u64() as u8).collect(); SigningKey::from_bytes(&b.try_into().unwrap()) }
// the order of the group, little-endian
const L: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
fn plus_order(sig: &mut Vec<u8>) { let mut carry = 0u16; for i in 0..32 { let t = sig[32 + i] as u16 + L[i] as u16 + carry; sig[32 + i] = t as u8; carry = t >> 8; } }
// a valid signature in the strict sense: the trusted library, on explicitly sized inputs
fn valid(signer: &[u8], m: &[u8], sig: &[u8]) -> bool {
    if signer.len() != 32 || sig.len() != 64 { return false; }
    let k: [u8; 32] = signer.try_into().unwrap();
    let s: [u8; 64] = sig.try_into().unwrap();
    match ed25519_dalek::VerifyingKey::from_bytes(&k) { Ok(k) => k.verify_strict(m, &ed25519_dalek::Signature::from_bytes(&s)).is_ok(), Err(_) => false }
}
fn flip(c: &mut Ctx, b: &mut Vec<u8>) { if !b.is_empty() { let i = c.below(b.len() as u64) as usize; b[i] ^= 1 << c.below(8); } }
fn spoil(c: &mut Ctx, b: &Vec<u8>) -> Vec<u8> {
    let mut v = b.clone();
    match c.below(9) {
        0 => v.clear(),
        1 => { v.pop(); }
        2 => { let x = c.u8(); v.push(x) }
        3 => v.resize(32, 0),
        4 => { let n = v.len(); v.extend(vec![0; n]) }
        5 => { v.reverse() }
        6 => { if !v.is_empty() { let n = v.len(); v[n - 1] ^= 1 } }
        _ => flip(c, &mut v),
    }
    v
}
// a body that is either fine or not, whatever the version and tier
fn body(c: &mut Ctx, good: bool) -> (i32, Option<Body>) {
    match c.below(if good { 7 } else { 6 }) {
        0 => { let n = if good { 20 } else { c.pick(&[0usize, 19, 21, 32]) }; (2, Some(Body::CastRemoveBody(proto::CastRemoveBody { target_hash: c.bytes(n) }))) }
        1 => (5, Some(Body::LinkBody(proto::LinkBody { r#type: if good { "follow".into() } else { c.pick(&["".to_string(), "too-long-a-kind".into()]) }, display_timestamp: None, target: Some(proto::link_body::Target::TargetFid(1 + c.below(1000))) }))),
        2 => (11, Some(Body::UserDataBody(UserDataBody { r#type: if good { 2 } else { c.pick(&[0, 77]) }, value: "name".into() }))),
        3 => (3, Some(Body::ReactionBody(proto::ReactionBody { r#type: if good { 1 } else { 9 }, target: Some(proto::reaction_body::Target::TargetUrl("https://x".into())) }))),
        4 => (13, Some(Body::FrameActionBody(FrameActionBody { url: b"u".to_vec(), button_index: if good { 5 } else { 6 }, ..Default::default() }))),
        5 => (17, Some(Body::KeyRemoveBody(proto::KeyRemoveBody { key: if good { vec![1; 32] } else { vec![1; 31] }, deadline: 9, signature_type: 1, ..Default::default() }))),
        _ => (1, None),
    }
}
fn data(c: &mut Ctx, good: bool) -> MessageData { let (t, b) = body(c, good); MessageData { r#type: t, fid: c.fid(), timestamp: c.below(1000) as u32, network: 1, body: b } }

pub fn run(c: &mut Ctx) {
    let vs: Vec<EngineVersion> = EngineVersion::iter().collect();
    let small: Vec<[u8; 32]> = {
        let mut a = [0u8; 32]; a[0] = 1; let z = [0u8; 32]; let mut m = [0xffu8; 32]; m[0] = 0xec; m[31] = 0x7f;
        let e = [0x26u8, 0xe8, 0x95, 0x8f, 0xc2, 0xb2, 0x27, 0xb0, 0x45, 0xc3, 0xf4, 0x89, 0xf2, 0xef, 0x98, 0xf0, 0xd5, 0xdf, 0xac, 0x05, 0xd3, 0xc6, 0x33, 0x39, 0xb1, 0x38, 0x02, 0x88, 0x6d, 0x53, 0xfc, 0x05];
        vec![a, z, m, e]
    };
    for _ in 0..c.rounds(2000) {
        // what is signed for
        let good = c.p(5, 6);
        let d = data(c, good);
        let with_bytes = c.p(2, 3);
        let mut raw = d.encode_to_vec();
        if with_bytes && c.p(1, 3) { let n = c.below(20) as u8; raw.extend([0xfa, 0x7f, n]); raw.extend(vec![7u8; n as usize]); }
        let decodes = if with_bytes && c.p(1, 12) { raw = c.pick(&[vec![], vec![0xff], vec![8], vec![0; 3], b"not a message".to_vec()]); false } else { true };
        // the unsigned copy
        let copy = match c.below(5) { 0 => None, 1 => Some(d.clone()), 2 => { let g = c.p(1, 2); Some(data(c, g)) }, 3 => Some(MessageData { timestamp: 4_000_000_000, network: 2, ..d.clone() }), _ => Some(MessageData::default()) };
        let k = key(c);
        let mut m = proto::Message {
            data: if with_bytes { copy } else { Some(d.clone()) },
            hash: digest(&raw), hash_scheme: 1, signature: vec![], signature_scheme: 1, signer: k.verifying_key().to_bytes().to_vec(),
            data_bytes: if with_bytes { Some(raw.clone()) } else { None },
        };
        if c.p(1, 5) { m.hash = match c.below(4) { 0 => blake3::hash(&raw).as_bytes().to_vec(), 1 => digest(&m.data.as_ref().map(|d| d.encode_to_vec()).unwrap_or_default()), _ => spoil(c, &m.hash) }; }
        m.signature = k.sign(&m.hash).to_bytes().to_vec();
        if c.p(1, 5) {
            match c.below(9) {
                0 => m.signature = k.sign(&raw).to_bytes().to_vec(),
                1 => m.signature = key(c).sign(&m.hash).to_bytes().to_vec(),
                2 => m.signature = spoil(c, &m.signature),
                3 => m.signer = spoil(c, &m.signer),
                4 => plus_order(&mut m.signature),
                5 => { m.signer = c.pick(&small).to_vec(); let mut s = c.pick(&small).to_vec(); s.extend([0u8; 32]); m.signature = s }
                6 => m.hash = spoil(c, &m.hash),
                7 => m.signer = vec![],
                _ => m.signature = vec![],
            }
        }
        if c.p(1, 16) { m.hash_scheme = c.pick(&[0, 2, 3, -1, i32::MAX, 257]); }
        if c.p(1, 16) { m.signature_scheme = c.pick(&[0, 2, 3, -1, i32::MAX, 257]); }
        if c.p(1, 30) { m.data = None; }
        let present = with_bytes || m.data.is_some();
        let authentic = present && decodes && !raw.is_empty() && m.hash_scheme == 1 && m.hash == digest(&raw) && m.signature_scheme == 1 && valid(&m.signer, &m.hash, &m.signature);
        let (pro, v, now) = (c.p(1, 2), c.pick(&vs), FarcasterTime::new(c.range(1000, 1 << 31)));
        let show = format!("good rules {} {:?} with raw bytes {} signed for {} decodes {} {:?}", good, m, with_bytes, raw.iter().map(|b| format!("{:02x}", b)).collect::<String>(), decodes, v);
        c.case("validate_message", show, || same("accepted", validate_message(&m, FarcasterNetwork::Mainnet, pro, &now, v).is_ok(), authentic && good));
        let hex = |b: &Vec<u8>| b.iter().map(|b| format!("{:02x}", b)).collect::<String>();
        c.case("validate_message_hash", format!("scheme {} data {} hash {}", m.hash_scheme, hex(&raw), hex(&m.hash)), || same("accepted", validate_message_hash(m.hash_scheme, &raw, &m.hash).is_ok(), m.hash_scheme == 1 && !raw.is_empty() && m.hash == digest(&raw)));
        c.case("validate_signature", format!("scheme {} of {} signature {} signer {}", m.signature_scheme, hex(&m.hash), hex(&m.signature), hex(&m.signer)), || same("accepted", validate_signature(m.signature_scheme, &m.hash, &m.signature, &m.signer).is_ok(), m.signature_scheme == 1 && valid(&m.signer, &m.hash, &m.signature)));
        let n = c.len(&[20, 64]); let b = c.bytes(n);
        c.case("blake3_20", hex(&b), || same("digest", blake3_20(&b).to_vec(), digest(&b)));
        if c.enough() { return; }
    }
}
