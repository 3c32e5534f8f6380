//@mount src/core/validations/message.rs
use super::*;
use crate::verif_h::support::*;
use ed25519_dalek::{Signer, SigningKey};
use proto::message_data::Body;
use strum::IntoEnumIterator;

fn key(c: &mut Ctx) -> SigningKey { let b: Vec<u8> = (0..32).map(|_| c.u64() as u8).collect(); SigningKey::from_bytes(&b.try_into().unwrap()) }
fn varint(mut n: usize) -> Vec<u8> { let mut v = vec![]; loop { if n < 128 { v.push(n as u8); return v; } v.push((n & 127) as u8 | 128); n >>= 7; } }
// bodies that obey their own rules at every version, tier and network
fn bodies(c: &mut Ctx, fid: u64, network: i32) -> Vec<(i32, Option<Body>)> {
    let channel: Vec<u8> = c.bytes(32);
    let sol = key(c);
    let address = sol.verifying_key().to_bytes().to_vec();
    let hash = c.bytes(32);
    let text = format!("fid: {} address: {} network: {} blockHash: {} protocol: 1", fid, bs58::encode(&address).into_string(), network, bs58::encode(&hash).into_string());
    let proven = Body::VerificationAddAddressBody(proto::VerificationAddAddressBody { address, claim_signature: sol.sign(text.as_bytes()).to_bytes().to_vec(), block_hash: hash, verification_type: 0, chain_id: 0, protocol: 1 });
    let proof = |kind: i32, name: &str| Body::UsernameProofBody(proto::UserNameProof { timestamp: 1, name: name.as_bytes().to_vec(), owner: vec![1; 20], signature: vec![2; 65], fid, r#type: kind });
    vec![
        (1, Some(Body::CastAddBody(proto::CastAddBody { text: "hello".into(), ..Default::default() }))),
        (2, Some(Body::CastRemoveBody(proto::CastRemoveBody { target_hash: vec![9; 20] }))),
        (3, Some(Body::ReactionBody(proto::ReactionBody { r#type: 1, target: Some(proto::reaction_body::Target::TargetUrl("https://x".into())) }))),
        (5, Some(Body::LinkBody(proto::LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(proto::link_body::Target::TargetFid(7)) }))),
        (14, Some(Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: "follow".into(), target_fids: vec![1, 2] }))),
        (7, Some(proven)),
        (8, Some(Body::VerificationRemoveBody(proto::VerificationRemoveBody { address: vec![1; 20], protocol: 0 }))),
        (11, Some(Body::UserDataBody(UserDataBody { r#type: 2, value: "x".into() }))),
        (12, Some(proof(2, "alice.eth"))), (12, Some(proof(2, "not a name"))), (12, Some(proof(2, "a.b.eth"))),
        (12, Some(proof(3, "alice.base.eth"))), (12, Some(proof(3, "alice.eth"))), (12, Some(proof(1, "alice"))), (12, Some(proof(0, "alice"))), (12, Some(proof(9, "alice.eth"))),
        (13, Some(Body::FrameActionBody(FrameActionBody { url: b"u".to_vec(), button_index: 1, ..Default::default() }))),
        (15, Some(Body::LendStorageBody(proto::LendStorageBody { to_fid: 5, num_units: 3, unit_type: 0 }))),
        (15, Some(Body::LendStorageBody(proto::LendStorageBody { to_fid: 5, num_units: 3, unit_type: 0 }))),
        (16, Some(Body::KeyRemoveBody(proto::KeyRemoveBody { key: vec![1; 32], deadline: 9, signature_type: 1, ..Default::default() }))),
        (18, Some(Body::ChannelUpdateBody(proto::ChannelUpdateBody { channel_id: channel.clone(), ..Default::default() }))),
        (19, Some(Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: channel.clone(), fid: 3, action: 1 }))),
        (20, Some(Body::ChannelPinBody(proto::ChannelPinBody { channel_id: channel.clone(), ..Default::default() }))),
        (21, Some(Body::ChannelModerateBody(proto::ChannelModerateBody { channel_id: channel, cast_hash: vec![1; 20], action: 1 }))),
        (0, None),
    ]
}
pub fn run(c: &mut Ctx) {
    let vs: Vec<EngineVersion> = EngineVersion::iter().collect();
    let nets = [FarcasterNetwork::Mainnet, FarcasterNetwork::Testnet, FarcasterNetwork::Devnet, FarcasterNetwork::None];
    for _ in 0..c.rounds(6000) {
        let k = key(c);
        let fid = 1 + c.below(100000);
        let network = if c.p(1, 3) { c.pick(&[0, 1, 2, 3, 4, -1, 257, 65537, i32::MAX]) } else { 1 };
        let all = bodies(c, fid, network);
        let (mut kind, body) = c.pick(&all);
        if c.p(1, 4) { kind = c.pick(&[0, 1, 12, 14, 14, 1, 99, -1, 15]); }
        let now = c.range(1000, 4_000_000_000u64);
        let timestamp = match c.below(5) { 0 => c.u32(), 1 => now as u32, _ => (now as i64 + c.pick(&[-100000i64, -602, -601, -600, -599, -1, 0, 1, 599, 600, 600, 601, 602, 100000, 700])).clamp(0, u32::MAX as i64) as u32 };
        let d = MessageData { r#type: kind, fid, timestamp, network, body: body.clone() };
        let mut raw = d.encode_to_vec();
        let padded = c.p(2, 3);
        if padded && c.p(2, 3) {
            // an unknown field of the length that brings the whole to the wanted size
            let want = c.pick(&[2047usize, 2048, 2049, 16383, 16384, 16385, 65535, 65536, 65537, 4096, 32768, 8193]);
            if want > raw.len() + 8 { for n in (want - raw.len() - 8)..(want - raw.len()) { if raw.len() + 2 + varint(n).len() + n == want { raw.extend([0xfa, 0x7f]); raw.extend(varint(n)); raw.extend(vec![0u8; n]); break; } } }
        } else if padded && c.p(1, 3) { let n = c.len(&[2048, 16384]); raw.extend([0xfa, 0x7f]); raw.extend(varint(n)); raw.extend(vec![0u8; n]); }
        let hash = blake3::hash(&raw).as_bytes()[..20].to_vec();
        let m = proto::Message { data: if padded { None } else { Some(d.clone()) }, signature: k.sign(&hash).to_bytes().to_vec(), hash, hash_scheme: 1, signature_scheme: 1, signer: k.verifying_key().to_bytes().to_vec(), data_bytes: if padded { Some(raw.clone()) } else { None } };
        let (pro, v, current) = (c.p(1, 2), if c.p(1, 3) { EngineVersion::latest() } else { c.pick(&vs) }, c.pick(&nets));
        let n = v as u32;
        let limit = if n < 5 { 2048 } else if kind == 14 { 65536 } else if kind == 1 && pro { 16384 } else if kind == 12 && n >= 15 { 16384 } else { 2048 };
        let timely = n < 6 || timestamp as u64 <= now + 600;
        let net_ok = (1..=3).contains(&network) && (current != FarcasterNetwork::Mainnet || network == 1);
        let feature = match &body {
            Some(Body::LendStorageBody(_)) => timestamp as u64 + 600 >= now,
            Some(Body::ChannelUpdateBody(_)) | Some(Body::ChannelMemberBody(_)) | Some(Body::ChannelPinBody(_)) | Some(Body::ChannelModerateBody(_)) => n >= 21,
            Some(Body::UsernameProofBody(p)) => match p.r#type { 2 => n < 5 || p.name == b"alice.eth", 3 => n >= 5 && p.name == b"alice.base.eth", _ => false },
            _ => true,
        };
        let want = raw.len() <= limit && timely && net_ok && feature;
        let show = format!("{} bytes, {:?}, on {:?}, pro {}, {:?}, block time {}", raw.len(), d, current, pro, v, now);
        let t = FarcasterTime::new(now);
        c.case("validate_message", show, || same("accepted", validate_message(&m, current, pro, &t, v).is_ok(), want));
        c.case("validate_timestamp", format!("{} at {} {:?}", timestamp, now, v), || same("accepted", validate_timestamp(timestamp, &t, v).is_ok(), timely));
        if c.enough() { return; }
    }
}
