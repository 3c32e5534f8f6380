//@mount src/core/validations/message.rs
use super::*;
use crate::verif_h::support::*;
use ed25519_dalek::{Signer, SigningKey};
use proto::message_data::Body;
use strum::IntoEnumIterator;

const ABOUT: &[u64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];
fn key(c: &mut Ctx) -> SigningKey { let b: Vec<u8> = (0..32).map(|_| c.u64() as u8).collect(); SigningKey::from_bytes(&b.try_into().unwrap()) }
fn cast_id(c: &mut Ctx) -> proto::CastId { let h = if c.p(1, 3) { c.blob(&[19, 20, 21]) } else { c.bytes(20) }; proto::CastId { fid: if c.p(1, 6) { 0 } else { c.fid() }, hash: h } }
fn url(c: &mut Ctx) -> String { let n = c.len(&[0, 1, 256, 257]); c.text(n) }
fn profile(c: &mut Ctx) -> UserDataBody {
    let t = c.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 99, -1]);
    let value = match c.below(8) {
        0 => String::new(), 1 => "alice".into(), 2 => "alice.eth".into(), 3 => "geo:12.34,-123.45".into(), 4 => "alice.base.eth".into(),
        5 => c.pick(&["0x7Ca6b6721E87c39ed63b0e8C1A4B0d1d2Fe5D3bB", "0x52908400098527886E0F7030069857D2E4169EE7", "7EcDhSYGxXyscszYEp35KHN8vvw3svAuLKTzXwCFLtV", "eip155:1/erc20:0xabc", "Alice"]).into(),
        6 => { let n = c.len(&[32, 33, 256, 257]); c.text(n) }
        _ => { let n = c.below(20) as usize; c.alpha("abcxyz019-_.é", n) }
    };
    UserDataBody { r#type: t, value }
}
fn body(c: &mut Ctx, which: u64, fid: u64, network: i32) -> Body {
    let id = if c.p(1, 4) { c.blob(&[31, 32, 33]) } else { c.bytes(32) };
    let hash = if c.p(1, 3) { c.blob(&[0, 19, 20, 21]) } else { c.bytes(20) };
    match which {
        0 => Body::UserDataBody(profile(c)),
        1 => Body::UsernameProofBody(proto::UserNameProof { timestamp: 1, name: c.pick(&["alice.eth", "alice.base.eth", "alice", "Alice.eth", "a.b.eth", "a.b.base.eth", "-a.eth", "abcdefghijklmnop.eth", "abcdefghijklmnopq.eth", "abcdefghijklmnopq.base.eth", ""]).as_bytes().to_vec(), owner: vec![1; 20], signature: vec![2; 65], fid, r#type: c.pick(&[0, 1, 2, 2, 2, 3, 3, 3, 4, -1]) }),
        2 => {
            let sol = key(c);
            let mut address = sol.verifying_key().to_bytes().to_vec();
            let block = c.bytes(32);
            let text = format!("fid: {} address: {} network: {} blockHash: {} protocol: 1", if c.p(1, 4) { fid + 1 } else { fid }, bs58::encode(&address).into_string(), if c.p(1, 4) { network ^ 3 } else { network }, bs58::encode(&block).into_string());
            if c.p(1, 6) { address = c.blob(&[20, 31, 32, 33]); }
            Body::VerificationAddAddressBody(proto::VerificationAddAddressBody { address, claim_signature: sol.sign(text.as_bytes()).to_bytes().to_vec(), block_hash: block, verification_type: 0, chain_id: 0, protocol: c.pick(&[1, 1, 1, 1, 1, 0, 2, -1]) })
        }
        3 => Body::VerificationRemoveBody(proto::VerificationRemoveBody { address: c.blob(&[20, 32, 20, 32, 21, 33]), protocol: c.pick(&[0, 1, 1, 0, 2]) }),
        4 => { let n = c.below(4); Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: c.pick(&["follow", "", "12345678", "123456789"]).into(), target_fids: (0..n).map(|_| c.below(4) * 7).collect() }) }
        5 => Body::LinkBody(proto::LinkBody { r#type: c.pick(&["follow", "", "12345678", "123456789"]).into(), display_timestamp: None, target: if c.p(1, 5) { None } else { Some(proto::link_body::Target::TargetFid(c.below(4))) } }),
        6 => {
            let n = c.len(&[1, 320, 321, 1024, 1025, 1500]);
            let k = c.below(6);
            let m = c.below(12);
            let text = c.text(n);
            let embeds = (0..k).map(|_| proto::Embed { embed: match c.below(20) { 0 => None, 1 | 2 => Some(proto::embed::Embed::CastId(cast_id(c))), 3 => Some(proto::embed::Embed::Url(url(c))), _ => Some(proto::embed::Embed::Url("https://x".into())) } }).collect();
            let mut positions: Vec<u32> = (0..m).map(|_| c.below(n as u64 + 1) as u32).collect();
            if c.p(5, 6) { positions.sort(); }
            let old: Vec<String> = if c.p(1, 3) { (0..c.below(4)).map(|_| url(c)).collect() } else { vec![] };
            let parent = match c.below(4) { 0 => Some(proto::cast_add_body::Parent::ParentUrl(url(c))), 1 => Some(proto::cast_add_body::Parent::ParentCastId(cast_id(c))), _ => None };
            Body::CastAddBody(proto::CastAddBody { text, embeds: if old.is_empty() || c.p(1, 3) { embeds } else { vec![] }, mentions: (0..m).map(|_| c.below(40)).collect(), mentions_positions: positions, embeds_deprecated: old, parent, r#type: c.pick(&[0, 0, 0, 1, 1, 2, 3, -1]), ..Default::default() })
        }
        7 => Body::CastRemoveBody(proto::CastRemoveBody { target_hash: hash }),
        8 => Body::ReactionBody(proto::ReactionBody { r#type: c.pick(&[1, 2, 1, 2, 0, 3, -1]), target: match c.below(5) { 0 => None, 1 | 2 => Some(proto::reaction_body::Target::TargetUrl(url(c))), _ => Some(proto::reaction_body::Target::TargetCastId(cast_id(c))) } }),
        9 => Body::FrameActionBody(FrameActionBody { url: c.blob(&[0, 1, 1024, 1025]), button_index: c.below(8) as u32, input_text: if c.p(1, 3) { c.blob(&[256, 257]) } else { vec![] }, ..Default::default() }),
        10 => Body::LendStorageBody(proto::LendStorageBody { to_fid: 5, num_units: c.pick(&[0u64, 3, 5000, 5001]), unit_type: c.pick(&[0, 1, 2, 3, -1]) }),
        11 => Body::KeyAddBody(proto::KeyAddBody { key: id, key_type: c.pick(&[1u32, 1, 1, 1, 0]), deadline: c.pick(&[0u32, 9, 9, 9]), ttl: c.pick(&[1u32, 7_776_000, 60, 60, 0, 7_776_001]), metadata_type: 1, metadata: c.bytes(40), scopes: (0..c.below(4)).map(|_| c.pick(&[1, 2, 3, 5, 16, 0])).collect(), ..Default::default() }),
        12 => Body::KeyRemoveBody(proto::KeyRemoveBody { key: id, deadline: c.pick(&[0u32, 9, 9, 9]), signature_type: c.pick(&[0, 1, 2, 3]), ..Default::default() }),
        13 => Body::ChannelUpdateBody(proto::ChannelUpdateBody { channel_id: id, casting_mode: if c.p(1, 3) { Some(c.below(6) as i32) } else { None }, membership_mode: if c.p(1, 3) { Some(c.below(6) as i32) } else { None }, ..Default::default() }),
        14 => Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: id, fid: c.pick(&[0u64, 3, 3, 3, 1 << 32]), action: c.below(8) as i32 }),
        15 => Body::ChannelPinBody(proto::ChannelPinBody { channel_id: id, cast_hash: hash, ..Default::default() }),
        _ => Body::ChannelModerateBody(proto::ChannelModerateBody { channel_id: id, cast_hash: hash, action: c.below(5) as i32 }),
    }
}
fn text(p: &proto::UserNameProof) -> Option<String> { String::from_utf8(p.name.clone()).ok() }
// what the rules of the body's own kind say
fn valid(b: &Body, fid: u64, network: FarcasterNetwork, t: u32, pro: bool, v: EngineVersion) -> bool {
    match b {
        Body::UserDataBody(b) => validate_user_data_add_body(b, pro, v).is_ok(),
        Body::UsernameProofBody(p) => match p.r#type { 2 => (v as u32) < 5 || text(p).map_or(false, |s| validate_ens_name(&s).is_ok()), 3 => v as u32 >= 5 && text(p).map_or(false, |s| validate_base_name(&s).is_ok()), _ => false },
        Body::VerificationAddAddressBody(b) => verification::validate_add_address(b, fid, network).is_ok(),
        Body::VerificationRemoveBody(b) => verification::validate_remove_address(b).is_ok(),
        Body::LinkCompactStateBody(b) => link::validate_link_compact_state_body(b).is_ok(),
        Body::LinkBody(b) => link::validate_link_body(b).is_ok(),
        Body::CastAddBody(b) => cast::validate_cast_add_body(b, t < 73612800, pro, v).is_ok(),
        Body::CastRemoveBody(b) => cast::validate_cast_remove_body(b).is_ok(),
        Body::ReactionBody(b) => reaction::validate_reaction_body(b).is_ok(),
        Body::FrameActionBody(b) => validate_frame_action_body(b).is_ok(),
        Body::LendStorageBody(b) => validate_lend_storage_body(b).is_ok(),
        Body::KeyAddBody(b) => key::validate_key_add_body(b).is_ok(),
        Body::KeyRemoveBody(b) => key::validate_key_remove_body(b).is_ok(),
        Body::ChannelUpdateBody(b) => v as u32 >= 21 && validate_channel_update_body(b).is_ok(),
        Body::ChannelMemberBody(b) => v as u32 >= 21 && validate_channel_member_body(b).is_ok(),
        Body::ChannelPinBody(b) => v as u32 >= 21 && validate_channel_pin_body(b).is_ok(),
        Body::ChannelModerateBody(b) => v as u32 >= 21 && validate_channel_moderate_body(b).is_ok(),
    }
}
pub fn run(c: &mut Ctx) {
    let vs: Vec<EngineVersion> = EngineVersion::iter().collect();
    let keys: Vec<SigningKey> = (0..4).map(|_| key(c)).collect();
    for _ in 0..c.rounds(1500) {
        let which = c.pick(ABOUT);
        let fid = 1 + c.below(1 << 20);
        let now = c.pick(&[73_612_799u64, 73_612_800, 73_612_801, 150_000_000, 40_000_000]);
        let network = c.pick(&[1, 1, 1, 2, 3]);
        let b = body(c, which, fid, network);
        let d = MessageData { r#type: if which == 6 { 1 } else { 14 }, fid, timestamp: now as u32, network, body: Some(b.clone()) };
        let raw = d.encode_to_vec();
        let k = c.pick(&keys);
        let hash = blake3::hash(&raw).as_bytes()[..20].to_vec();
        let (kept, pro, v) = (c.p(1, 2), c.p(1, 2), if c.p(1, 2) { EngineVersion::latest() } else { c.pick(&vs) });
        if raw.len() > 2048 { continue; }
        let m = proto::Message { data: if kept { Some(d.clone()) } else { None }, data_bytes: if kept { None } else { Some(raw) }, signature: k.sign(&hash).to_bytes().to_vec(), hash, hash_scheme: 1, signature_scheme: 1, signer: k.verifying_key().to_bytes().to_vec() };
        let net = FarcasterNetwork::try_from(network).unwrap();
        let t = FarcasterTime::new(now);
        let show = format!("{:?}, pro {}, {:?}, block time {}", d, pro, v, now);
        c.case("validate_message follows the rules of the body", show, || same("accepted", validate_message(&m, net, pro, &t, v).is_ok(), valid(&b, fid, net, now as u32, pro, v)));
        if c.enough() { return; }
    }
}
