//@mount src/core/validations/message.rs
use super::*;
use crate::core::channel_uri::{channel_id_for_follow_target, channel_registrar_for_network, ChannelAssetId, ChannelRegistrar};
use crate::verif_h::support::*;
use alloy_primitives::keccak256;

// decimal form of a big-endian number of any size
fn decimal(b: &[u8]) -> String {
    let mut d: Vec<u8> = vec![0];
    for x in b {
        let mut carry = *x as u32;
        for k in d.iter_mut() { let v = *k as u32 * 256 + carry; *k = (v % 10) as u8; carry = v / 10; }
        while carry > 0 { d.push((carry % 10) as u8); carry /= 10; }
    }
    while d.len() > 1 && *d.last().unwrap() == 0 { d.pop(); }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
// a canonical decimal number below 256^n, as n big-endian bytes
fn number(s: &str, n: usize) -> Option<Vec<u8>> {
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) { return None; }
    let mut v = vec![0u8; n];
    for c in s.bytes() {
        let mut carry = (c - b'0') as u32;
        for x in v.iter_mut().rev() { let t = *x as u32 * 10 + carry; *x = t as u8; carry = t >> 8; }
        if carry > 0 { return None; }
    }
    Some(v)
}
fn eip55(a: &[u8]) -> String {
    let h: String = a.iter().map(|b| format!("{:02x}", b)).collect();
    let k = keccak256(h.as_bytes());
    let t: String = h.chars().enumerate().map(|(i, c)| { let n = if i % 2 == 0 { k[i / 2] >> 4 } else { k[i / 2] & 15 }; if n >= 8 { c.to_ascii_uppercase() } else { c } }).collect();
    format!("0x{}", t)
}
fn hex40(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix("0x")?;
    if s.len() != 40 || !s.bytes().all(|c| c.is_ascii_hexdigit()) { return None; }
    Some((0..20).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
}
fn read(s: &str) -> Option<(u64, Vec<u8>, Vec<u8>)> {
    let p: Vec<&str> = s.split('/').collect();
    if p.len() != 3 { return None; }
    let chain = number(p[0].strip_prefix("eip155:")?, 8)?;
    let addr = p[1].strip_prefix("erc721:")?;
    let a = hex40(addr)?;
    if eip55(&a) != addr { return None; }
    Some((u64::from_be_bytes(chain.try_into().unwrap()), a, number(p[2], 32)?))
}
fn render(chain: u64, a: &[u8], id: &[u8]) -> String { format!("eip155:{}/erc721:{}/{}", decimal(&chain.to_be_bytes()), eip55(a), decimal(id)) }

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(4000) {
        let id = c.blob(&[32]);
        let body = proto::ChannelUpdateBody { channel_id: id.clone(), casting_mode: if c.p(1, 3) { None } else { Some(c.i32() % 8) }, membership_mode: if c.p(1, 3) { None } else { Some(c.i32() % 8) }, ..Default::default() };
        let ok = id.len() == 32 && body.casting_mode.map_or(true, |m| (0..=3).contains(&m)) && body.membership_mode.map_or(true, |m| (0..=2).contains(&m));
        c.case("validate_channel_update_body", format!("{:?}", body), || same("accepted", validate_channel_update_body(&body).is_ok(), ok));
        let body = proto::ChannelMemberBody { channel_id: id.clone(), fid: c.fid(), action: c.i32() % 12 };
        let ok = id.len() == 32 && body.fid != 0 && body.fid <= 0xffff_ffff && (1..=6).contains(&body.action);
        c.case("validate_channel_member_body", format!("{:?}", body), || same("accepted", validate_channel_member_body(&body).is_ok(), ok));
        let body = proto::ChannelPinBody { channel_id: id.clone(), cast_hash: c.blob(&[0, 20]) };
        let ok = id.len() == 32 && (body.cast_hash.is_empty() || body.cast_hash.len() == 20);
        c.case("validate_channel_pin_body", format!("{:?}", body), || same("accepted", validate_channel_pin_body(&body).is_ok(), ok));
        let body = proto::ChannelModerateBody { channel_id: id.clone(), cast_hash: c.blob(&[20]), action: c.i32() % 6 };
        let ok = id.len() == 32 && body.cast_hash.len() == 20 && (1..=2).contains(&body.action);
        c.case("validate_channel_moderate_body", format!("{:?}", body), || same("accepted", validate_channel_moderate_body(&body).is_ok(), ok));
        if c.enough() { break; }
    }
    for n in 0..4 {
        let net = FarcasterNetwork::try_from(n).unwrap();
        c.case("channel_registrar_for_network", format!("{:?}", net), || {
            let want = if n == 0 || n == 1 { None } else { Some((11155111u64, hex40("0x7dd80c661ded9bfc8d4440224a0b39b345a91be4").unwrap())) };
            same("registrar", channel_registrar_for_network(net).map(|r| (r.chain_id, r.address.to_vec())), want)
        });
    }
    for _ in 0..c.rounds(8000) {
        let chain = if c.p(1, 2) { 11155111 } else { c.int() };
        let addr = if c.p(1, 2) { hex40("0x7dd80c661ded9bfc8d4440224a0b39b345a91be4").unwrap() } else { c.bytes(20) };
        let mut id = c.bytes(32);
        if c.p(1, 3) { let z = c.below(33) as usize; for b in &mut id[..z] { *b = 0; } }
        if c.p(1, 30) { id = vec![255; 32]; }
        let text = render(chain, &addr, &id);
        let fixed: [u8; 32] = id.clone().try_into().unwrap();
        let reg = ChannelRegistrar { chain_id: chain, address: Address::from_slice(&addr) };
        c.case("ChannelAssetId::canonical_string", text.clone(), || {
            let a = ChannelAssetId::for_channel(&reg, fixed);
            same("text", a.canonical_string(), text.clone())?;
            same("parsed back", ChannelAssetId::parse(&text).ok(), Some(a))?;
            same("follow target", channel_id_for_follow_target(&text, &reg), Some(fixed))
        });
        // anything else: damaged texts, other spellings
        let other = match c.below(18) {
            0 => text.replace("0x", "0X"),
            1 => text.to_lowercase(),
            2 => text.to_uppercase(),
            3 => format!("{}/", text),
            4 => format!("/{}", text),
            5 => text.replace("eip155:", ["eip155:0", "eip155:+", "eip155:-", "eip155::", "eip155", "EIP155:", "eip155: ", "eip15:", "eip155:eip155:"][c.below(9) as usize]),
            6 => text.replace("erc721:", ["erc1155:", "erc721", "ERC721:", "erc721::", "erc721:0x", "erc721: "][c.below(6) as usize]),
            7 => { let i = text.rfind('/').unwrap(); format!("{}/{}{}", &text[..i], ["0", "00", "+", "-", " ", "0x", "_", "1"][c.below(8) as usize], &text[i + 1..]) }
            8 => { let i = text.rfind('/').unwrap(); let n = 70 + c.below(15) as usize; format!("{}/{}", &text[..i], (0..n).map(|_| (b'0' + c.below(10) as u8) as char).collect::<String>()) }
            9 => { let i = text.rfind('/').unwrap(); format!("{}/{}", &text[..i], ["115792089237316195423570985008687907853269984665640564039457584007913129639935", "115792089237316195423570985008687907853269984665640564039457584007913129639936", "", "0", "00", "٣"][c.below(6) as usize]) }
            10 => { let i = text.find('/').unwrap(); format!("eip155:{}{}", ["18446744073709551615", "18446744073709551616", "", "0", "00", "1"][c.below(6) as usize], &text[i..]) }
            11 => text.replace('/', "//"),
            12 => { let i = text.rfind('/').unwrap(); text[..i].to_string() }
            13 => text.replace(':', "/"),
            14 => { let mut b = text.clone().into_bytes(); let i = c.below(b.len() as u64) as usize; b[i] = b"0123456789abcdefABCDEFx:/ _"[c.below(27) as usize]; String::from_utf8(b).unwrap() }
            15 => { let i = c.below(text.len() as u64) as usize; format!("{}{}", &text[..i], &text[i + 1..]) }
            16 => { let i = text.rfind('/').unwrap(); format!("{}/{}{}", &text[..i], "0".repeat(c.below(200) as usize), &text[i + 1..]) }
            _ => { let i = c.below(text.len() as u64 + 1) as usize; format!("{}{}{}", &text[..i], c.string(&[1, 3]), &text[i..]) }
        };
        let reg2 = ChannelRegistrar { chain_id: if c.p(1, 2) { chain } else { c.int() }, address: Address::from_slice(&if c.p(2, 3) { addr.clone() } else { c.bytes(20) }) };
        for t in [text, other] {
            c.case("ChannelAssetId::parse", format!("{} in {:?}", t, reg2), || {
                let want = if t.len() > 256 { None } else { read(&t) };
                same("asset", ChannelAssetId::parse(&t).ok().map(|a| (a.chain_id, a.contract.to_vec(), a.channel_id.to_vec())), want.clone())?;
                let inside = want.filter(|w| w.0 == reg2.chain_id && w.1 == reg2.address.to_vec()).map(|w| w.2);
                same("follow target", channel_id_for_follow_target(&t, &reg2).map(|x| x.to_vec()), inside)
            });
        }
        if c.enough() { break; }
    }
}
