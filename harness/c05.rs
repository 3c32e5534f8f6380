//@mount src/core/validations/message.rs
use super::*;
use crate::verif_h::support::*;
use alloy_primitives::keccak256;
use strum::IntoEnumIterator;

// ---- the grammar, by hand
fn lower(b: u8) -> bool { (b'a'..=b'z').contains(&b) }
fn upper(b: u8) -> bool { (b'A'..=b'Z').contains(&b) }
fn digit(b: u8) -> bool { (b'0'..=b'9').contains(&b) }
fn alnum(b: u8) -> bool { lower(b) || upper(b) || digit(b) }
fn label(s: &[u8]) -> bool { s.len() >= 1 && s.len() <= 16 && s[0] != b'-' && s.iter().all(|b| lower(*b) || digit(*b) || *b == b'-') }
fn before(s: &[u8], t: &[u8]) -> Option<Vec<u8>> { if s.len() >= t.len() && &s[s.len() - t.len()..] == t { Some(s[..s.len() - t.len()].to_vec()) } else { None } }
fn ens(s: &[u8]) -> bool { before(s, b".eth").map_or(false, |l| label(&l)) }
fn base(s: &[u8]) -> bool { before(s, b".base.eth").map_or(false, |l| label(&l)) }
fn twitter(s: &[u8]) -> bool { s.len() <= 15 && s.iter().all(|b| lower(*b) || digit(*b) || *b == b'_') }
fn github(s: &[u8]) -> bool {
    if s.is_empty() || s.len() > 38 || s[0] == b'-' { return false; }
    for i in 0..s.len() { if !(alnum(s[i]) || (s[i] == b'-' && (i + 1 == s.len() || s[i + 1] != b'-'))) { return false; } }
    true
}
// in hundredths
fn angle(s: &[u8], k: usize, top: i64) -> bool {
    let (neg, t) = if s.first() == Some(&b'-') { (true, &s[1..]) } else { (false, s) };
    if t.len() < 4 || t.len() > k + 3 || t[t.len() - 3] != b'.' { return false; }
    let mut v: i64 = 0;
    for i in 0..t.len() { if i != t.len() - 3 { if !digit(t[i]) { return false; } v = v * 10 + (t[i] - b'0') as i64; } }
    if neg { v = -v; }
    v >= -top * 100 && v <= top * 100
}
fn location(s: &[u8]) -> bool {
    if s.is_empty() { return true; }
    if s.len() < 4 || &s[..4] != b"geo:" { return false; }
    let p: Vec<&[u8]> = s[4..].split(|b| *b == b',').collect();
    p.len() == 2 && angle(p[0], 2, 90) && angle(p[1], 3, 180)
}
fn all(s: &[u8], lo: usize, hi: usize, f: impl Fn(u8) -> bool) -> bool { s.len() >= lo && s.len() <= hi && s.iter().all(|b| f(*b)) }
fn token(s: &[u8]) -> bool {
    if s.is_empty() { return true; }
    if s.len() > 256 { return false; }
    let p: Vec<&[u8]> = s.split(|b| *b == b'/').collect();
    if p.len() != 2 && p.len() != 3 { return false; }
    let a: Vec<&[u8]> = p[0].split(|b| *b == b':').collect();
    let b: Vec<&[u8]> = p[1].split(|b| *b == b':').collect();
    a.len() == 2 && b.len() == 2 && all(a[0], 1, 999, |c| lower(c) || digit(c)) && all(a[1], 1, 999, alnum)
        && all(b[0], 3, 8, |c| lower(c) || digit(c) || c == b'-') && all(b[1], 1, 128, |c| alnum(c) || c == b'-' || c == b'.' || c == b'%')
        && (p.len() == 2 || all(p[2], 1, 999, alnum))
}
fn eip55(a: &[u8]) -> String {
    let h: String = a.iter().map(|b| format!("{:02x}", b)).collect();
    let k = keccak256(h.as_bytes());
    let t: String = h.chars().enumerate().map(|(i, c)| { let n = if i % 2 == 0 { k[i / 2] >> 4 } else { k[i / 2] & 15 }; if n >= 8 { c.to_ascii_uppercase() } else { c } }).collect();
    format!("0x{}", t)
}
fn eth(s: &str) -> bool {
    if s.is_empty() { return true; }
    let Some(h) = s.strip_prefix("0x") else { return false };
    if h.len() != 40 || !h.bytes().all(|c| c.is_ascii_hexdigit()) { return false; }
    let a: Vec<u8> = (0..20).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    eip55(&a) == s
}
const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn to58(b: &[u8]) -> String {
    let mut d: Vec<u8> = vec![];
    for x in b {
        let mut carry = *x as u32;
        for k in d.iter_mut() { let v = *k as u32 * 256 + carry; *k = (v % 58) as u8; carry = v / 58; }
        while carry > 0 { d.push((carry % 58) as u8); carry /= 58; }
    }
    let mut s = "1".repeat(b.iter().take_while(|x| **x == 0).count());
    for x in d.iter().rev() { s.push(B58[*x as usize] as char); }
    s
}
fn sol(s: &str) -> bool {
    if s.is_empty() { return true; }
    let mut v: Vec<u8> = vec![];
    for b in s.bytes() {
        let Some(mut carry) = B58.iter().position(|x| *x == b).map(|x| x as u32) else { return false };
        for k in v.iter_mut() { let t = *k as u32 * 58 + carry; *k = t as u8; carry = t >> 8; }
        while carry > 0 { v.push(carry as u8); carry >>= 8; }
    }
    v.len() + s.bytes().take_while(|b| *b == b'1').count() == 32
}
fn username(s: &str) -> bool {
    let b = s.as_bytes();
    if b.is_empty() { true } else if b.ends_with(b".base.eth") { base(b) } else if b.ends_with(b".eth") { ens(b) } else { label(b) }
}
fn accepted(kind: i32, s: &str, pro: bool, v: u32) -> bool {
    let b = s.as_bytes();
    match kind {
        1 | 3 | 5 => b.len() <= 256,
        2 => b.len() <= 32,
        6 => username(s),
        7 => location(b),
        8 => twitter(b),
        9 => github(b),
        10 => pro && b.len() <= 256,
        11 => v >= 5 && eth(s),
        12 => v >= 5 && sol(s),
        13 => v >= 10 && token(b),
        14 => v >= 17 && b.len() <= 256,
        _ => false,
    }
}
const ODD: &[char] = &['\n', ' ', '\u{0}', 'é', '٣', '३', '３', 'ａ', 'İ', 'ſ', 'K', '\u{202e}', '_', '.', '-', ':', '/', '%', ',', '+', 'A', 'z', '0', '@', '[', '`', '{', ';'];
fn spoil(c: &mut Ctx, s: String) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + c.below(2) {
        let n = v.len() as u64;
        match c.below(6) {
            0 => { let i = c.below(n + 1) as usize; let x = c.pick(ODD); v.insert(i, x) }
            1 if n > 0 => { let i = c.below(n) as usize; v[i] = c.pick(ODD) }
            2 if n > 0 => { let i = c.below(n) as usize; v.remove(i); }
            3 if n > 0 => { let i = c.below(n) as usize; let x = v[i]; v.insert(i, x) }
            4 => { let x = c.pick(&['\n', ' ', '.', '-', '/']); if c.p(1, 2) { v.push(x) } else { v.insert(0, x) } }
            5 if n > 1 => { let (i, j) = (c.below(n) as usize, c.below(n) as usize); v.swap(i, j) }
            _ => {}
        }
    }
    v.into_iter().collect()
}
fn a_label(c: &mut Ctx) -> String {
    let n = c.pick(&[1usize, 1, 2, 5, 14, 15, 16, 16, 17, 18, 32]);
    let set = c.pick(&["abcdefghijklmnopqrstuvwxyz0123456789-", "az09-", "a-", "abc", "0189", "abcXYZ-_"]);
    c.alpha(set, n)
}
fn a_hub(c: &mut Ctx) -> String { let n = c.pick(&[0usize, 1, 2, 20, 37, 38, 38, 39, 40]); let set = c.pick(&["abcXYZ019", "aZ9-", "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-", "a٣"]); c.alpha(set, n) }
fn a_bird(c: &mut Ctx) -> String { let n = c.pick(&[0usize, 1, 5, 14, 15, 15, 16, 17]); let set = c.pick(&["abcxyz019_", "_", "abcXYZ019_", "a0_-"]); c.alpha(set, n) }
fn num(c: &mut Ctx, k: usize) -> String {
    let top: u64 = if k == 2 { 90 } else { 180 };
    let whole = c.pick(&[0, 1, 9, 45, 89, 90, 90, 91, 99, 100, 179, 180, 180, 181, 999, 1000, top]);
    let cents = c.pick(&[0u64, 0, 1, 5, 10, 99]);
    let mut s = format!("{}.{:02}", whole, cents);
    if c.p(1, 8) { s = format!("0{}", s); }
    if c.p(1, 10) { s.push('0'); }
    if c.p(1, 12) { s = s.trim_end_matches('0').to_string(); }
    if c.p(1, 20) { s = c.pick(&["nan".to_string(), "inf".into(), ".50".into(), "1".into(), "1e1".into(), "٣.٣٣".into(), "".into()]); }
    if c.p(1, 3) { s = format!("-{}", s); } else if c.p(1, 16) { s = format!("+{}", s); }
    s
}
fn a_place(c: &mut Ctx) -> String { let (a, b) = (num(c, 2), num(c, 3)); let g = if c.p(1, 12) { c.pick(&["", "GEO:", "geo", "geo: "]) } else { "geo:" }; format!("{}{},{}", g, a, b) }
fn a_token(c: &mut Ctx) -> String {
    let an = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    let n = c.pick(&[1usize, 6, 6, 30, 0]); let a = c.alpha("abcdefghijklmnopqrstuvwxyz0123456789", n);
    let n = c.pick(&[1usize, 4, 32, 60, 0]); let b = c.alpha(an, n);
    let n = c.pick(&[2usize, 3, 3, 6, 8, 8, 9]); let x = c.alpha("abcdefghijklmnopqrstuvwxyz0123456789-", n);
    let n = c.pick(&[1usize, 42, 42, 100, 127, 128, 128, 129, 0]); let set = if c.p(1, 2) { an } else { "aZ9-.%" }; let y = c.alpha(set, n);
    let mut s = format!("{}:{}/{}:{}", a, b, x, y);
    if c.p(1, 2) { let n = match c.below(4) { 0 => 256usize.saturating_sub(s.len() + 1), 1 => 257usize.saturating_sub(s.len() + 1), 2 => c.below(80) as usize, _ => 1 }; let z = c.alpha(an, n); s = format!("{}/{}", s, z); }
    if c.p(1, 24) { s.push_str("/x"); }
    s
}
fn an_eth(c: &mut Ctx) -> String {
    let n = c.pick(&[20usize, 20, 20, 20, 20, 20, 0, 19, 21, 32]);
    let s = eip55(&c.bytes(n));
    match c.below(10) { 0 => s.to_lowercase(), 1 => s.to_uppercase(), 2 => s[2..].to_string(), 3 => format!("0X{}", &s[2..]), 4 => format!("0x{}", s), 5 => format!("0x{}", s[2..].to_uppercase()), _ => s }
}
fn a_sol(c: &mut Ctx) -> String {
    let n = c.pick(&[32usize, 32, 32, 32, 31, 33, 20, 0, 64]);
    let mut b = c.bytes(n);
    if c.p(1, 4) { for i in 0..c.below(n as u64 + 1) as usize { b[i] = 0; } }
    let mut s = to58(&b);
    if c.p(1, 12) { s.insert(0, '1'); }
    if c.p(1, 12) { let k = s.len(); if k > 0 { s.replace_range(k - 1..k, c.pick(&["0", "O", "I", "l"])); } }
    s
}
fn free(c: &mut Ctx) -> String { let n = c.pick(&[0usize, 1, 31, 32, 32, 33, 34, 64, 128, 255, 256, 256, 257, 300]); if c.p(1, 6) { c.string(&[32, 256]) } else { c.text(n) } }
fn value(c: &mut Ctx, kind: i32) -> String {
    let k = if c.p(1, 12) { c.below(16) as i32 } else { kind };
    let s = match k {
        6 => { let l = a_label(c); let e = c.pick(&["", "", ".eth", ".eth", ".base.eth", ".base.eth", ".a.eth", ".base", ".ETH", "eth", "base.eth", ".eth.eth", ".eth.base.eth", ".base.eth.eth"]); if c.p(1, 24) { e.to_string() } else { l + e } }
        7 => a_place(c), 8 => a_bird(c), 9 => a_hub(c), 11 => an_eth(c), 12 => a_sol(c), 13 => a_token(c),
        _ => free(c),
    };
    let s = if c.p(1, 4) { spoil(c, s) } else { s };
    if c.p(1, 40) { String::new() } else { s }
}

pub fn run(c: &mut Ctx) {
    let vs: Vec<EngineVersion> = EngineVersion::iter().collect();
    for _ in 0..c.rounds(22000) {
        let kind = if c.p(1, 24) { c.i32() } else { c.below(16) as i32 };
        let s = value(c, kind);
        let (pro, v) = (c.p(1, 2), if c.p(1, 2) { EngineVersion::latest() } else { c.pick(&vs) });
        let body = UserDataBody { r#type: kind, value: s.clone() };
        let show: String = s.chars().take(300).collect();
        c.case("validate_user_data_add_body", format!("kind {} pro {} {:?} {} bytes {:?}", kind, pro, v, s.len(), show), || same("accepted", validate_user_data_add_body(&body, pro, v).is_ok(), accepted(kind, &s, pro, v as u32)));
        let b = s.as_bytes();
        let show = format!("{:?}", show);
        match kind {
            6 => {
                c.case("validate_fname", show.clone(), || same("accepted", validate_fname(&s).is_ok(), label(b)));
                c.case("validate_ens_name", show.clone(), || same("accepted", validate_ens_name(&s).is_ok(), ens(b)));
                c.case("validate_base_name", show, || same("accepted", validate_base_name(&s).is_ok(), base(b)));
            }
            7 => c.case("validate_user_location", show, || same("accepted", validate_user_location(&s).is_ok(), location(b))),
            8 => c.case("validate_twitter_username", show, || same("accepted", validate_twitter_username(&s).is_ok(), twitter(b))),
            9 => c.case("validate_github_username", show, || same("accepted", validate_github_username(&s).is_ok(), github(b))),
            11 => c.case("validate_user_data_primary_address_ethereum", show, || same("accepted", validate_user_data_primary_address_ethereum(&s).is_ok(), eth(&s))),
            12 => c.case("validate_user_data_primary_address_solana", show, || same("accepted", validate_user_data_primary_address_solana(&s).is_ok(), sol(&s))),
            13 => c.case("validate_caip19_format", show, || same("accepted", validate_caip19_format(&s).is_ok(), token(b))),
            _ => {}
        }
        if c.enough() { return; }
    }
    // every label of one or two characters
    let set: Vec<char> = (0u8..128).map(|b| b as char).chain(['é', '٣']).collect();
    for a in &set { for b in std::iter::once(None).chain(set.iter().map(Some)) {
        let s: String = match b { None => a.to_string(), Some(b) => [*a, *b].iter().collect() };
        let t = s.clone();
        c.case("validate_fname", format!("{:?}", t), || same("accepted", validate_fname(&s).is_ok(), label(s.as_bytes())));
        c.case("validate_github_username", format!("{:?}", t), || same("accepted", validate_github_username(&s).is_ok(), github(s.as_bytes())));
        c.case("validate_twitter_username", format!("{:?}", t), || same("accepted", validate_twitter_username(&s).is_ok(), twitter(s.as_bytes())));
    } }
}
