//@mount src/storage/trie/util.rs
use super::*;
use crate::verif_h::support::*;
use base64::Engine;

fn enc(p: &[Vec<u8>]) -> Vec<u8> {
    let mut b = (p.len() as u32).to_be_bytes().to_vec();
    for x in p { b.extend((x.len() as u32).to_be_bytes()); b.extend(x); }
    b
}
/// Some(parts) iff the bytes are exactly a count followed by that many length-prefixed parts
fn dec(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let n = u32::from_be_bytes(b.get(..4)?.try_into().ok()?);
    let mut rest = &b[4..]; let mut out = vec![];
    for _ in 0..n { let l = u32::from_be_bytes(rest.get(..4)?.try_into().ok()?) as usize; out.push(rest.get(4..4 + l)?.to_vec()); rest = &rest[4 + l..]; }
    if rest.is_empty() { Some(out) } else { None }
}
pub fn run(c: &mut Ctx) {
    let e = base64::engine::general_purpose::STANDARD;
    for _ in 0..c.rounds(30000) {
        let n = c.len(&[0, 1, 20, 32, 33]); let x = c.bytes(n);
        c.case("nibbles", format!("{:?}", x), || {
            let n = expand_nibbles(&x);
            same("expand", n.clone(), x.iter().flat_map(|b| vec![b / 16, b % 16]).collect::<Vec<u8>>())?;
            same("combine", combine_nibbles(&n), x.clone())
        });
        let k = c.below(6);
        let parts: Vec<Vec<u8>> = (0..k).map(|_| if c.p(1, 4) { vec![] } else { c.blob(&[1, 4, 40]) }).collect();
        c.case("token.roundtrip", format!("{:?}", parts), || {
            let t = if parts.is_empty() { None } else { Some(parts.clone()) };
            let s = encode_trie_page_token(&t);
            same("encoded bytes", e.decode(&s).ok(), Some(if parts.is_empty() { vec![] } else { enc(&parts) }))?;
            same("decoded", decode_trie_page_token(&s).ok(), Some(t))
        });
        let raw = match c.below(5) {
            0 => { let n = c.len(&[0, 3, 4, 8, 12]); c.bytes(n) }
            1 => { let mut b = c.u32().to_be_bytes().to_vec(); let n = c.below(20) as usize; b.extend(c.bytes(n)); b }
            2 => { let mut b = enc(&parts); let n = c.below(b.len() as u64 / 4 + 1) as usize * 4; let v = c.u32().to_be_bytes(); for i in 0..4 { if n + i < b.len() { b[n + i] = v[i] } } b }
            3 => { let mut b = enc(&parts); let k = c.below(3) as u8; b[3] = b[3].wrapping_add(k).wrapping_sub(1); b }
            _ => { let b = enc(&parts); c.mutate(&b) }
        };
        let mut s = e.encode(&raw);
        if c.p(1, 6) { s = String::from_utf8_lossy(&c.mutate(s.as_bytes())).to_string() }
        c.case("token.decode", format!("{:?} (bytes {:?})", s, raw), || {
            let want = if s.is_empty() { Some(None) } else { e.decode(&s).ok().and_then(|b| dec(&b)).map(|v| if v.is_empty() { None } else { Some(v) }) };
            same("decode_trie_page_token", decode_trie_page_token(&s).ok(), want)
        });
    }
    c.case("token.none", "", || { same("encode none", encode_trie_page_token(&None), String::new())?; same("encode empty", encode_trie_page_token(&Some(vec![])), String::new())?; same("decode empty", decode_trie_page_token("").ok(), Some(None)) });
}
