//@mount src/core/validations/key.rs
use super::*;
use crate::verif_h::support::*;
use alloy_primitives::keccak256;
use alloy_signer::SignerSync;
use alloy_signer_local::PrivateKeySigner;

fn word(x: u64) -> Vec<u8> { be(x, 32) }
fn h(b: &[u8]) -> Vec<u8> { keccak256(b).to_vec() }
fn domain(chain: u32) -> Vec<u8> { h(&cat(&[&h(b"EIP712Domain(string name,string version,uint256 chainId)"), &h(b"Farcaster KeyAdd"), &h(b"1"), &word(chain as u64)])) }
fn digest(chain: u32, s: Vec<u8>) -> [u8; 32] { keccak256(cat(&[&[0x19, 0x01], &domain(chain), &h(&s)])).0 }
fn add_digest(p: &KeyAddPayload, chain: u32) -> [u8; 32] {
    let scopes: Vec<u8> = p.scopes.iter().flat_map(|s| word(*s as u64)).collect();
    digest(chain, cat(&[&h(b"KeyAdd(uint256 fid,bytes key,uint32 keyType,uint32[] scopes,uint32 ttl,uint32 nonce,uint256 deadline)"), &word(p.fid), &h(p.key), &word(p.key_type as u64), &h(&scopes), &word(p.ttl as u64), &word(p.nonce as u64), &word(p.deadline as u64)]))
}
fn remove_digest(p: &KeyRemovePayload, chain: u32) -> [u8; 32] {
    digest(chain, cat(&[&h(b"KeyRemove(uint256 fid,bytes key,uint32 nonce,uint256 deadline)"), &word(p.fid), &h(p.key), &word(p.nonce as u64), &word(p.deadline as u64)]))
}
fn request_digest(fid: u64, key: &[u8], deadline: u64, chain: u32) -> [u8; 32] {
    digest(chain, cat(&[&h(b"SignedKeyRequest(uint256 requestFid,bytes key,uint256 deadline)"), &word(fid), &h(key), &word(deadline)]))
}
fn encode(fid: &[u8], signer: &[u8], sig: &[u8], deadline: &[u8]) -> Vec<u8> {
    let mut pad = sig.to_vec();
    while pad.len() % 32 != 0 { pad.push(0); }
    cat(&[&word(32), fid, &[0u8; 12], signer, &word(128), deadline, &word(sig.len() as u64), &pad])
}
// a signature over the hash, with the last byte in one of the accepted spellings of its parity
fn sign(c: &mut Ctx, k: &PrivateKeySigner, hash: [u8; 32]) -> Vec<u8> {
    let s = k.sign_hash_sync(&hash.into()).unwrap();
    let mut b = s.as_bytes().to_vec();
    b[64] = if s.v() { let o = 1 + c.u8() % 26; c.pick(&[28u8, 28, 1, 1, 29, o, 0xff]) } else { c.pick(&[27u8, 0]) };
    b
}
fn key(c: &mut Ctx) -> PrivateKeySigner {
    loop { let b = c.bytes(32); if let Ok(k) = PrivateKeySigner::from_slice(&b) { return k; } }
}
fn wrong(c: &mut Ctx, sig: &[u8]) -> Vec<u8> {
    let n = c.pick(&[0usize, 1, 63, 64, 66, 130]);
    let mut s = sig.to_vec();
    s.resize(n, 0);
    s
}
fn addr(r: Result<Address, ValidationError>) -> Option<Vec<u8>> { r.ok().map(|a| a.to_vec()) }

const ORDINARY: [i32; 13] = [1, 2, 3, 4, 5, 6, 14, 7, 8, 11, 12, 13, 15];

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(4000) {
        let k = c.len(&[1, 16, 17, 2, 0]);
        let scopes: Vec<i32> = (0..k).map(|_| if c.p(1, 40) { c.i32() % 24 } else { c.pick(&ORDINARY) }).collect();
        let mut body = KeyAddBody { key: c.bytes(32), key_type: 1, deadline: 1 + c.u32() / 2, ttl: c.int_in(1, 7_776_000) as u32, metadata_type: 1, metadata: c.blob(&[1, 100]), scopes, ..Default::default() };
        if c.p(1, 2) {
            match c.below(7) {
                0 => body.key = c.blob(&[31, 33, 32, 0, 64]),
                1 => body.key_type = c.u32(),
                2 => body.deadline = c.pick(&[0u32, 1]),
                3 => { let x = c.u32(); body.ttl = c.pick(&[0u32, 1, 7_776_000, 7_776_001, x]) }
                4 => body.metadata_type = c.u32(),
                5 => body.metadata = c.pick(&[vec![], vec![0u8]]),
                _ => { let x = c.i32() % 24; let at = c.below(body.scopes.len() as u64 + 1) as usize; body.scopes.insert(at, x) }
            }
        }
        body.nonce = c.u32();
        let ok = body.key.len() == 32 && body.key_type == 1 && body.deadline != 0 && body.ttl >= 1 && body.ttl <= 7_776_000 && body.metadata_type == 1 && !body.metadata.is_empty()
            && !body.scopes.is_empty() && body.scopes.len() <= 16 && body.scopes.iter().all(|s| ORDINARY.contains(s));
        c.case("validate_key_add_body", format!("{:?}", body), || same("accepted", validate_key_add_body(&body).is_ok(), ok));
        let body = KeyRemoveBody { key: c.blob(&[32, 32, 32, 31, 33]), signature_type: if c.p(1, 4) { c.u32() } else { c.below(4) as u32 }, deadline: if c.p(1, 8) { 0 } else { c.u32() }, ..Default::default() };
        let ok = body.key.len() == 32 && (body.signature_type == 1 || body.signature_type == 2) && body.deadline != 0;
        c.case("validate_key_remove_body", format!("{:?}", body), || same("accepted", validate_key_remove_body(&body).is_ok(), ok));
    }
    for _ in 0..c.rounds(400) {
        let (k, other) = (key(c), key(c));
        let me = k.address().to_vec();
        let chain = if c.p(1, 4) { c.u32() } else { 1 };
        // additions
        let (kb, n) = (c.blob(&[32, 0, 33]), c.len(&[0, 1, 16]));
        let scopes: Vec<i32> = (0..n).map(|_| if c.p(1, 2) { c.int_in(0, i32::MAX as u64) as i32 } else { 1 + c.below(15) as i32 }).collect();
        let p = KeyAddPayload { fid: c.fid(), key: &kb, key_type: c.u32(), scopes: &scopes, ttl: c.u32(), nonce: c.u32(), deadline: c.u32() };
        let s = sign(c, &k, add_digest(&p, chain));
        let show = format!("fid {} key {:?} type {} scopes {:?} ttl {} nonce {} deadline {} chain {} signature {:?}", p.fid, p.key, p.key_type, p.scopes, p.ttl, p.nonce, p.deadline, chain, s);
        c.case("recover_key_add_custody_address", show.clone(), || same("signer", addr(recover_key_add_custody_address(&p, &s, chain)), Some(me.clone())));
        let w = wrong(c, &s);
        c.case("recover_key_add_custody_address", format!("{} cut to {}", show, w.len()), || same("signer", addr(recover_key_add_custody_address(&p, &w, chain)), None));
        let (mut q, mut ch, mut s2, mut k2, mut bad) = (p, chain, scopes.clone(), kb.clone(), false);
        let d = 1 + c.u32() / 2;
        let what = c.below(9);
        match what {
            0 => q.fid = q.fid.wrapping_add(d as u64), 1 => { if k2.is_empty() || c.p(1, 4) { k2.push(0) } else { let i = c.below(k2.len() as u64) as usize; k2[i] ^= 1 << c.below(8) } }
            2 => q.key_type = q.key_type.wrapping_add(d), 3 => { if s2.is_empty() || c.p(1, 3) { s2.push(1) } else { let i = c.below(s2.len() as u64) as usize; s2[i] ^= 1 << c.below(31) } }
            4 => q.ttl = q.ttl.wrapping_add(d), 5 => q.nonce = q.nonce.wrapping_add(d), 6 => q.deadline = q.deadline.wrapping_add(d), 7 => ch = ch.wrapping_add(d),
            _ => { bad = true; let at = c.below(s2.len() as u64 + 1) as usize; s2.insert(at, -1 - (c.u32() >> 1) as i32) }
        }
        q.key = &k2; q.scopes = &s2;
        let show = format!("signed {} but read as fid {} key {:?} type {} scopes {:?} ttl {} nonce {} deadline {} chain {}", show, q.fid, q.key, q.key_type, q.scopes, q.ttl, q.nonce, q.deadline, ch);
        c.case("recover_key_add_custody_address", show, || { let r = addr(recover_key_add_custody_address(&q, &s, ch)); holds("another signer", r != Some(me.clone()) && !(bad && r.is_some())) });
        // removals
        let p = KeyRemovePayload { fid: c.fid(), key: &kb, nonce: c.u32(), deadline: c.u32() };
        let s = sign(c, &k, remove_digest(&p, chain));
        let show = format!("fid {} key {:?} nonce {} deadline {} chain {} signature {:?}", p.fid, p.key, p.nonce, p.deadline, chain, s);
        c.case("recover_key_remove_custody_address", show.clone(), || same("signer", addr(recover_key_remove_custody_address(&p, &s, chain)), Some(me.clone())));
        let w = wrong(c, &s);
        c.case("recover_key_remove_custody_address", format!("{} cut to {}", show, w.len()), || same("signer", addr(recover_key_remove_custody_address(&p, &w, chain)), None));
        let (mut q, mut ch, mut k2) = (p, chain, kb.clone());
        match c.below(5) { 0 => q.fid = q.fid.wrapping_add(d as u64), 1 => k2.push(0), 2 => q.nonce = q.nonce.wrapping_add(d), 3 => q.deadline = q.deadline.wrapping_add(d), _ => ch = ch.wrapping_add(d) }
        q.key = &k2;
        c.case("recover_key_remove_custody_address", format!("signed {} but read as fid {} key {:?} nonce {} deadline {} chain {}", show, q.fid, q.key, q.nonce, q.deadline, ch), || holds("another signer", addr(recover_key_remove_custody_address(&q, &s, ch)) != Some(me.clone())));
        // app key requests
        let (fid, deadline) = (c.fid(), c.int());
        let now = match c.below(4) { 0 => deadline, 1 => deadline.saturating_sub(1), 2 => deadline.saturating_add(1), _ => c.int() };
        let mut sg = sign(c, &k, request_digest(fid, &kb, deadline, chain));
        let (mut f, mut dl, mut stated, mut kk, mut kind, mut ch, mut good) = (word(fid), word(deadline), me.clone(), kb.clone(), 1u32, chain, true);
        match c.below(16) {
            0 => { good = false; let i = c.below(24) as usize; f[i] = 1 + c.u8() % 255 }
            1 => { good = false; let i = c.below(24) as usize; dl[i] = 1 + c.u8() % 255 }
            2 => { good = false; f = word(fid.wrapping_add(d as u64)) }
            3 => { good = false; dl = word(deadline.wrapping_add(d as u64)) }
            4 => { good = false; stated = other.address().to_vec() }
            5 => { good = false; kk.push(1) }
            6 => { kind = c.u32(); good = kind == 1 }
            7 => { good = false; ch = ch.wrapping_add(d) }
            8 => { good = false; sg = wrong(c, &sg) }
            _ => {}
        }
        if stated == me && k.address() == other.address() { continue; }
        let m = encode(&f, &stated, &sg, &dl);
        let ok = good && deadline >= now;
        c.case("verify_signed_key_request_metadata", format!("kind {} metadata {:?} key {:?} now {} chain {}", kind, m, kk, now, ch), || {
            let r = verify_signed_key_request_metadata(kind, &m, &kk, now, ch);
            same("accepted", r.is_ok(), ok)?;
            match r { Ok(v) => same("request", (v.request_fid, v.request_signer.to_vec(), v.deadline), (fid, me.clone(), deadline)), Err(_) => Ok(()) }
        });
        let junk = if c.p(1, 4) { vec![] } else { c.mutate(&m) };
        c.case("verify_signed_key_request_metadata", format!("metadata {:?} key {:?} now {} chain {}", junk, kk, now, ch), || {
            let r = verify_signed_key_request_metadata(1, &junk, &kk, now, ch);
            match r { Ok(v) => holds("unexpired and not empty", v.deadline >= now && !junk.is_empty()), Err(_) => Ok(()) }
        });
    }
}
