//@mount src/core/validations/verification.rs
use super::*;
use crate::verif_h::support::*;
use alloy_primitives::keccak256;
use alloy_signer::SignerSync;
use alloy_signer_local::PrivateKeySigner;
use ed25519_dalek::Signer;

fn word(x: u64) -> Vec<u8> { be(x, 32) }
fn addr(a: &[u8]) -> Vec<u8> { cat(&[&[0u8; 12], a]) }
fn h(b: &[u8]) -> Vec<u8> { keccak256(b).to_vec() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn final_hash(domain: Vec<u8>, s: Vec<u8>) -> [u8; 32] { keccak256(cat(&[&[0x19, 0x01], &h(&domain), &h(&s)])).0 }
fn claim_digest(fid: u64, address: &[u8], block: &[u8], network: i32) -> [u8; 32] {
    final_hash(
        cat(&[&h(b"EIP712Domain(string name,string version,bytes32 salt)"), &h(b"Farcaster Verify Ethereum Address"), &h(b"2.0.0"), &unhex("f2d857f4a3edcb9b78b4d503bfe733db1e3f6cdc2b7971ee739626c97e86a558")]),
        cat(&[&h(b"VerificationClaim(uint256 fid,address address,bytes32 blockHash,uint8 network)"), &word(fid), &addr(address), block, &word(network as u64)]))
}
fn name_digest(name: &str, timestamp: u64, owner: &[u8]) -> [u8; 32] {
    final_hash(
        cat(&[&h(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)"), &h(b"Farcaster name verification"), &h(b"1"), &word(1), &addr(&unhex("e3be01d99baa8db9905b33a3ca391238234b79d1"))]),
        cat(&[&h(b"UserNameProof(string name,uint256 timestamp,address owner)"), &h(name.as_bytes()), &word(timestamp), &addr(owner)]))
}
// base58, Bitcoin alphabet
fn b58(b: &[u8]) -> String {
    let mut d: Vec<u8> = vec![];
    for x in b {
        let mut carry = *x as u32;
        for k in d.iter_mut() { let v = *k as u32 * 256 + carry; *k = (v % 58) as u8; carry = v / 58; }
        while carry > 0 { d.push((carry % 58) as u8); carry /= 58; }
    }
    let a = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let lead = b.iter().take_while(|x| **x == 0).count();
    let mut s = "1".repeat(lead);
    for x in d.iter().rev() { s.push(a[*x as usize] as char); }
    s
}
fn sol_text(fid: u64, a: &[u8], block: &[u8], network: i32) -> String { format!("fid: {} address: {} network: {} blockHash: {} protocol: 1", fid, b58(a), network, b58(block)) }
fn key(c: &mut Ctx) -> PrivateKeySigner { loop { let b = c.bytes(32); if let Ok(k) = PrivateKeySigner::from_slice(&b) { return k; } } }
fn sign(c: &mut Ctx, k: &PrivateKeySigner, hash: [u8; 32]) -> Vec<u8> {
    let s = k.sign_hash_sync(&hash.into()).unwrap();
    let mut b = s.as_bytes().to_vec();
    b[64] = if s.v() { c.pick(&[28u8, 28, 1, 0xff]) } else { c.pick(&[27u8, 0]) };
    b
}
fn net(c: &mut Ctx) -> FarcasterNetwork { c.pick(&[FarcasterNetwork::Mainnet, FarcasterNetwork::Testnet, FarcasterNetwork::Devnet, FarcasterNetwork::None]) }
fn flip(c: &mut Ctx, b: &mut Vec<u8>) { if !b.is_empty() { let i = c.below(b.len() as u64) as usize; b[i] ^= 1 << c.below(8); } }
fn resize(c: &mut Ctx, b: &mut Vec<u8>) { let n = b.len(); let m = c.pick(&[0, 1, n - 1, n + 1, 20, 32, 64, 65, 2 * n]); b.resize(m, 7); }

const CHAINS: [u32; 5] = [0, 1, 5, 10, 420];

pub fn run(c: &mut Ctx) {
    c.case("FNAME_SIGNER_ADDRESS", "the default registry signer".to_string(), || same("address", FNAME_SIGNER_ADDRESS.to_vec(), unhex("bc5274efc266311015793d89e9b591fa46294741")));
    for _ in 0..c.rounds(900) {
        // Ethereum
        let k = key(c);
        let (fid, network, block) = (c.fid(), net(c), c.bytes(32));
        let me = k.address().to_vec();
        let sig = sign(c, &k, claim_digest(fid, &me, &block, network as i32));
        let mut b = VerificationAddAddressBody { address: me.clone(), claim_signature: sig, block_hash: block.clone(), verification_type: 0, chain_id: c.pick(&CHAINS), protocol: 0 };
        let (mut f, mut n, mut proven) = (fid, network, true);
        if c.p(1, 2) { match c.below(8) {
            0 => { f = f.wrapping_add(1 + c.below(1 << 40)); proven = false }
            1 => { let m = net(c); proven = m == n; n = m }
            2 => { flip(c, &mut b.address); proven = false }
            3 => { flip(c, &mut b.block_hash); proven = false }
            4 => { resize(c, &mut b.address); proven = b.address == me }
            5 => { resize(c, &mut b.block_hash); proven = b.block_hash == block }
            6 => { let i = c.below(64) as usize; b.claim_signature[i] ^= 1 << c.below(8); proven = false }
            _ => { let s0 = b.claim_signature.clone(); resize(c, &mut b.claim_signature); proven = b.claim_signature == s0 }
        } }
        if c.p(1, 3) { let x = c.u32(); let y = c.pick(&CHAINS); b.chain_id = c.pick(&[x, y.wrapping_add(65536), y.wrapping_add(1 << 17), y + 1, y.wrapping_add(256)]); }
        if c.p(1, 4) { b.verification_type = c.pick(&[1u32, 1, 2, 256, u32::MAX]); let m = c.pick(&[0usize, 65, 2047, 2048, 2049, 4096]); if c.p(1, 2) { b.claim_signature.resize(m, 1); } }
        let sized = b.address.len() == 20 && b.block_hash.len() == 32 && b.claim_signature.len() <= 2048 && CHAINS.contains(&b.chain_id);
        let ok = sized && (b.verification_type == 1 || b.verification_type == 0 && proven);
        c.case("validate_add_address", format!("signed by {:?} for fid {} network {:?}; read with fid {} network {:?}: {:?}", me, fid, network, f, n, b), || same("accepted", validate_add_address(&b, f, n).is_ok(), ok));
        // Solana
        let seed: [u8; 32] = c.bytes(32).try_into().unwrap();
        let k = ed25519_dalek::SigningKey::from_bytes(&seed);
        let me = k.verifying_key().to_bytes().to_vec();
        let sig = k.sign(sol_text(fid, &me, &block, network as i32).as_bytes()).to_bytes().to_vec();
        let mut b = VerificationAddAddressBody { address: me.clone(), claim_signature: sig, block_hash: block.clone(), verification_type: c.below(3) as u32, chain_id: c.u32(), protocol: 1 };
        let (mut f, mut n, mut proven) = (fid, network, true);
        if c.p(1, 2) { match c.below(8) {
            0 => { f = f.wrapping_add(1 + c.below(1 << 40)); proven = false }
            1 => { let m = net(c); proven = m == n; n = m }
            2 => { flip(c, &mut b.address); proven = false }
            3 => { flip(c, &mut b.block_hash); proven = false }
            4 => { resize(c, &mut b.address); proven = b.address == me }
            5 => { resize(c, &mut b.block_hash); proven = b.block_hash == block }
            6 => { flip(c, &mut b.claim_signature); proven = false }
            _ => { let s0 = b.claim_signature.clone(); resize(c, &mut b.claim_signature); proven = b.claim_signature == s0 }
        } }
        c.case("validate_add_address", format!("signed by {:?} for fid {} network {:?}; read with fid {} network {:?}: {:?}", me, fid, network, f, n, b), || same("accepted", validate_add_address(&b, f, n).is_ok(), proven));
        // a key of small order signs anything: refused
        let weak = { let mut w = vec![0u8; 32]; w[0] = c.pick(&[0u8, 1]); w };
        let mut s = vec![0u8; 64]; s[0] = c.pick(&[0u8, 1]);
        let b2 = VerificationAddAddressBody { address: weak, claim_signature: s, block_hash: block.clone(), verification_type: 0, chain_id: 0, protocol: 1 };
        c.case("validate_add_address", format!("a weak key: {:?}", b2), || same("accepted", validate_add_address(&b2, fid, network).is_ok(), false));
        let mut b3 = b.clone();
        b3.protocol = c.i32();
        if b3.protocol != 0 && b3.protocol != 1 { c.case("validate_add_address", format!("{:?}", b3), || same("accepted", validate_add_address(&b3, fid, network).is_ok(), false)); }
        // removals
        let r = proto::VerificationRemoveBody { address: c.blob(&[20, 32]), protocol: if c.p(1, 5) { c.i32() } else { c.below(3) as i32 } };
        let ok = r.protocol == 0 && r.address.len() == 20 || r.protocol == 1 && r.address.len() == 32;
        c.case("validate_remove_address", format!("{:?}", r), || same("accepted", validate_remove_address(&r).is_ok(), ok));
        // username transfers
        let k = key(c);
        let (mut name, mut t, mut owner) = (c.text(12), c.int(), c.bytes(20));
        let sig = sign(c, &k, name_digest(&name, t, &owner));
        let (mut signer, mut s, mut good) = (Some(k.address()), sig.clone(), true);
        let network = net(c);
        let mut raw = None;
        if c.p(1, 2) { match c.below(7) {
            0 => { name.push('x'); good = false }
            1 => { t = t.wrapping_add(1 + c.below(1000)); good = false }
            2 => { flip(c, &mut owner); good = false }
            3 => { signer = None; good = false }
            4 => { signer = Some(key(c).address()); good = signer == Some(k.address()) }
            5 => { resize(c, &mut s); good = s == sig }
            _ => { raw = Some(vec![0x61, 0xff, 0x62]); }
        } }
        let bytes = raw.clone().unwrap_or(name.clone().into_bytes());
        let ok = raw.is_none() && (network == FarcasterNetwork::Devnet || good);
        let tr = proto::FnameTransfer { proof: Some(proto::UserNameProof { name: bytes, timestamp: t, owner, signature: s, fid, r#type: 1 }), ..Default::default() };
        c.case("validate_fname_transfer", format!("{:?} on {:?} with signer {:?}", tr, network, signer), || same("accepted", validate_fname_transfer(&tr, network, signer).is_ok(), ok));
    }
}
