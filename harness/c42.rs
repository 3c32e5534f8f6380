use super::support::*;
use crate::connectors::onchain_events::{ens::{namehash, EnsError}, Chain, ChainAPI, RealL1Client};
use crate::core::validations::contract_signature::{verify_signature, Verification};
use alloy_primitives::{keccak256, Address, Bytes, FixedBytes};
use alloy_provider::RootProvider;
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};

// stands for the chain: a JSON-RPC node on the loopback that answers what it was told to and keeps what it was asked
#[derive(Clone, Debug)]
enum Reply { Bytes(Vec<u8>), Refused(i64, String), Down }
#[derive(Default)]
struct Book { code: VecDeque<Reply>, calls: VecDeque<Reply>, asked: Vec<(String, Value)> }
fn answer(book: &Mutex<Book>, body: &[u8]) -> (u16, String) {
    let q: Value = match serde_json::from_slice(body) { Ok(q) => q, Err(_) => return (400, String::new()) };
    let m = q["method"].as_str().unwrap_or("").to_string();
    let mut b = book.lock().unwrap();
    b.asked.push((m.clone(), q["params"].clone()));
    let r = match m.as_str() { "eth_getCode" => b.code.pop_front(), "eth_call" => b.calls.pop_front(), _ => None };
    match r {
        Some(Reply::Bytes(v)) => (200, json!({"jsonrpc": "2.0", "id": q["id"], "result": format!("0x{}", hex::encode(v))}).to_string()),
        Some(Reply::Refused(k, m)) => (200, json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": k, "message": m}}).to_string()),
        _ => (500, "down".to_string()),
    }
}
fn serve(book: Arc<Mutex<Book>>) -> u16 {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    std::thread::spawn(move || for s in l.incoming() {
        let Ok(mut s) = s else { continue };
        let book = book.clone();
        let _ = s.set_nodelay(true);
        std::thread::spawn(move || {
            let mut buf: Vec<u8> = vec![];
            let mut part = [0u8; 65536];
            loop {
                let head = loop {
                    if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break p; }
                    match s.read(&mut part) { Ok(n) if n > 0 => buf.extend_from_slice(&part[..n]), _ => return }
                };
                let text = String::from_utf8_lossy(&buf[..head]).to_lowercase();
                let n: usize = text.lines().find_map(|l| l.strip_prefix("content-length:").and_then(|v| v.trim().parse().ok())).unwrap_or(0);
                while buf.len() < head + 4 + n { match s.read(&mut part) { Ok(k) if k > 0 => buf.extend_from_slice(&part[..k]), _ => return } }
                let (status, out) = answer(&book, &buf[head + 4..head + 4 + n]);
                buf.drain(..head + 4 + n);
                if s.write_all(format!("HTTP/1.1 {} x\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{}", status, out.len(), out).as_bytes()).is_err() { return }
            }
        });
    });
    port
}
// the name hash, from its definition
fn node_of(name: &str) -> [u8; 32] {
    let name: String = name.chars().filter(|c| *c as u32 != 0xfe0f).collect();
    fn go(n: &str) -> [u8; 32] {
        let (first, rest) = match n.find('.') { Some(i) => (&n[..i], Some(&n[i + 1..])), None => (n, None) };
        let up = match rest { Some(r) => go(r), None => [0u8; 32] };
        keccak256(cat(&[&up, keccak256(first.as_bytes()).as_slice()])).0
    }
    go(&name)
}
fn word(b: &[u8]) -> Vec<u8> { cat(&[&vec![0u8; 32 - b.len()], b]) }
// a dynamic argument after its offset: its length, its bytes, filled up with zeros
fn tail(b: &[u8]) -> Vec<u8> { cat(&[&word(&be(b.len() as u64, 8)), b, &vec![0u8; (32 - b.len() % 32) % 32]]) }
fn input_of(tx: &Value) -> Vec<u8> { hex::decode(tx["input"].as_str().or(tx["data"].as_str()).unwrap_or("0x").trim_start_matches("0x")).unwrap_or_default() }
fn lower(v: &Value) -> String { v.as_str().unwrap_or("").to_lowercase() }

pub fn run(c: &mut Ctx) {
    let book = Arc::new(Mutex::new(Book::default()));
    let port = serve(book.clone());
    let url = format!("http://127.0.0.1:{}", port);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let provider: RootProvider = RootProvider::new_http(url.parse().unwrap());
    for known in [("", "0000000000000000000000000000000000000000000000000000000000000000"), ("eth", "93cdeb708b7545dc668eb9280176169d1c33cfd8ed6f04690a0bcc88a93fc4ae"), ("foo.eth", "de9b09fd7c5f901e23a3f19fecc54828e9c848539801e86591bd9801b019f84f"), ("alice.eth", "787192fc5378cc32aa956ddfdedbf26b24e8d78e40109add0eea2c1a012c3dec")] {
        c.case("namehash", format!("{:?}", known.0), || same("node", &hex::encode(namehash(known.0)), &known.1.to_string()));
    }
    for (id, want) in [(1u32, Some(Chain::EthMainnet)), (10, Some(Chain::OptimismMainnet)), (8453, Some(Chain::BaseMainnet)), (0, None), (2, None), (11155111, None), (u32::MAX, None)] {
        c.case("from_chain_id", format!("{}", id), || holds("the chain of this number", Chain::from_chain_id(id) == want));
    }
    for _ in 0..c.rounds(3000) {
        if c.enough() { return; }
        let k = c.int_in(0, 6);
        let mut parts = vec![];
        for _ in 0..k { let n = c.int_in(0, 7) as usize; parts.push(match c.below(5) { 0 => String::new(), 1 => format!("{}\u{fe0f}{}", c.alpha("ab1", n), c.alpha("xyz", 2)), 2 => "eth".to_string(), 3 => c.string(&[0, 1, 8]), _ => c.alpha("abcdeABCDXYZfghij0123456789-_\u{e9}\u{1f600}", n) }); }
        let name = parts.join(".");
        c.case("namehash", format!("{:?}", name), || { let want = if name.is_empty() { [0u8; 32] } else { node_of(&name) }; same("node", &namehash(&name).0, &want) });
    }
    let magic = [0x16u8, 0x26, 0xba, 0x7e];
    for i in 0..c.rounds(500) {
        if c.enough() { return; }
        let who: [u8; 20] = c.bytes(20).try_into().unwrap();
        let h: [u8; 32] = c.bytes(32).try_into().unwrap();
        let n = c.pick(&[0usize, 1, 31, 32, 33, 64, 65, 65, 65, 96, 130, 200, 600]);
        let sig = c.bytes(n);
        let code = match c.below(8) { 0 => Reply::Down, 1 => Reply::Refused(-32000, "header not found".into()), 2 | 3 | 4 => Reply::Bytes(vec![]), 5 => Reply::Bytes(vec![0]), _ => Reply::Bytes(vec![0x60, 0x80]) };
        let wide = |a: &[u8], n: usize| { let mut v = a.to_vec(); v.resize(n, 0); v };
        let reply = match c.below(16) {
            0 => Reply::Down, 1 => Reply::Refused(3, "execution reverted".into()), 2 => Reply::Refused(3, "execution reverted: bad signature".into()),
            3 => Reply::Refused(-32000, "rate limited: execution reverted".into()), 4 => Reply::Refused(3, "Execution reverted".into()), 5 => Reply::Refused(-32005, "limit exceeded".into()),
            6 | 7 => Reply::Bytes(wide(&magic, 32)), 8 => Reply::Bytes(magic.to_vec()), 9 => Reply::Bytes(magic[..3].to_vec()), 10 => Reply::Bytes(word(&magic)),
            11 => Reply::Bytes(vec![1]), 12 => Reply::Bytes(wide(&[1], 32)), 13 => Reply::Bytes(word(&[1])), 14 => Reply::Bytes(vec![]),
            _ => { let mut m = magic; let i = c.below(4) as usize; m[i] ^= 1 << c.below(8); let w = c.pick(&[4usize, 32]); Reply::Bytes(wide(&m, w)) }
        };
        // what the verdict must be
        let has_code = match &code { Reply::Bytes(b) => Some(!b.is_empty()), _ => None };
        let want = match (has_code, &reply) {
            (None, _) => None,
            (Some(true), Reply::Bytes(b)) => Some(b.len() >= 4 && b[..4] == magic),
            (Some(false), Reply::Bytes(b)) => Some(!b.is_empty() && b[0] == 1),
            (_, Reply::Refused(_, m)) => if m.starts_with("execution reverted") { Some(false) } else { None },
            (_, Reply::Down) => None,
        };
        *book.lock().unwrap() = Book { code: [code.clone()].into(), calls: [reply.clone()].into(), asked: vec![] };
        let _ = i;
        c.case("verify_signature", format!("wallet {} hash {} signature {} bytes, code {:?}, answer {:?}", hex::encode(who), hex::encode(h), sig.len(), code, reply), || {
            let r = rt.block_on(verify_signature(Bytes::from(sig.clone()), Address::from(who), FixedBytes::<32>::from(h), &provider));
            let got = match r { Ok(Verification::Valid) => Some(true), Ok(Verification::Invalid) => Some(false), Err(_) => None };
            same("verdict", &got, &want)?;
            let asked = std::mem::take(&mut book.lock().unwrap().asked);
            holds("the code of the wallet is asked for first", asked.first().map(|(m, p)| m == "eth_getCode" && lower(&p[0]) == format!("0x{}", hex::encode(who))).unwrap_or(false))?;
            let Some(has_code) = has_code else { return same("questions after the chain failed", &asked.len(), &1) };
            same("questions", &asked.len(), &2)?;
            let tx = &asked[1].1[0];
            let data = input_of(tx);
            if has_code {
                same("asked", &lower(&tx["to"]), &format!("0x{}", hex::encode(who)))?;
                same("question", &data, &cat(&[&magic, &h, &word(&[0x40]), &tail(&sig)]))
            } else {
                holds("a deployment", tx["to"].is_null())?;
                let args = cat(&[&word(&who), &h, &word(&[0x60]), &tail(&sig)]);
                holds("the deployment ends with wallet, hash and signature", data.ends_with(&args))?;
                use sha2::Digest;
                same("the code deployed", &hex::encode(sha2::Sha256::digest(&data[..data.len() - args.len()])), &"7929acc3c7f14ff8fcfe6b7752a6b0327811da4697ce7b3bb438bf7b237ab410".to_string())
            }
        });
    }
    let registry = [0x77u8; 20];
    let with = RealL1Client::new(url.clone(), Some(Address::from(registry))).unwrap_or_else(|_| panic!("client"));
    let without = RealL1Client::new(url.clone(), None).unwrap_or_else(|_| panic!("client"));
    holds("no client without an address", RealL1Client::new(String::new(), None).is_err()).unwrap();
    for _ in 0..c.rounds(150) {
        if c.enough() { return; }
        let n = c.int_in(1, 9) as usize;
        let name = format!("{}{}", c.alpha("abcdefg0123456789-", n), c.pick(&[".eth", ".base.eth", "", ".sub.eth"]));
        let res: [u8; 20] = if c.p(1, 5) { [0; 20] } else { c.bytes(20).try_into().unwrap() };
        let own: [u8; 20] = if c.p(1, 6) { [0; 20] } else { c.bytes(20).try_into().unwrap() };
        let fail = |c: &mut Ctx, a: &[u8]| match c.below(8) { 0 => Reply::Down, 1 => Reply::Refused(3, "execution reverted".into()), _ => Reply::Bytes(word(a)) };
        let (a, b) = (fail(c, &res), fail(c, &own));
        let configured = c.p(5, 6);
        *book.lock().unwrap() = Book { code: [].into(), calls: [a.clone(), b.clone()].into(), asked: vec![] };
        c.case("resolve_ens_name", format!("{:?} registry {} resolver {:?} address {:?}", name, configured, a, b), || {
            let r = rt.block_on(if configured { with.resolve_ens_name(name.clone()) } else { without.resolve_ens_name(name.clone()) });
            let asked = std::mem::take(&mut book.lock().unwrap().asked);
            let question = |i: usize, to: &[u8], f: &str| -> Result<(), String> { same("asked", &(lower(&asked[i].1[0]["to"]), input_of(&asked[i].1[0])), &(format!("0x{}", hex::encode(to)), cat(&[&keccak256(f.as_bytes())[..4], &node_of(&name)]))) };
            if !configured { holds("no registry, no answer", matches!(r, Err(EnsError::ResolverNotFound(_))))?; return same("questions", &asked.len(), &0); }
            question(0, &registry, "resolver(bytes32)")?;
            match &a {
                Reply::Bytes(_) if res == [0; 20] => { holds("no resolver, no answer", matches!(r, Err(EnsError::ResolverNotFound(_))))?; same("questions", &asked.len(), &1) }
                Reply::Bytes(_) => {
                    question(1, &res, "addr(bytes32)")?;
                    match &b { Reply::Bytes(_) => match r { Ok(x) => same("address", &x.0 .0, &own), Err(e) => Err(format!("refused: {}", e)) }, _ => holds("a failure of the resolver is no answer", matches!(r, Err(EnsError::Resolve(_)))) }
                }
                _ => { holds("a failure of the registry is no answer", matches!(r, Err(EnsError::Resolver(_))))?; same("questions", &asked.len(), &1) }
            }
        });
    }
    // every chain asks the registry that stands on it, and the one without a registry none
    for (chain, at) in [(Chain::EthMainnet, Some("00000000000c2e074ec69a0dfb2997ba6c7d2e1e")), (Chain::BaseMainnet, Some("b94704422c2a1e396835a571837aa5ae53285a95")), (Chain::OptimismMainnet, None)] {
        for off in 0..4u8 {
            let mut cf = crate::cfg::Config { l1_rpc_url: url.clone(), ..Default::default() };
            cf.base_onchain_events.rpc_url = url.clone();
            cf.onchain_events.rpc_url = url.clone();
            match off { 1 => cf.l1_rpc_url = String::new(), 2 => cf.base_onchain_events.rpc_url = String::new(), 3 => cf.onchain_events.rpc_url = String::new(), _ => {} }
            let name = format!("{:?}", chain);
            let again = Chain::from_chain_id(match chain { Chain::EthMainnet => 1, Chain::OptimismMainnet => 10, _ => 8453 });
            let gone = off == match chain { Chain::EthMainnet => 1, Chain::BaseMainnet => 2, _ => 3 };
            *book.lock().unwrap() = Book { code: [].into(), calls: [Reply::Bytes(word(&[9u8; 20])), Reply::Bytes(word(&[8u8; 20]))].into(), asked: vec![] };
            c.case("ChainClients", format!("{}, configured without {}", name, off), || {
                let all = crate::connectors::onchain_events::ChainClients::new(&cf);
                let Ok(one) = all.for_chain(again.unwrap()) else { return holds("a configured chain has a client", gone) };
                holds("a chain without an address has no client", !gone)?;
                let r = rt.block_on(one.resolve_ens_name("a.eth".to_string()));
                let asked: Vec<String> = book.lock().unwrap().asked.iter().map(|(_, p)| lower(&p[0]["to"])).collect();
                match at { Some(at) => { same("asked", &asked, &vec![format!("0x{}", at), format!("0x{}", "09".repeat(20))])?; holds("the answer", matches!(r, Ok(a) if a.0 .0 == [8u8; 20])) }
                    None => { same("asked", &asked, &vec![])?; holds("no registry, no answer", matches!(r, Err(EnsError::ResolverNotFound(_)))) } }
            });
        }
    }
}
