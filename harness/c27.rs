use super::support::*;
use crate::network::rpc_extensions::authenticate_request;
use base64::Engine;
use std::collections::HashMap;

pub fn run(c: &mut Ctx) {
    let b64 = |x: &[u8]| base64::engine::general_purpose::STANDARD.encode(x);
    let names = ["", "a", "alice", "Alice", "alic", "alice2", "bob", "bö", "a b", "root"];
    let words = ["", "x", "secret", "Secret", "secre", "secret1", "pässword", "p w", "0", "secret "];
    for _ in 0..c.rounds(20000) {
        let mut users = HashMap::new();
        for _ in 0..c.below(4) { users.insert(c.pick(&names).to_string(), c.pick(&words).to_string()); }
        let mut list: Vec<(String, String)> = users.clone().into_iter().collect(); list.sort();
        let u = if !list.is_empty() && c.p(3, 4) { c.pick(&list).0 } else { c.pick(&names).to_string() };
        let p = match users.get(&u) { Some(p) if c.p(3, 4) => p.clone(), _ => c.pick(&words).to_string() };
        let mut ok = users.get(&u) == Some(&p);
        let mut plain = format!("{}:{}", u, p).into_bytes();
        match c.below(12) {
            0 => { plain.push(b':'); ok = false; } 1 => { plain = u.as_bytes().to_vec(); ok = false; } 2 => { plain = format!(":{}:{}", u, p).into_bytes(); ok = false; }
            3 => { plain.push(0xff); ok = false; } 4 => { plain = format!("{}:{}:{}", u, p, p).into_bytes(); ok = false; } 5 => { plain = format!("{}::{}", u, p).into_bytes(); ok = false; }
            6 => { plain.push(b'\n'); ok = false; } 7 => { plain = p.as_bytes().to_vec(); ok = false; } _ => {}
        }
        let e = b64(&plain);
        let (h, fine) = match c.below(16) {
            0 => (format!("basic {}", e), false), 1 => (format!("Bearer {}", e), false), 2 => (e.clone(), false), 3 => (format!("Basic {} x", e), false),
            4 => (format!("Basic{}", e), false), 5 => (format!("Basic {}!", e), false), 6 => ("Basic".into(), false), 7 => ("".into(), false),
            8 => (format!("Basic  {} ", e), !e.is_empty()), 9 => (format!("\tBasic\t{}", e), !e.is_empty()), 10 => (format!("Basic x {}", e), false), 11 => (format!("Digest Basic {}", e), false),
            _ => (format!("Basic {}", e), !e.is_empty()),
        };
        let mut r = tonic::Request::new(());
        let mut present = c.p(9, 10);
        if present { match h.parse::<tonic::metadata::MetadataValue<_>>() { Ok(v) => { r.metadata_mut().insert("authorization", v); } Err(_) => present = false } }
        else if c.p(1, 2) { if let Ok(v) = h.parse::<tonic::metadata::MetadataValue<_>>() { r.metadata_mut().insert("x-authorization", v); } }
        let want = users.is_empty() || present && fine && ok;
        c.case("authenticate", format!("users {:?} header {:?} ({:?})", list, if present { Some(&h) } else { None }, String::from_utf8_lossy(&plain)), || match authenticate_request(&r, &users) {
            Ok(()) => same("authorised", true, want),
            Err(e) => { same("authorised", false, want)?; same("code", e.code(), tonic::Code::Unauthenticated) }
        });
    }
}
