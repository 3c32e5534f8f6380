//@mount src/network/mesh/nodes.rs
use super::*;
use crate::network::mesh::config::Config;
use crate::verif_h::support::*;
use std::net::{Ipv4Addr, Ipv6Addr};

fn inward4(a: [u8; 4]) -> bool {
    a[0] == 10 || a[0] == 127 || (a[0] == 172 && (16..32).contains(&a[1])) || (a[0] == 192 && a[1] == 168) || (a[0] == 169 && a[1] == 254) || a == [0; 4] || a == [255; 4]
}
fn inward6(o: [u8; 16]) -> bool {
    if o[..10] == [0; 10] && o[10] == 255 && o[11] == 255 { return inward4([o[12], o[13], o[14], o[15]]); }
    o[0] & 0xfe == 0xfc || (o[0] == 0xfe && o[1] & 0xc0 == 0x80) || (o[..15] == [0; 15] && o[15] <= 1)
}
fn v4(c: &mut Ctx) -> [u8; 4] {
    let d = c.bytes(4);
    match c.below(12) {
        0 => [10, d[1], d[2], d[3]],
        1 => [127, d[1], d[2], d[3]],
        2 => [172, c.pick(&[15, 16, 17, 24, 30, 31, 32, 33]), d[2], d[3]],
        3 => [192, c.pick(&[167, 168, 169]), d[2], d[3]],
        4 => [169, c.pick(&[253, 254, 255]), d[2], d[3]],
        5 => [c.pick(&[0, 255]), c.pick(&[0, 255]), c.pick(&[0, 255]), c.pick(&[0, 1, 254, 255])],
        6 => [0; 4],
        7 => [255; 4],
        8 => [c.pick(&[9, 11, 126, 128, 171, 173, 168, 170, 191, 193]), d[1], d[2], d[3]],
        _ => [d[0], d[1], d[2], d[3]],
    }
}
fn v6(c: &mut Ctx) -> [u8; 16] {
    let mut o = [0u8; 16];
    let d = c.bytes(16);
    match c.below(10) {
        0 | 1 => { o[10] = 255; o[11] = 255; o[12..].copy_from_slice(&v4(c)); }
        2 => { o.copy_from_slice(&d); o[0] = c.pick(&[0xfb, 0xfc, 0xfd, 0xfe, 0xff]); }
        3 => { o.copy_from_slice(&d); o[0] = c.pick(&[0xfe, 0xff]); o[1] = c.pick(&[0x7f, 0x80, 0x81, 0x9f, 0xa0, 0xbf, 0xc0, 0xff, 0]); }
        4 => { o[15] = c.pick(&[0, 1, 2]); }
        5 => { o[12..].copy_from_slice(&v4(c)); }
        6 => { o[10] = 255; o[11] = c.pick(&[254, 255]); o[c.below(10) as usize] = 1; o[12] = 10; }
        _ => o.copy_from_slice(&d),
    }
    o
}
// an address component together with what the browser would be sent to
fn host(c: &mut Ctx) -> (String, String, bool) {
    match c.below(5) {
        0 | 1 => { let a = Ipv4Addr::from(v4(c)); (format!("/ip4/{}", a), a.to_string(), inward4(a.octets())) }
        2 | 3 => { let a = Ipv6Addr::from(v6(c)); (format!("/ip6/{}", a), format!("[{}]", a), inward6(a.octets())) }
        _ => {
            let k = c.pick(&["dns", "dns4", "dns6", "dnsaddr"]);
            match c.below(4) {
                // a name that is an address literal is judged as that address
                0 => { let a = Ipv4Addr::from(v4(c)); (format!("/{}/{}", k, a), a.to_string(), inward4(a.octets())) }
                _ => { let h = c.pick(&["snap.farcaster.xyz", "example.org", "10.example.org", "a"]); (format!("/{}/{}", k, h), h.to_string(), false) }
            }
        }
    }
}
const PID: &str = "12D3KooWCc28TYrrXFivwUshyZ8R5HqPMgx4f7AP54iCDLYr7kFR";

fn node(name: String, url: Option<String>, pk: Option<String>, id: Option<String>, offline: bool) -> KnownNode {
    KnownNode { name, operator: Operator::Unknown, role: NodeRole::Unknown, http_api_url: url, consensus_public_key: pk, peer_id: id, offline, note: None }
}

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(20000) {
        let (h, name, inward) = host(c);
        let tail = c.pick(&["/tcp/3382", "/udp/3382/quic-v1", "", "/tcp/443/ws"]);
        let tail = if c.p(1, 3) { format!("{}/p2p/{}", tail, PID) } else { tail.to_string() };
        // a second component that names a host does not count
        let more = if c.p(1, 4) { host(c).0 } else { String::new() };
        let lead = if c.p(1, 6) { "/tcp/1" } else { "" };
        let addr = format!("{}{}{}{}", lead, h, tail, more);
        let addr = if c.p(1, 20) { c.pick(&["", "/", "nonsense", "/ip4/300.1.1.1/tcp/1", "http://10.0.0.1", "/tcp/3382", "/memory/5"]).to_string() } else { addr };
        let parsed = addr.starts_with("/ip") || addr.starts_with("/dns") || addr.starts_with("/tcp/1/");
        let parsed = parsed && !addr.contains("300.1");
        let url = c.pick(&[None, Some(""), Some("http://10.0.0.9:3381"), Some("https://snap.farcaster.xyz:3381")]).map(str::to_string);
        let known = if c.p(1, 2) { Some(node("n".into(), url.clone(), None, None, c.p(1, 4))) } else { None };
        let want = match &known {
            Some(k) if k.offline => None,
            Some(k) if k.http_api_url.as_deref().map_or(false, |u| !u.is_empty()) => Some((k.http_api_url.clone().unwrap(), UrlSource::Known)),
            _ if parsed && !inward => Some((format!("http://{}:3381", name), UrlSource::Observed)),
            _ => None,
        };
        c.case("resolve_http_api_url", format!("known {:?}, observed {:?}", known, addr), || same("URL", resolve_http_api_url(known.as_ref(), &addr), want));
    }
    for _ in 0..c.rounds(8000) {
        let (text, want) = match c.below(3) {
            0 => { let a = Ipv4Addr::from(v4(c)); (a.to_string(), inward4(a.octets())) }
            1 => {
                let a = Ipv6Addr::from(v6(c)); let s = a.segments();
                // the same address in full, in capitals, or shortened
                (match c.below(3) { 0 => a.to_string(), 1 => s.iter().map(|x| format!("{:04X}", x)).collect::<Vec<_>>().join(":"), _ => s.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(":") }, inward6(a.octets()))
            }
            _ => (c.pick(&["", "localhost.example", "snap.uno.fun", "10.0.0.1.example", "fd00.example", "256.1.1.1"]).to_string(), false),
        };
        c.case("is_private_host", text.clone(), || same("inward", is_private_host(&text), want));
    }
    // the table of known nodes
    let base: Vec<KnownNode> = BUILTIN.iter().map(|b| b.to_known()).collect();
    let mix = |c: &mut Ctx, s: &str| -> String { match c.below(3) { 0 => s.to_string(), 1 => s.to_ascii_uppercase(), _ => s.char_indices().map(|(i, x)| if i % 3 == 0 { x.to_ascii_uppercase() } else { x }).collect() } };
    for _ in 0..c.rounds(4000) {
        let mut all = base.clone();
        let mut cfg = Vec::new();
        for i in 0..c.below(6) {
            let old = { let n = all.len() as u64; let pool: Vec<KnownNode> = all.clone(); pool[c.below(n) as usize].clone() };
            let fresh_pk = if c.p(1, 5) { "cafe".to_string() } else { format!("{:x}", c.bytes(32).iter().fold(0u128, |a, x| a.wrapping_mul(257).wrapping_add(*x as u128))) };
            let fresh_id = if c.p(1, 5) { "12D3same".to_string() } else { format!("12D3new{}", i) };
            let (pk, id) = match c.below(8) {
                0 => (old.consensus_public_key.clone(), old.peer_id.clone()),
                1 => (old.consensus_public_key.clone(), None),
                2 => (None, old.peer_id.clone()),
                3 => (old.consensus_public_key.clone(), Some(fresh_id)),
                4 => (Some(fresh_pk), old.peer_id.clone()),
                5 => (None, None),
                6 => (c.pick(&[None, Some(String::new()), Some(fresh_pk.clone())]), c.pick(&[None, Some(String::new()), Some(fresh_id.clone())])),
                _ => (Some(fresh_pk), Some(fresh_id)),
            };
            let pk = pk.map(|p| mix(c, &p));
            let lower = pk.clone().filter(|p| !p.is_empty()).map(|p| p.to_ascii_lowercase());
            let pid = id.clone().filter(|p| !p.is_empty());
            let by_pk = all.iter().position(|n| lower.is_some() && n.consensus_public_key.as_ref().map(|p| p.to_ascii_lowercase()) == lower);
            let by_id = all.iter().position(|n| pid.is_some() && n.peer_id == pid);
            // an entry that names one node by key and another by peer id contradicts the table (issue 978): not judged
            if by_pk.is_some() && by_id.is_some() && by_pk != by_id { continue; }
            let n = node(format!("cfg{}", i), None, pk.clone(), id.clone(), false);
            cfg.push(n.clone());
            if pk.is_none() && id.is_none() { continue; }
            if let Some(x) = by_pk.or(by_id) { all.remove(x); }
            all.push(n);
        }
        let reg = NodeRegistry::from_config(&Config { cache_ttl_secs: 5, nodes: cfg.clone() });
        let (r, a) = (&reg, &all);
        c.case("from_config", format!("{:?}", cfg), || {
            same("number of nodes", r.len(), a.iter().filter(|n| [&n.consensus_public_key, &n.peer_id].iter().any(|k| k.as_ref().map_or(false, |k| !k.is_empty()))).count())?;
            for n in a { if let Some(p) = n.consensus_public_key.as_ref().filter(|p| !p.is_empty()) { same("found by key", r.lookup("", Some(p)).map(|x| &x.name), Some(&n.name))?; }
                if let Some(p) = n.peer_id.as_ref().filter(|p| !p.is_empty()) { same("found by peer id", r.lookup(p, None).map(|x| &x.name), Some(&n.name))?; } }
            Ok(())
        });
        for _ in 0..3 {
            let pool: Vec<KnownNode> = all.iter().chain(&base).cloned().collect();
            let (x, y) = (c.below(pool.len() as u64) as usize, c.below(pool.len() as u64) as usize);
            let pk = match c.below(5) { 0 => None, 1 => Some(String::new()), 2 => Some("deadbeef".to_string()), _ => pool[x].consensus_public_key.clone() };
            let pk = pk.map(|p| mix(c, &p));
            let id = match c.below(4) { 0 => String::new(), 1 => "12D3KooWunknown".to_string(), _ => pool[y].peer_id.clone().unwrap_or_default() };
            let lower = pk.clone().filter(|p| !p.is_empty()).map(|p| p.to_ascii_lowercase());
            let want = all.iter().find(|n| lower.is_some() && n.consensus_public_key.as_ref().map(|p| p.to_ascii_lowercase()) == lower).or_else(|| all.iter().find(|n| !id.is_empty() && n.peer_id.as_ref() == Some(&id))).map(|n| n.name.clone());
            c.case("lookup", format!("config {:?}; peer id {:?}, key {:?}", cfg, id, pk), || same("node", reg.lookup(&id, pk.as_deref()).map(|n| n.name.clone()), want));
        }
    }
}
