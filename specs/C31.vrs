//@include prelude.vrs
global size_of usize == 8;
//@include strings.vrs
//@include maps.vrs
use std::sync::Arc;
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else::<F>] (o: Option<T>, f: F) -> (r: Option<T>)
    where F: core::marker::Destruct, T: core::marker::Destruct,
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
// ---- std and libp2p by their documented behaviour (trusted)
pub uninterp spec fn ascii_lower(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == ascii_lower(s@);
pub struct Ipv4Addr { pub o: [u8; 4] }
pub struct Ipv6Addr { pub o: [u8; 16] }
pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }
impl Clone for Ipv4Addr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Ipv4Addr {}
impl Clone for Ipv6Addr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Ipv6Addr {}
impl Ipv4Addr {
    #[verifier::external_body] pub fn is_private(&self) -> (r: bool) ensures r == (self.o[0] == 10 || (self.o[0] == 172 && 16 <= self.o[1] <= 31) || (self.o[0] == 192 && self.o[1] == 168)) { unimplemented!() }
    #[verifier::external_body] pub fn is_loopback(&self) -> (r: bool) ensures r == (self.o[0] == 127) { unimplemented!() }
    #[verifier::external_body] pub fn is_link_local(&self) -> (r: bool) ensures r == (self.o[0] == 169 && self.o[1] == 254) { unimplemented!() }
    #[verifier::external_body] pub fn is_unspecified(&self) -> (r: bool) ensures r == (self.o@ =~= seq![0u8, 0, 0, 0]) { unimplemented!() }
    #[verifier::external_body] pub fn is_broadcast(&self) -> (r: bool) ensures r == (self.o@ =~= seq![255u8, 255, 255, 255]) { unimplemented!() }
}
impl Ipv6Addr {
    #[verifier::external_body] pub fn octets(&self) -> (r: [u8; 16]) ensures r == self.o { unimplemented!() }
    #[verifier::external_body] pub fn segments(&self) -> (r: [u16; 8]) ensures forall|i: int| 0 <= i < 8 ==> #[trigger] r[i] == 256 * self.o[2 * i] + self.o[2 * i + 1] { unimplemented!() }
    #[verifier::external_body] pub fn is_loopback(&self) -> (r: bool) ensures r == (self.o@ =~= seq![0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]) { unimplemented!() }
    #[verifier::external_body] pub fn is_unspecified(&self) -> (r: bool) ensures r == (self.o@ =~= seq![0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]) { unimplemented!() }
    #[verifier::external_body] pub fn to_ipv4_mapped(&self) -> (r: Option<Ipv4Addr>)
        ensures r is Some <==> mapped(*self), r is Some ==> r->Some_0.o@ =~= self.o@.skip(12) { unimplemented!() }
}
pub open spec fn mapped(a: Ipv6Addr) -> bool { a.o@.take(12) =~= seq![0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255] }
pub uninterp spec fn ip_of(s: Seq<char>) -> Option<IpAddr>;
#[verifier::external_body] pub fn vx_parse_ip(s: &str) -> (r: Result<IpAddr, ()>) ensures r is Ok <==> ip_of(s@) is Some, r is Ok ==> r->Ok_0 == ip_of(s@)->Some_0 { unimplemented!() }
pub uninterp spec fn ip_text(a: IpAddr) -> Seq<char>;
// an address reads back as itself
pub broadcast axiom fn ax_ip(a: IpAddr) ensures ip_of(#[trigger] ip_text(a)) == Some(a);
pub enum Protocol { Ip4(Ipv4Addr), Ip6(Ipv6Addr), Dns(String), Dns4(String), Dns6(String), Dnsaddr(String), Tcp(u16), Other }
pub trait VxText { spec fn vx_text(&self) -> Seq<char>; fn to_string(&self) -> (r: String) ensures r@ == self.vx_text(); }
impl VxText for Ipv4Addr { open spec fn vx_text(&self) -> Seq<char> { ip_text(IpAddr::V4(*self)) } #[verifier::external_body] fn to_string(&self) -> (r: String) { unimplemented!() } }
impl VxText for Ipv6Addr { open spec fn vx_text(&self) -> Seq<char> { ip_text(IpAddr::V6(*self)) } #[verifier::external_body] fn to_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn multiaddr_of(s: Seq<char>) -> Option<Seq<Protocol>>;
#[verifier::external_body] pub fn vx_parse_multiaddr(s: &str) -> (r: Result<Vec<Protocol>, ()>) ensures r is Ok <==> multiaddr_of(s@) is Some, r is Ok ==> r->Ok_0@ == multiaddr_of(s@)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_text_of(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_copy_of(s: &String) -> (r: String) ensures r@ == s@, r == *s { unimplemented!() }
pub uninterp spec fn decimal(n: u16) -> Seq<char>;
#[verifier::external_body] pub fn vx_url(host: String, port: u16) -> (r: String) ensures r@ == "http://"@ + host@ + ":"@ + decimal(port) { unimplemented!() }
#[verifier::external_body] pub fn vx_bracketed(host: &str) -> (r: String) ensures r@ == "["@ + host@ + "]"@ { unimplemented!() }
//@item src/cfg.rs::DEFAULT_HTTP_PORT
// ---- which hosts a peer's connection may point at
pub open spec fn inward4(a: Ipv4Addr) -> bool {
    let (w, x) = (a.o[0], a.o[1]);
    w == 10 || w == 127 || (w == 172 && 16 <= x < 32) || (w == 192 && x == 168) || (w == 169 && x == 254) || a.o@ =~= seq![0u8, 0, 0, 0] || a.o@ =~= seq![255u8, 255, 255, 255]
}
pub open spec fn inward6(a: Ipv6Addr) -> bool {
    if mapped(a) { inward4(Ipv4Addr { o: [a.o[12], a.o[13], a.o[14], a.o[15]] }) }
    else { a.o[0] == 0xfc || a.o[0] == 0xfd || (a.o[0] == 0xfe && 0x80 <= a.o[1] < 0xc0) || (a.o@.take(15) =~= Seq::new(15, |i: int| 0u8) && a.o[15] <= 1) }
}
pub open spec fn inward(host: Seq<char>) -> bool { match ip_of(host) { Some(IpAddr::V4(a)) => inward4(a), Some(IpAddr::V6(a)) => inward6(a), None => false } }
//@fn src/network/mesh/nodes.rs::is_private_v4 -> r
    ensures r == inward4(ip),
//@rw `std::net::Ipv4Addr` => `Ipv4Addr`
//@endfn
//@fn src/network/mesh/nodes.rs::is_private_host -> r
    ensures r == inward(host@),
//@rw `host.parse::<IpAddr>()` => `vx_parse_ip(host)`
//@rw `if let Some(v4) = ip.to_ipv4_mapped() {` => `proof { lemma_inward6(ip); } if let Some(v4) = ip.to_ipv4_mapped() { proof { assert(v4.o@ =~= [ip.o[12], ip.o[13], ip.o[14], ip.o[15]]@); }`
//@endfn
proof fn lemma_inward6(a: Ipv6Addr)
    ensures ({ let (x, y) = (a.o[0], a.o[1]); let s = (256 * x + y) as u16;
        ((x & 0xfe) == 0xfc <==> x == 0xfc || x == 0xfd) && ((s & 0xffc0) == 0xfe80 <==> x == 0xfe && 0x80 <= y < 0xc0) }),
        (a.o@.take(15) =~= Seq::new(15, |i: int| 0u8) && a.o[15] <= 1) <==> (a.o@ =~= seq![0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0] || a.o@ =~= seq![0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1])
{
    let (x, y) = (a.o[0], a.o[1]);
    assert((x & 0xfe) == 0xfc <==> x == 0xfc || x == 0xfd) by (bit_vector);
    let s = (256 * x + y) as u16;
    assert(s == add(mul(256u16, x as u16), y as u16));
    assert((add(mul(256u16, x as u16), y as u16) & 0xffc0) == 0xfe80 <==> x == 0xfe && 0x80 <= y < 0xc0) by (bit_vector);
    let z = seq![0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]; let o = seq![0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1];
    if a.o@.take(15) =~= Seq::new(15, |i: int| 0u8) && a.o[15] <= 1 {
        assert forall|i: int| 0 <= i < 15 implies a.o@[i] == 0 by { assert(a.o@.take(15)[i] == Seq::new(15, |i: int| 0u8)[i]); }
        if a.o[15] == 0 { assert(a.o@ =~= z); } else { assert(a.o@ =~= o); }
    }
}
//@fn src/network/mesh/nodes.rs::bracket_if_ipv6 -> r
    ensures r@ == (if ip_of(host@) matches Some(IpAddr::V6(_)) { "["@ + host@ + "]"@ } else { host@ }),
//@rw `host.parse::<IpAddr>()` => `vx_parse_ip(host)`
//@rw `format!("[{}]", host)` => `vx_bracketed(host)`
//@rw `host.to_string()` => `vx_text_of(host)`
//@endfn
pub open spec fn host_part(p: Protocol) -> Option<Seq<char>> {
    match p { Protocol::Ip4(a) => Some(ip_text(IpAddr::V4(a))), Protocol::Ip6(a) => Some(ip_text(IpAddr::V6(a))),
        Protocol::Dns(h) => Some(h@), Protocol::Dns4(h) => Some(h@), Protocol::Dns6(h) => Some(h@), Protocol::Dnsaddr(h) => Some(h@), _ => None }
}
// the first component of the address that names a host
pub open spec fn first_host(p: Seq<Protocol>) -> Option<Seq<char>> decreases p.len() { if p.len() == 0 { None } else { match host_part(p[0]) { Some(h) => Some(h), None => first_host(p.skip(1)) } } }
pub open spec fn host_of(addr: Seq<char>) -> Option<Seq<char>> { match multiaddr_of(addr) { Some(p) => first_host(p), None => None } }
//@fn src/network/mesh/nodes.rs::host_from_multiaddr -> r
    ensures r is Some <==> host_of(addr@) is Some, r is Some ==> r->Some_0@ == host_of(addr@)->Some_0,
//@rw `let multiaddr: Multiaddr = addr.parse().ok()?;` => `let multiaddr: Vec<Protocol> = vx_parse_multiaddr(addr).ok()?;`
//@rw `use libp2p::multiaddr::Protocol;` => ``
//@rw `h.to_string()` => `vx_copy_of(h)`
//@loops 1
//@loop 0
    invariant multiaddr_of(addr@) == Some(multiaddr@), first_host(multiaddr@) == first_host(multiaddr@.skip(vx_i0 as int)),
//@loopstart 0
    proof { assert(multiaddr@.skip(vx_i0 as int).skip(1) =~= multiaddr@.skip(vx_i0 + 1)); assert(multiaddr@.skip(0) =~= multiaddr@); }
//@start
    proof { if multiaddr_of(addr@) is Some { let m = multiaddr_of(addr@)->Some_0; assert(m.skip(0) =~= m); } }
//@endfn
//@item src/network/mesh/nodes.rs::Operator noclone
//@item src/network/mesh/nodes.rs::NodeRole noclone
//@item src/network/mesh/nodes.rs::KnownNode noclone
//@item src/network/mesh/nodes.rs::UrlSource noclone
pub open spec fn table_url(k: Option<&KnownNode>) -> Option<String> { match k { Some(k) => match k.http_api_url { Some(u) => if u@.len() > 0 { Some(u) } else { None }, None => None }, None => None } }
//@fn src/network/mesh/nodes.rs::resolve_http_api_url -> r
    ensures
        known is Some && known->Some_0.offline ==> r is None,
        !(known is Some && known->Some_0.offline) ==> match table_url(known) {
            Some(u) => r is Some && r->Some_0.0@ == u@ && r->Some_0.1 is Known,
            None => match host_of(observed_address@) {
                Some(h) => if inward(h) { r is None } else { r is Some && r->Some_0.1 is Observed
                    && r->Some_0.0@ =~= "http://"@ + (if ip_of(h) matches Some(IpAddr::V6(_)) { "["@ + h + "]"@ } else { h }) + ":"@ + decimal(DEFAULT_HTTP_PORT) },
                None => r is None,
            },
        },
//@rw `format!("http://{}:{}", bracket_if_ipv6(&host), DEFAULT_HTTP_PORT)` => `vx_url(bracket_if_ipv6(&host), DEFAULT_HTTP_PORT)`
//@start
    broadcast use lemma_blen_zero;
//@endfn
// ---- the table of known nodes
//@item src/network/mesh/nodes.rs::NodeRegistry
pub type Index = Map<Seq<char>, KnownNode>;
pub open spec fn nodes_of(m: Map<Seq<char>, Arc<KnownNode>>) -> Index { m.map_values(|a: Arc<KnownNode>| *a) }
pub struct Reg { pub pk: Index, pub id: Index }
pub open spec fn reg(r: NodeRegistry) -> Reg { Reg { pk: nodes_of(r.by_pubkey@), id: nodes_of(r.by_peer_id@) } }
pub open spec fn named(k: Option<String>) -> bool { k is Some && k->Some_0@.len() > 0 }
pub open spec fn added(r: Reg, n: KnownNode) -> Reg {
    Reg { pk: if named(n.consensus_public_key) { r.pk.insert(ascii_lower(n.consensus_public_key->Some_0@), n) } else { r.pk },
          id: if named(n.peer_id) { r.id.insert(n.peer_id->Some_0@, n) } else { r.id } }
}
// the entry a config entry replaces: by consensus key, else by peer id
pub open spec fn matching(r: Reg, n: KnownNode) -> Option<KnownNode> {
    if named(n.consensus_public_key) && r.pk.contains_key(ascii_lower(n.consensus_public_key->Some_0@)) { Some(r.pk[ascii_lower(n.consensus_public_key->Some_0@)]) }
    else if named(n.peer_id) && r.id.contains_key(n.peer_id->Some_0@) { Some(r.id[n.peer_id->Some_0@]) }
    else { None }
}
pub open spec fn without(r: Reg, n: KnownNode) -> Reg {
    match matching(r, n) { None => r, Some(e) => Reg {
        pk: if e.consensus_public_key is Some { r.pk.remove(ascii_lower(e.consensus_public_key->Some_0@)) } else { r.pk },
        id: if e.peer_id is Some { r.id.remove(e.peer_id->Some_0@) } else { r.id } } }
}
pub open spec fn found(r: Reg, id: Seq<char>, pk: Option<Seq<char>>) -> Option<KnownNode> {
    if pk is Some && pk->Some_0.len() > 0 && r.pk.contains_key(ascii_lower(pk->Some_0)) { Some(r.pk[ascii_lower(pk->Some_0)]) }
    else if r.id.contains_key(id) { Some(r.id[id]) } else { None }
}
pub open spec fn configured(r: Reg, l: Seq<KnownNode>) -> Reg decreases l.len() {
    if l.len() == 0 { r } else { let q = configured(r, l.drop_last()); let n = l.last(); if n.consensus_public_key is None && n.peer_id is None { q } else { added(without(q, n), n) } }
}
#[verifier::external_body] pub fn vx_lookup<'a>(m: &'a HashMap<String, Arc<KnownNode>>, k: &str) -> (r: Option<&'a Arc<KnownNode>>)
    ensures r == (if m@.contains_key(k@) { Some(&m@[k@]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_node(n: &KnownNode) -> (r: KnownNode) ensures r == *n { unimplemented!() }
#[verifier::external_body] pub fn vx_cloned(n: Option<&Arc<KnownNode>>) -> (r: Option<Arc<KnownNode>>) ensures r is Some <==> n is Some, r is Some ==> *r->Some_0 == **n->Some_0 { unimplemented!() }
pub mod mesh { use super::*;
//@item src/network/mesh/config.rs::Config noclone
}
//@item src/network/mesh/nodes.rs::BuiltinNode noclone
pub uninterp spec fn builtin_list() -> Seq<BuiltinNode>;
#[verifier::external_body] pub fn vx_builtin() -> (r: Vec<BuiltinNode>) ensures r@ == builtin_list() { unimplemented!() }
pub open spec fn same_text(a: Option<&str>, b: Option<String>) -> bool { (a is Some <==> b is Some) && (a is Some ==> a->Some_0@ == b->Some_0@) }
pub open spec fn entry(b: BuiltinNode, k: KnownNode) -> bool {
    k.name@ == b.name@ && k.operator == b.operator && k.role == b.role && k.offline == b.offline && same_text(b.http_api_url, k.http_api_url)
        && same_text(b.consensus_public_key, k.consensus_public_key) && same_text(b.peer_id, k.peer_id) && same_text(b.note, k.note)
}
// String values are determined by their text
pub open spec fn known_as(b: BuiltinNode) -> KnownNode { choose|k: KnownNode| entry(b, k) }
pub axiom fn ax_text(n: BuiltinNode, k: KnownNode) requires entry(n, k) ensures k == known_as(n);
pub open spec fn tabled(l: Seq<BuiltinNode>) -> Reg decreases l.len() { if l.len() == 0 { Reg { pk: Map::empty(), id: Map::empty() } } else { added(tabled(l.drop_last()), known_as(l.last())) } }
pub open spec fn builtin_reg() -> Reg { tabled(builtin_list()) }
impl BuiltinNode {
//@fn src/network/mesh/nodes.rs::BuiltinNode::to_known -> r
    ensures entry(*self, r),
//@rw `map(str::to_string)` => `map(|s: &'static str| -> (o: String) ensures o@ == s@ { vx_text_of(s) })`
//@endfn
}
impl NodeRegistry {
//@fn src/network/mesh/nodes.rs::NodeRegistry::builtin -> r
    ensures reg(r) == builtin_reg(),
//@rw `for builtin in BUILTIN {` => `let vx_b = vx_builtin(); proof { assert(reg(registry).pk =~= Map::<Seq<char>, KnownNode>::empty()); assert(reg(registry).id =~= Map::<Seq<char>, KnownNode>::empty()); } let mut vx_i: usize = 0; while vx_i < vx_b.len() invariant vx_i <= vx_b@.len(), vx_b@ == builtin_list(), reg(registry) == tabled(vx_b@.take(vx_i as int)) decreases vx_b.len() - vx_i { let builtin = &vx_b[vx_i]; proof { assert(vx_b@.take(vx_i + 1).drop_last() =~= vx_b@.take(vx_i as int)); } vx_i = vx_i + 1;`
//@rw `registry.insert(builtin.to_known());` => `let vx_k = builtin.to_known(); proof { ax_text(*builtin, vx_k); } registry.insert(vx_k);`
//@loopafter 0
    proof { assert(vx_b@.take(vx_b@.len() as int) =~= vx_b@); }
//@endfn
//@fn src/network/mesh/nodes.rs::NodeRegistry::from_config -> r
    ensures reg(r) == configured(builtin_reg(), cfg.nodes@),
//@rw `crate::network::mesh::config::Config` => `mesh::Config`
//@rw `node.clone()` => `vx_node(node)`
//@rw `for node in &cfg.nodes {` => `let mut vx_i: usize = 0; while vx_i < cfg.nodes.len() invariant vx_i <= cfg.nodes@.len(), reg(registry) == configured(builtin_reg(), cfg.nodes@.take(vx_i as int)) decreases cfg.nodes.len() - vx_i { let node = &cfg.nodes[vx_i]; proof { assert(cfg.nodes@.take(vx_i + 1).drop_last() =~= cfg.nodes@.take(vx_i as int)); } vx_i = vx_i + 1;`
//@loopafter 0
    proof { assert(cfg.nodes@.take(cfg.nodes@.len() as int) =~= cfg.nodes@); }
//@endfn
//@fn src/network/mesh/nodes.rs::NodeRegistry::lookup -> r
    ensures r is Some <==> found(reg(*self), peer_id@, opt_view(consensus_public_key)) is Some,
        r is Some ==> *r->Some_0 == found(reg(*self), peer_id@, opt_view(consensus_public_key))->Some_0,
//@rw `self.by_peer_id.get(peer_id)` => `vx_lookup(&self.by_peer_id, peer_id)`
//@rw `n.as_ref()` => `&**n`
//@closure 0 |n: &Arc<KnownNode>| -> (o: &KnownNode)
    ensures *o == **n
//@start
    broadcast use lemma_blen_zero;
//@endfn
//@fn src/network/mesh/nodes.rs::NodeRegistry::insert
    ensures reg(*final(self)).pk =~= added(reg(*old(self)), node).pk, reg(*final(self)).id =~= added(reg(*old(self)), node).id,
//@rw `peer_id.clone()` => `vx_copy_of(peer_id)`
//@start
    broadcast use lemma_blen_zero;
    let ghost n0 = node;
//@endfn
//@fn src/network/mesh/nodes.rs::NodeRegistry::remove_existing
    ensures reg(*final(self)).pk =~= without(reg(*old(self)), *node).pk, reg(*final(self)).id =~= without(reg(*old(self)), *node).id,
//@rw `self.by_pubkey.get(&k.to_ascii_lowercase()).cloned()` => `vx_cloned(self.by_pubkey.get(&k.to_ascii_lowercase()))`
//@rw `self.by_peer_id.get(p).cloned()` => `vx_cloned(self.by_peer_id.get(p))`
//@closure 0 |k: &&String| -> (o: bool)
    ensures o == (k@.len() > 0)
//@closure 1 |k: &String| -> (o: Option<Arc<KnownNode>>)
    ensures o is Some <==> self.by_pubkey@.contains_key(ascii_lower(k@)), o is Some ==> *o->Some_0 == *self.by_pubkey@[ascii_lower(k@)]
//@closure 2 || -> (o: Option<Arc<KnownNode>>)
    ensures o is Some <==> named(node.peer_id) && self.by_peer_id@.contains_key(node.peer_id->Some_0@), o is Some ==> *o->Some_0 == *self.by_peer_id@[node.peer_id->Some_0@]
//@closure 3 |p: &&String| -> (o: bool)
    ensures o == (p@.len() > 0)
//@closure 4 |p: &String| -> (o: Option<Arc<KnownNode>>)
    ensures o is Some <==> self.by_peer_id@.contains_key(p@), o is Some ==> *o->Some_0 == *self.by_peer_id@[p@]
//@start
    broadcast use lemma_blen_zero;
//@endfn
}
pub open spec fn opt_view(s: Option<&str>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
} // verus!
fn main() {}
