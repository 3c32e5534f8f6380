//@mount src/storage/trie/trie_node.rs
use super::*;
use crate::verif_h::support::*;
use crate::storage::trie::merkle_trie::MerkleTrie;

fn b20(x: &[u8]) -> Vec<u8> { blake3::hash(x).as_bytes()[..20].to_vec() }
fn parts(n: &TrieNode) -> (usize, Vec<u8>, Vec<(u8, Vec<u8>)>, Option<Vec<u8>>) {
    let mut k: Vec<u8> = n.children.keys().copied().collect(); k.sort();
    let mut h: Vec<(u8, Vec<u8>)> = n.child_hashes.iter().map(|(a, b)| (*a, b.clone())).collect(); h.sort();
    (n.items, k, h, n.key.clone())
}
pub fn run(c: &mut Ctx) {
    c.case("TrieNode::new", "new node", || { let n = TrieNode::new(); same("new", parts(&n), (0, vec![], vec![], None))?; same("hash", n.hash(), vec![])?; same("default", parts(&TrieNode::default()), parts(&n)) });
    c.case("MerkleTrie::new", "new trie", || {
        let mut t = MerkleTrie::new().map_err(|e| e.to_string())?;
        holds("uninitialised", t.items().is_err() && t.root_hash().is_err())?;
        let _ = &mut t; Ok(())
    });
    for _ in 0..c.rounds(12000) {
        if c.enough() { return; }
        let mut n = TrieNode::new();
        n.items = match c.below(4) { 0 => c.below(4) as usize, 1 => c.int_in(0, u32::MAX as u64) as usize, _ => c.below(70000) as usize };
        n.key = if c.p(1, 2) { let l = c.range(1, 40) as usize; Some(c.bytes(l)) } else { None };
        let kids = if c.p(1, 3) { 0 } else { match c.below(4) { 0 => 1, 1 => c.below(5), 2 => c.below(40), _ => c.below(300) } };
        let mut order = vec![];
        for _ in 0..kids {
            let ch = if c.p(1, 8) { c.pick(&[0u8, 1, 127, 128, 254, 255]) } else { c.u8() };
            n.children.insert(ch, TrieNodeType::Serialized(SerializedTrieNode::new()));
            if c.p(14, 15) { let h = if c.p(9, 10) { c.bytes(20) } else { c.blob(&[20]) }; n.child_hashes.insert(ch, h.clone()); order.push((ch, h)); }
        }
        if c.p(1, 10) { let (k, h) = (c.u8(), c.bytes(20)); n.child_hashes.insert(k, h); }
        let desc = format!("{:?}", parts(&n));
        let want = if n.children.is_empty() { n.key.as_ref().map_or(vec![], |k| b20(k)) }
            else if n.child_hashes.is_empty() { vec![] }
            else { let mut all = vec![]; for x in 0..=255u8 { if let Some(h) = n.child_hashes.get(&x) { all.extend_from_slice(h); } } b20(&all) };
        c.case("TrieNode::hash", desc.clone(), || same("hash", n.hash(), want.clone()));
        c.case("TrieNode::hash.order", desc.clone(), || {
            // the same content, inserted the other way round
            let mut m = TrieNode::new(); m.items = n.items; m.key = n.key.clone();
            let mut ks: Vec<(u8, Vec<u8>)> = n.child_hashes.iter().map(|(a, b)| (*a, b.clone())).collect(); ks.sort(); ks.reverse();
            for (k, h) in ks { m.child_hashes.insert(k, h); }
            for k in n.children.keys() { m.children.insert(*k, TrieNodeType::Node(TrieNode::new())); }
            same("hash", m.hash(), n.hash())
        });
        c.case("TrieNode::accessors", desc.clone(), || {
            same("is_leaf", n.is_leaf(), n.children.is_empty())?;
            same("items", n.items(), n.items)?;
            same("value", n.value(), if n.children.is_empty() { n.key.clone() } else { None })
        });
        c.case("TrieNode::serialize", desc.clone(), || {
            let m = TrieNode::deserialize(&TrieNode::serialize(&n)).map_err(|e| format!("cannot be read back: {}", e))?;
            same("node", parts(&m), parts(&n))?;
            same("hash", m.hash(), want.clone())
        });
        let l = c.range(0, 30) as usize; let p = c.bytes(l); let ch = if c.p(1, 2) { Some(c.u8()) } else { None };
        c.case("TrieNode::make_primary_key", format!("{:?} {:?}", p, ch), || same("key", TrieNode::make_primary_key(&p, ch), { let mut k = vec![8u8]; k.extend(&p); k.extend(ch); k }));
        let s = TrieNode::serialize(&n); let s = c.mutate(&s);
        c.case("TrieNode::deserialize", format!("{:?}", s), || {
            let r = TrieNode::deserialize(&s); let w = DbTrieNode::decode(&s[..]);
            same("accepted", r.is_ok(), w.is_ok())?;
            let (Ok(m), Ok(w)) = (r, w) else { return Ok(()); };
            let mut k: Vec<u8> = w.child_chars.iter().map(|c| (*c % 256) as u8).collect(); k.sort(); k.dedup();
            same("items, children, key", (m.items, parts(&m).1, m.key.clone()), (w.items as usize, k, if w.key.is_empty() { None } else { Some(w.key.clone()) }))
        });
    }
}
