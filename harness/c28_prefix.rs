//@mount src/storage/store/account/message.rs
use super::*;
use crate::verif_h::support::*;

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(10000) {
        let prefix = c.blob(&[3, 6]);
        let tok = match c.below(6) {
            0 => None, 1 => Some(c.blob(&[6])), 2 => { let mut t = prefix.clone(); t.pop(); Some(t) }
            3 => { let mut t = cat(&[&prefix, &c.blob(&[4])]); if !t.is_empty() { let i = c.below(t.len() as u64) as usize; t[i] ^= 1 << c.below(8); } Some(t) }
            4 => Some(prefix.clone()), _ => Some(cat(&[&prefix, &c.blob(&[4])])),
        };
        let want = match &tok { None => true, Some(t) => t.len() >= prefix.len() && (0..prefix.len()).all(|i| t[i] == prefix[i]) };
        let po = PageOptions { page_size: None, page_token: tok.clone(), reverse: c.p(1, 2) };
        c.case("page_token.prefix", format!("{:?} in {:?}", tok, prefix), || same("accepted", require_page_token_in_prefix(&prefix, &po).is_ok(), want));
    }
}
