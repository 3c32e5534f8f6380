//@mount src/connectors/fname/mod.rs
use super::*;
use crate::verif_h::support::*;

fn hexed(c: &mut Ctx) -> (String, Option<Vec<u8>>) {
    let b = c.blob(&[1, 20, 65]); let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    match c.below(14) {
        0 => (h, None),
        1 => ("0x".into(), None),
        2 => (format!("0X{}", h), None),
        3 => (format!("0x{}f", h), None),
        4 => (format!("0xg{}", &h[..h.len().saturating_sub(1)]), None),
        5 => (["", "0", "x", "0é", "é0", "0xé", "0x\u{1F600}"][c.below(7) as usize].to_string(), None),
        6 => (format!("0x{}", h.to_uppercase()), if b.is_empty() { None } else { Some(b) }),
        7 => (format!(" 0x{}", h), None),
        8 => (format!("0x0x{}", h), None),
        _ => (format!("0x{}", h), if b.is_empty() { None } else { Some(b) }),
    }
}
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(20000) {
        let ((owner, o), (sig, s)) = (hexed(c), hexed(c));
        let t = Transfer { id: c.u64(), timestamp: c.u64(), username: c.string(&[8]), owner, from: c.fid(), to: c.fid(), user_signature: c.string(&[9]), server_signature: sig };
        let want = match (o, s) { (Some(o), Some(s)) => Some(FnameTransfer { id: t.id, from_fid: t.from, proof: Some(UserNameProof { timestamp: t.timestamp, name: t.username.as_bytes().to_vec(), owner: o, signature: s, fid: t.to, r#type: 1 }) }), _ => None };
        c.case("fname.transfer", format!("{:?}", t), || same("transfer", transfer_to_fname_transfer(&t).ok(), want.clone()));
    }
}
