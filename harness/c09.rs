//@mount src/storage/store/account/active_key.rs
use super::*;
use crate::verif_h::support::*;

pub fn run(c: &mut Ctx) {
    let types: Vec<MessageType> = (-1..70).filter_map(|i| MessageType::try_from(i).ok()).collect();
    for _ in 0..c.rounds(3000) {
        let n = c.int_in(0, 18);
        let scopes: Vec<i32> = (0..n).map(|_| match c.below(5) {
            0 => c.pick(&[-1, i32::MIN, i32::MAX, 62, 63, 64, 65, 95, 127, 128, 0, 31, 32, 33]),
            1 => c.int_in(0, 210) as i32 - 70,
            2 => c.pick(&types) as i32 + c.pick(&[0, 64, 128, -64, 32, 256]),
            _ => c.pick(&types) as i32,
        }).collect();
        let ttl = c.u32();
        let other = c.below(4);
        c.case("scopes", format!("{:?}, ttl {}, kind {}", scopes, ttl, other), || {
            let mask = compute_scopes_mask(&scopes);
            for i in 0..64 { same(&format!("bit {}", i), mask >> i & 1 == 1, scopes.contains(&i))?; }
            for t in &types {
                same(&format!("{:?} signed by a gasless key", t), ActiveKey::Gasless { scopes_mask: mask, ttl_seconds: ttl }.admits(*t), scopes.contains(&(*t as i32)))?;
                holds("an on-chain key signs everything", ActiveKey::OnChain.admits(*t))?;
            }
            let body = Body::KeyAddBody(proto::KeyAddBody { scopes: scopes.clone(), ttl, ..Default::default() });
            let data = |b| Some(proto::MessageData { body: b, ..Default::default() });
            let (m, good) = match other {
                0 => (None, false),
                1 => (Some(proto::Message { data: data(Some(Body::CastRemoveBody(Default::default()))), ..Default::default() }), false),
                2 => (Some(proto::Message { data: if n % 2 == 0 { None } else { data(None) }, ..Default::default() }), false),
                _ => (Some(proto::Message { data: data(Some(body)), ..Default::default() }), true),
            };
            same("the grant of a record", extract_scope_and_ttl(&m), if good { Some((mask, ttl)) } else { None })
        });
        if c.enough() { return; }
    }
}
