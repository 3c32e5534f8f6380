use super::support::*;
use crate::proto::{self, CastId, MessageType, cast_add_body::Parent, reaction_body::Target};
use crate::storage::store::account::*;

fn class(t: MessageType) -> Option<(u8, u8)> {
    use MessageType::*;
    Some(match t {
        CastAdd | CastRemove => (1, 1), LinkAdd | LinkRemove => (2, 2), ReactionAdd | ReactionRemove => (3, 3),
        VerificationAddEthAddress | VerificationRemove => (4, 4), UserDataAdd => (5, 6), UsernameProof => (6, 7), LendStorage => (7, 8),
        ChannelUpdate => (8, 9), ChannelMember => (9, 10), ChannelPin => (10, 11), ChannelModerate => (11, 12), _ => return Option::None })
}

pub fn run(c: &mut Ctx) {
    let all: Vec<MessageType> = (-5..200).filter_map(|i| MessageType::try_from(i).ok()).collect();
    for t in &all {
        c.case("type_to_set_postfix", format!("{:?}", t), || same("set", type_to_set_postfix(*t).ok().map(|x| x.as_u8()), class(*t).map(|x| x.1)));
        for u in &all {
            if let (Some(a), Some(b)) = (class(*t), class(*u)) {
                c.case("sets.distinct", format!("{:?} {:?}", t, u), || same("same set", type_to_set_postfix(*t).ok().map(|x| x as u8) == type_to_set_postfix(*u).ok().map(|x| x as u8), a.0 == b.0));
            }
        }
    }
    for _ in 0..c.rounds(8000) {
        let (f, g) = (c.fid(), c.fid());
        let g = if c.p(1, 2) { f } else { g };
        let (t, u) = (c.u32(), c.u32());
        let u = if c.p(1, 2) { t } else { u };
        let h = if c.p(3, 4) { c.bytes(20) } else { c.blob(&[20]) };
        let k = if c.p(1, 2) { c.bytes(20) } else { let mut x = h.clone(); if !x.is_empty() { let i = c.below(x.len() as u64) as usize; x[i] = c.u8(); } x };
        let s = c.pick(&all); let s2 = c.pick(&all);
        let inp = format!("fid={} fid2={} ts={} ts2={} hash={:?} hash2={:?} type={:?} type2={:?}", f, g, t, u, h, k, s, s2);
        c.case("ts_hash", inp.clone(), || {
            let r = make_ts_hash(t, &h).ok();
            same("make_ts_hash", r.map(|x| x.to_vec()), if h.len() == 20 { Some(cat(&[&be(t as u64, 4), &h])) } else { None })?;
            if let Some(x) = r {
                let (a, b) = unpack_ts_hash(&x);
                same("unpack_ts_hash", (a, b.to_vec()), (t, h.clone()))?;
            }
            Ok(())
        });
        let off = c.below(9) as usize;
        c.case("read", format!("{} off={}", inp, off), || {
            if h.len() != 20 { return Ok(()); }
            let x = make_ts_hash(t, &h).map_err(|e| e.to_string())?;
            let mut v = be(0x0102030405060708, 8)[..off.min(8)].to_vec(); let off = v.len();
            v.extend(make_fid_key(f)); v.extend(x); v.extend([9, 9, 9]);
            same("read_fid_key", read_fid_key(&v, off), f % (1 << 32))?;
            same("read_ts_hash", read_ts_hash(&v, off + 4).to_vec(), x.to_vec())
        });
        c.case("primary_key", inp.clone(), || {
            same("make_fid_key", make_fid_key(f), fkey(f))?;
            same("make_user_key", make_user_key(f), ukey(f))?;
            let (Ok(p), Ok(q)) = (type_to_set_postfix(s), type_to_set_postfix(s2)) else { return Ok(()); };
            let (p, q) = (p as u8, q as u8);
            same("prefix", make_message_primary_key(f, p, None), cat(&[&ukey(f), &[p]]))?;
            if h.len() != 20 || k.len() != 20 { return Ok(()); }
            let (x, y) = (make_ts_hash(t, &h).unwrap(), make_ts_hash(u, &k).unwrap());
            let a = make_message_primary_key(f, p, Some(&x)); let b = make_message_primary_key(g, q, Some(&y));
            same("key", a.clone(), cat(&[&ukey(f), &[p], &x]))?;
            if f < 1 << 32 && g < 1 << 32 {
                same("equal keys", a == b, f == g && p == q && t == u && h == k)?;
                if f == g && p == q { same("order", a.cmp(&b), (t, &h).cmp(&(u, &k)))?; }
            }
            Ok(())
        });
        let cid = CastId { fid: f, hash: h.clone() };
        let url = c.string(&[1, 10]);
        let ts: Option<[u8; 24]> = if c.p(3, 4) { let b = c.bytes(24); Some(b.try_into().unwrap()) } else { None };
        let tsb = ts.map(|x| x.to_vec()).unwrap_or_default();
        let of = |x: u64| if x > 0 { fkey(x) } else { vec![] };
        let inp = format!("cast={:?} url={:?} ts={:?} fid={} fid2={}", cid, url, ts, f, g);
        let byurl = c.p(1, 2);
        let (p, tg, tail) = if byurl { (Parent::ParentUrl(url.clone()), Target::TargetUrl(url.clone()), url.as_bytes().to_vec()) } else { (Parent::ParentCastId(cid.clone()), Target::TargetCastId(cid.clone()), cat(&[&fkey(f), &h])) };
        let ty = c.i32();
        c.case("index_keys", format!("{} byurl={} ty={}", inp, byurl, ty), || {
            same("make_cast_id_key", make_cast_id_key(&cid), cat(&[&fkey(f), &h]))?;
            let hh: &[u8] = if h.len() == 20 { &h } else { &[] };
            same("cast adds", CastStoreDef::make_cast_adds_key(g, &h), cat(&[&ukey(g), &[87], hh]))?;
            same("cast removes", CastStoreDef::make_cast_removes_key(g, &h), cat(&[&ukey(g), &[88], hh]))?;
            same("parent", CastStoreDef::make_parent_key(&p), tail.clone())?;
            same("by parent", CastStoreDef::make_cast_by_parent_key(&p, g, ts.as_ref()), cat(&[&[4], &tail, &tsb, &of(g)]))?;
            same("by mention", CastStoreDef::make_cast_by_mention_key(f, g, ts.as_ref()), cat(&[&[5], &fkey(f), &tsb, &of(g)]))?;
            same("target", ReactionStoreDef::make_target_key(&tg), tail.clone())?;
            same("reactions by target", ReactionStoreDef::make_reactions_by_target_key(&tg, g, ts.as_ref()), cat(&[&[7], &tail, &tsb, &of(g)]))?;
            let slot = |set: u8, some: bool| if some && ty == 0 { None } else { Some(cat(&[&ukey(g), &[set], &(if ty > 0 { vec![(ty % 256) as u8] } else { vec![] }), if some { &tail } else { &[] }])) };
            same("reaction adds", ReactionStoreDef::make_reaction_adds_key(g, ty, Some(&tg)).ok(), slot(91, true))?;
            same("reaction adds prefix", ReactionStoreDef::make_reaction_adds_key(g, ty, None).ok(), slot(91, false))?;
            same("reaction removes", ReactionStoreDef::make_reaction_removes_key(g, ty, Some(&tg)).ok(), slot(92, true))?;
            same("reaction removes prefix", ReactionStoreDef::make_reaction_removes_key(g, ty, None).ok(), slot(92, false))
        });
        let ch: [u8; 32] = c.bytes(32).try_into().unwrap();
        let addr = c.blob(&[20, 32]);
        let pk = if c.p(2, 3) { c.bytes(32) } else { c.blob(&[32]) };
        c.case("other_keys", format!("fid={} channel={:?} address={:?} key={:?}", f, ch, addr, pk), || {
            same("follow by fid", ReactionStoreDef::make_follow_by_fid_key(f, &ch), cat(&[&[25, 1], &fkey(f), &ch]))?;
            same("follow by fid prefix", ReactionStoreDef::follow_by_fid_prefix(f), cat(&[&[25, 1], &fkey(f)]))?;
            same("follow by channel", ReactionStoreDef::make_follow_by_channel_key(&ch, f), cat(&[&[25, 2], &ch, &fkey(f)]))?;
            same("follow by channel prefix", ReactionStoreDef::follow_by_channel_prefix(&ch), cat(&[&[25, 2], &ch]))?;
            same("by address prefix", VerificationStoreDef::make_verification_by_address_prefix(&addr), cat(&[&[14], &addr]))?;
            same("by address", VerificationStoreDef::make_verification_by_address_key(&addr, f), cat(&[&[14], &addr, &fkey(f)]))?;
            same("verification adds", VerificationStoreDef::make_verification_adds_key(f, &addr), cat(&[&ukey(f), &[93], &addr]))?;
            same("verification removes", VerificationStoreDef::make_verification_removes_key(f, &addr), cat(&[&ukey(f), &[94], &addr]))?;
            let k = |p: &[u8]| if pk.len() == 32 { Some(cat(&[p, &pk])) } else { None };
            same("gasless by fid", make_gasless_key_by_fid_key(f, &pk).ok(), k(&cat(&[&[23, 105], &fkey(f)])))?;
            same("gasless by key", make_gasless_key_by_public_key_key(&pk).ok(), k(&[23, 106]))?;
            same("gasless count", make_gasless_key_count_by_fid_key(f), cat(&[&[23, 107], &fkey(f)]))?;
            same("nonce", make_user_nonce_key(f), cat(&[&[23, 102], &fkey(f)]))?;
            same("app nonce", make_app_nonce_key(f), cat(&[&[23, 103], &fkey(f)]))?;
            same("last used", make_last_used_at_key(f, &pk).ok(), k(&cat(&[&[23, 104], &fkey(f)])))?;
            same("fname", make_fname_username_proof_key(&addr), cat(&[&[11], &addr]))?;
            same("fname by fid", make_fname_username_proof_by_fid_key(f), cat(&[&[15], &fkey(f)]))
        });
        // links
        let n = c.len(&[8]); let lt = c.text(n);
        let tgt = if c.p(5, 6) { Some(proto::link_body::Target::TargetFid(g)) } else { None };
        let body = match c.below(8) { 0 => None, 1 => Some(proto::message_data::Body::CastRemoveBody(proto::CastRemoveBody { target_hash: h.clone() })), _ => Some(proto::message_data::Body::LinkBody(proto::LinkBody { r#type: lt.clone(), target: tgt.clone(), display_timestamp: if c.p(1, 2) { Some(c.u32()) } else { None } })) };
        let m = proto::Message { data: if c.p(9, 10) { Some(proto::MessageData { fid: f, timestamp: t, r#type: c.i32(), body: body.clone(), ..Default::default() }) } else { None }, hash: h.clone(), ..Default::default() };
        c.case("link_keys", format!("{:?}", m), || {
            let want = |set: u8| match (&m.data, &body) {
                (Some(_), Some(proto::message_data::Body::LinkBody(_))) if lt.len() <= 8 && !(tgt.is_some() && lt.is_empty()) => {
                    let mut p = lt.as_bytes().to_vec(); p.resize(8, 0);
                    Some(cat(&[&ukey(f), &[set], &p, &(if tgt.is_some() { fkey(g) } else { vec![] })])) }
                _ => None };
            same("link adds", LinkStore::make_add_key(&m).ok(), want(89))?;
            same("link removes", LinkStore::make_remove_key(&m).ok(), want(90))
        });
    }
}
