//@mount src/storage/store/account/reaction_store.rs
use super::*;
use crate::verif_h::support::*;
use crate::core::channel_uri::channel_registrar_for_network;
use crate::proto::{CastId, FarcasterNetwork, LinkBody};
use crate::storage::store::account::store::MergeContext;
use crate::version::version::EngineVersion;
use alloy_primitives::{Address, U256};
use std::collections::BTreeMap;

const NET: [(FarcasterNetwork, bool); 4] = [(FarcasterNetwork::None, false), (FarcasterNetwork::Mainnet, false), (FarcasterNetwork::Testnet, true), (FarcasterNetwork::Devnet, true)];

fn uri(chain: u64, a: Address, id: &[u8; 32]) -> String { format!("eip155:{}/erc721:{}/{}", chain, a.to_checksum(None), U256::from_be_bytes(*id)) }
// another text for the same channel, or a text for none
fn spoil(c: &mut Ctx, u: &str, reg: &ChannelRegistrar, id: &[u8; 32]) -> String {
    match c.below(9) {
        0 => u.to_lowercase(), 1 => u.replace("eip155", "EIP155"), 2 => format!("{} ", u), 3 => format!("{}/", u),
        4 => uri(1, reg.address, id), 5 => { let mut b = reg.address.into_array(); b[19] ^= 1; uri(reg.chain_id, Address::from(b), id) }
        6 => { let at = u.rfind('/').unwrap() + 1; format!("{}0{}", &u[..at], &u[at..]) }
        7 => format!("https://farcaster.xyz/{}", u), _ => u[..u.len() - 1].to_string() + "x",
    }
}

pub fn run(c: &mut Ctx) {
    for (n, some) in NET {
        c.case("registrar", format!("{:?}", n), || { let r = channel_registrar_for_network(n); holds("present", r.is_some() == some)?;
            match r { Some(r) => same("contract", (r.chain_id, r.address.to_checksum(None).to_lowercase()), (11155111, "0x7dd80c661ded9bfc8d4440224a0b39b345a91be4".to_string())), None => Ok(()) } });
    }
    for v in [EngineVersion::V0, EngineVersion::V1, EngineVersion::V15, EngineVersion::V19, EngineVersion::V20, EngineVersion::V21] {
        c.case("gate", format!("{:?}", v), || { let on = v >= EngineVersion::V21; let ctx = MergeContext { version: v };
            same("writes", (FollowIndexGate::for_merge(&ctx).writes_follow_index(), FollowIndexGate::no_follow_carrier().writes_follow_index()), (on, false)) });
    }
    let reg = channel_registrar_for_network(FarcasterNetwork::Devnet).unwrap();
    for _ in 0..c.rounds(3000) {
        let pool: Vec<[u8; 32]> = (0..3).map(|i| { let mut b = [0u8; 32]; match i { 0 => b[31] = c.below(12) as u8, 1 => b[31 - c.below(32) as usize] = 1 + c.below(255) as u8, _ => for x in b.iter_mut() { *x = c.u64() as u8 } } b }).collect();
        // the users: few, and their numbers of every shape
        let fids: Vec<u64> = (0..3).map(|_| { let k = c.below(33); (match c.below(6) { 0 => 1 + c.below(300), 1 => c.u64() as u32 as u64 >> k.min(31), 2 => (1 + c.below(0x00ff_ffff)) << 8, 3 => (1 + c.below(0xffff)) << 16, 4 => (1u64 << k.min(31)) + c.below(2), _ => u32::MAX as u64 - c.below(3) }).max(1) }).collect();
        let has = c.p(9, 10);
        let def = ReactionStoreDef { prune_size_limit: 0, registrar: if has { Some(reg.clone()) } else { None } };
        // what happens, and who then follows what since when
        let mut steps: Vec<(Message, bool, Option<(u64, [u8; 32], u32)>)> = vec![];
        for _ in 0..c.below(10) {
            let id = c.pick(&pool); let fid = c.pick(&fids); let t = c.u32();
            let good = uri(reg.chain_id, reg.address, &id);
            let ok = c.p(3, 4);
            let u = if ok { good.clone() } else { spoil(c, &good, &reg, &id) };
            let named = ok || u == good;
            let ty = if c.p(3, 4) { 1 } else { c.below(4) as i32 };
            let (body, is) = match c.below(12) {
                0 => (None, false),
                1 => (Some(Body::LinkBody(LinkBody { r#type: u.clone(), ..Default::default() })), false),
                2 => (Some(Body::ReactionBody(ReactionBody { r#type: ty, target: None })), false),
                3 => (Some(Body::ReactionBody(ReactionBody { r#type: ty, target: Some(Target::TargetCastId(CastId { fid, hash: id[..20].to_vec() })) })), false),
                _ => (Some(Body::ReactionBody(ReactionBody { r#type: ty, target: Some(Target::TargetUrl(u)) })), ty == 1 && named && has),
            };
            let data = if c.p(15, 16) { Some(MessageData { fid, timestamp: t, r#type: c.pick(&[3, 4]), body, ..Default::default() }) } else { None };
            let is = is && data.is_some();
            let add = c.p(3, 5);
            steps.push((Message { data, ..Default::default() }, add, if is { Some((fid, id, t)) } else { None }));
        }
        c.case("follow.history", format!("{:?}", steps), || {
            let mut txn = RocksDbTransactionBatch::new();
            let mut want: BTreeMap<Vec<u8>, Option<Vec<u8>>> = BTreeMap::new();
            for (m, add, w) in &steps {
                let got = def.follow_channel_id(m);
                same("channel", got, w.map(|x| x.1))?;
                if let Some((fid, id, t)) = w {
                    if *add { ReactionStoreDef::insert_follow(&mut txn, *fid, &got.unwrap(), *t) } else { ReactionStoreDef::remove_follow(&mut txn, *fid, &got.unwrap()) }
                    let v = if *add { Some(be(*t as u64, 4)) } else { None };
                    want.insert(cat(&[&[25, 1], &be(*fid, 4), id]), v.clone());
                    want.insert(cat(&[&[25, 2], id, &be(*fid, 4)]), v);
                }
            }
            let got: BTreeMap<Vec<u8>, Option<Vec<u8>>> = txn.batch.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            same("rows", got, want)
        });
    }
}
