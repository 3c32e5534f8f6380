//@mount src/storage/store/account/onchain_event_store.rs
use super::*;
use crate::verif_h::support::*;
pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(6000) {
        let f = c.fid(); let k = c.blob(&[32]); let (b, l) = (c.u32(), c.u32());
        let s = c.string(&[20]);
        let e = OnChainEvent { r#type: if c.p(3, 4) { c.below(12) as i32 } else { c.i32() }, fid: f, block_number: b, log_index: l, tx_index: c.u32(), ..Default::default() };
        c.case("chain.keys", format!("{:?} key={:?} channel={:?}", e, k, s), || {
            same("block", make_block_number_key(b), be(b as u64, 4))?;
            same("log", make_log_index_key(l), be(l as u64, 4))?;
            let ty = OnChainEventType::try_from(e.r#type).unwrap_or_default() as u8;
            same("primary", make_onchain_event_primary_key(&e), cat(&[&[12, 1, ty], &fkey(f), &be(b as u64, 4), &be(l as u64, 4)]))?;
            same("type prefix", make_onchain_event_type_prefix(e.r#type()), vec![12, 1, ty])?;
            same("id register", make_id_register_by_fid_key(f), cat(&[&[12, 52], &fkey(f)]))?;
            same("signer", make_signer_onchain_event_by_signer_key(f, k.clone()), cat(&[&[12, 51], &fkey(f), &k]))?;
            same("channel", make_channel_register_by_channel_key(&s), cat(&[&[12, 55], s.as_bytes()]))?;
            same("channel label", make_channel_register_channel_key_by_label_key(&k), cat(&[&[12, 56], &k]))?;
            same("channel owner prefix", make_channel_register_by_owner_address_prefix(&k), cat(&[&[12, 57], &k]))?;
            same("channel owner", make_channel_register_by_owner_address_key(&k, &s), cat(&[&[12, 57], &k, s.as_bytes()]))
        });
    }
}
