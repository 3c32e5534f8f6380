//@mount src/storage/store/account/onchain_event_store.rs
use super::*;
use crate::verif_h::support::*;

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(20000) {
        let small = c.p(3, 4);
        let mut n = |c: &mut Ctx| if small { c.below(3) as u32 } else { c.u32() };
        let o = ChannelOwner { channel_key: c.string(&[6]), owner_address: c.blob(&[20]), expiry: c.u64(), block_number: n(c), tx_index: n(c), log_index: n(c) };
        let e = OnChainEvent { block_number: n(c), tx_index: n(c), log_index: n(c), fid: c.fid(), block_timestamp: c.u64(), version: c.u32(), chain_id: c.u32(), ..Default::default() };
        let b = ChannelRegisterBody { channel_key: c.string(&[6]), owner_address: c.blob(&[20]), expiry: c.u64(), label: c.blob(&[32]), ..Default::default() };
        c.case("channel.older", format!("{:?} against {:?}", e, o), || {
            let older = e.block_number < o.block_number || e.block_number == o.block_number && (e.tx_index < o.tx_index || e.tx_index == o.tx_index && e.log_index < o.log_index);
            same("older", incoming_channel_event_is_older(&o, &e), older)
        });
        c.case("channel.owner", format!("{:?} {:?}", e, b), || same("owner", channel_owner_from_event(&e, &b), ChannelOwner { channel_key: b.channel_key.clone(), owner_address: b.owner_address.clone(), expiry: b.expiry, block_number: e.block_number, tx_index: e.tx_index, log_index: e.log_index }));
        c.case("channel.position", format!("{:?} {:?}", e, o), || { let mut x = o.clone(); set_channel_owner_event_position(&mut x, &e); same("owner", x, ChannelOwner { block_number: e.block_number, tx_index: e.tx_index, log_index: e.log_index, ..o.clone() }) });
        let l = c.blob(&[32]);
        c.case("channel.label_length", format!("{:?}", l), || same("valid", validate_channel_label(&l), l.len() == 32));
        let k = c.string(&[6]); let h = keccak256(k.as_bytes()).to_vec();
        let mut l = h.clone(); match c.below(4) { 0 => { l.pop(); } 1 => l.push(0), 2 => { let i = c.below(32) as usize; l[i] ^= 1; } _ => {} }
        c.case("channel.key_label", format!("{} {:?}", k, l), || same("valid", validate_channel_key_label(&k, &l), l == h));
    }
}
