// what waits to be proposed, and its place in the queue
// derive(Ord) compares field by field
pub trait VxOrd: Sized { spec fn vx_lt(self, o: Self) -> bool; }
impl VxOrd for u64 { open spec fn vx_lt(self, o: Self) -> bool { self < o } }
impl VxOrd for String { open spec fn vx_lt(self, o: Self) -> bool { text_lt(self@, o@) } }
impl VxOrd for MempoolMessageKind { open spec fn vx_lt(self, o: Self) -> bool { (self as int) < (o as int) } }
pub uninterp spec fn text_lt(a: Seq<char>, b: Seq<char>) -> bool;
//@item src/mempool/mempool.rs::MempoolMessageKind ord
//@item src/mempool/mempool.rs::MempoolKey lex noclone
// validator messages first, then the earlier time, then the smaller identity
proof fn theorem_order(a: MempoolKey, b: MempoolKey)
    ensures a.vx_lt(b) <==> (a.message_kind == MempoolMessageKind::ValidatorMessage && b.message_kind == MempoolMessageKind::UserMessage
        || a.message_kind == b.message_kind && (a.timestamp < b.timestamp || a.timestamp == b.timestamp && text_lt(a.identity@, b.identity@)))
{ }
impl MempoolKey {
//@fn src/mempool/mempool.rs::MempoolKey::new -> r
    ensures r.message_kind == message_kind, r.timestamp == timestamp, r.identity == identity,
//@endfn
//@fn src/mempool/mempool.rs::MempoolKey::identity -> r
    ensures r == self.identity,
//@endfn
}
// the identities: hexadecimal and decimal texts (both injective, by their documented behaviour)
pub uninterp spec fn hex(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn dec(n: int) -> Seq<char>;
#[verifier::external_body] pub proof fn ax_hex(a: Seq<u8>) ensures hex(a).len() == 2 * a.len() { }
#[verifier::external_body] pub proof fn ax_hex_inj(a: Seq<u8>, b: Seq<u8>) requires hex(a) == hex(b) ensures a == b { }
#[verifier::external_body] pub proof fn ax_dec_inj(a: int, b: int) requires 0 <= a, 0 <= b, dec(a) == dec(b) ensures a == b { }
#[verifier::external_body] pub fn vx_hex(b: &Vec<u8>) -> (r: String) ensures r@ == hex(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_dec32(n: u32) -> (r: String) ensures r@ == dec(n as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_dec64(n: u64) -> (r: String) ensures r@ == dec(n as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: String, b: &String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
impl Message {
//@fn proto/src/lib.rs::Message::hex_hash -> r
    ensures r@ == hex(self.hash@),
//@rw `hex::encode(` => `vx_hex(`
//@endfn
//@fn src/mempool/mempool.rs::<MessageMempoolExt for Message>::mempool_key -> r
    requires self.data is Some,
    ensures r.message_kind == MempoolMessageKind::UserMessage, r.timestamp == self.data->Some_0.timestamp + 1609459200, r.identity@ == hex(self.hash@),
//@endfn
}
use proto::{BlockEvent, OnChainEvent, FnameTransfer};
impl BlockEvent {
//@fn proto/src/lib.rs::BlockEvent::seqnum -> r
    requires self.data is Some,
    ensures r == self.data->Some_0.seqnum,
//@endfn
//@fn proto/src/lib.rs::BlockEvent::block_timestamp -> r
    requires self.data is Some,
    ensures r == self.data->Some_0.block_timestamp,
//@endfn
}
// what a validator message must carry for its key to exist at all (the code unwraps it)
pub open spec fn keyed(m: proto::ValidatorMessage) -> bool {
    if m.on_chain_event is Some { true } else if m.fname_transfer is Some { m.fname_transfer->Some_0.proof is Some }
    else if m.block_event is Some { m.block_event->Some_0.data is Some && m.block_event->Some_0.data->Some_0.block_timestamp <= u64::MAX - 1609459200u64 } else { true }
}
pub open spec fn chain_id_text(e: OnChainEvent) -> Seq<char> { hex(e.transaction_hash@) + dec(e.log_index as int) }
// (time in Unix seconds, identity) of a validator message
pub open spec fn place(m: proto::ValidatorMessage) -> (int, Seq<char>) {
    if m.on_chain_event is Some { (m.on_chain_event->Some_0.block_timestamp as int, chain_id_text(m.on_chain_event->Some_0)) }
    else if m.fname_transfer is Some { (m.fname_transfer->Some_0.proof->Some_0.timestamp as int, dec(m.fname_transfer->Some_0.id as int)) }
    else if m.block_event is Some { (m.block_event->Some_0.data->Some_0.block_timestamp + 1609459200, dec(m.block_event->Some_0.data->Some_0.seqnum as int)) }
    else { (0int, "unknown"@) }
}
impl proto::ValidatorMessage {
//@fn src/mempool/mempool.rs::<ValidatorMessageMempoolExt for ValidatorMessage>::mempool_key -> r
    requires keyed(*self),
    ensures r.message_kind == MempoolMessageKind::ValidatorMessage, r.timestamp == place(*self).0, r.identity@ == place(*self).1,
//@rw `hex::encode(&onchain_event.transaction_hash) + &onchain_event.log_index.to_string()` => `vx_cat(vx_hex(&onchain_event.transaction_hash), &vx_dec32(onchain_event.log_index))`
//@rw `fname_transfer.id.to_string()` => `vx_dec64(fname_transfer.id)`
//@rw `block_event.seqnum().to_string()` => `vx_dec64(block_event.seqnum())`
//@endfn
}
//@include poolmsg.vrs
pub open spec fn as_validator(m: MempoolMessage) -> proto::ValidatorMessage {
    match m {
        MempoolMessage::OnchainEvent(e) | MempoolMessage::OnchainEventForMigration(e) => proto::ValidatorMessage { on_chain_event: Some(e), fname_transfer: None, block_event: None },
        MempoolMessage::FnameTransfer(e) => proto::ValidatorMessage { on_chain_event: None, fname_transfer: Some(e), block_event: None },
        MempoolMessage::BlockEvent { for_shard, message } => proto::ValidatorMessage { on_chain_event: None, fname_transfer: None, block_event: Some(message) },
        _ => proto::ValidatorMessage { on_chain_event: None, fname_transfer: None, block_event: None },
    }
}
#[verifier::external_body] pub fn vx_same<T>(m: &T) -> (r: T) ensures r == *m { unimplemented!() }
impl MempoolMessage {
//@fn src/mempool/mempool.rs::MempoolMessage::mempool_key -> r
    requires self is UserMessage ==> self->UserMessage_0.data is Some, !(self is UserMessage) ==> keyed(as_validator(*self)),
    ensures self is UserMessage ==> r.message_kind == MempoolMessageKind::UserMessage && r.timestamp == self->UserMessage_0.data->Some_0.timestamp + 1609459200 && r.identity@ == hex(self->UserMessage_0.hash@),
        !(self is UserMessage) ==> r.message_kind == MempoolMessageKind::ValidatorMessage && r.timestamp == place(as_validator(*self)).0 && r.identity@ == place(as_validator(*self)).1,
//@rw `event.clone()` => `vx_same(event)`
//@rw `fname.clone()` => `vx_same(fname)`
//@rw `block_event.clone()` => `vx_same(block_event)`
//@endfn
}
// the key of a message identifies it: same kind of message and same key, same identity
proof fn theorem_user_identity(a: Message, b: Message) requires hex(a.hash@) == hex(b.hash@) ensures a.hash@ == b.hash@ { ax_hex_inj(a.hash@, b.hash@); }
proof fn theorem_chain_identity(a: OnChainEvent, b: OnChainEvent)
    requires a.transaction_hash@.len() == b.transaction_hash@.len(), chain_id_text(a) == chain_id_text(b)
    ensures a.transaction_hash@ == b.transaction_hash@, a.log_index == b.log_index
{
    let n = 2 * a.transaction_hash@.len() as int;
    ax_hex(a.transaction_hash@); ax_hex(b.transaction_hash@);
    assert(chain_id_text(a).take(n) =~= hex(a.transaction_hash@)); assert(chain_id_text(b).take(n) =~= hex(b.transaction_hash@));
    assert(chain_id_text(a).skip(n) =~= dec(a.log_index as int)); assert(chain_id_text(b).skip(n) =~= dec(b.log_index as int));
    ax_hex_inj(a.transaction_hash@, b.transaction_hash@); ax_dec_inj(a.log_index as int, b.log_index as int);
}
//@fn src/mempool/mempool.rs::is_key_add -> r
    ensures r <==> message.data is Some && message.data->Some_0.body is Some && message.data->Some_0.body->Some_0 is KeyAddBody,
//@endfn
//@fn src/mempool/mempool.rs::is_live_at -> r
    ensures r <==> message.data is Some && message.data->Some_0.body is Some && message.data->Some_0.body->Some_0 is UserDataBody
        && message.data->Some_0.body->Some_0->UserDataBody_0.r#type == UserDataType::LiveAt as i32,
//@endfn
// later timestamp first, then the greater hash
pub open spec fn newer(a: Message, b: Message) -> i8 { lexcmp(ts_hash(a.data->Some_0.timestamp, a.hash@), ts_hash(b.data->Some_0.timestamp, b.hash@)) }
//@fn src/mempool/mempool.rs::live_at_lww_compare -> r
    ensures r is Some <==> existing.data is Some && incoming.data is Some && existing.hash@.len() == 20 && incoming.hash@.len() == 20,
        r is Some ==> r->Some_0 == newer(*existing, *incoming),
//@endfn
