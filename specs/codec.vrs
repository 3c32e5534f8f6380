use proto::{Message, MessageData};
type MessageProto = Message;
// what the protobuf library writes for a message (opaque)
pub uninterp spec fn encoded(m: Message) -> Seq<u8>;
pub uninterp spec fn decoded(b: Seq<u8>) -> Option<MessageData>;
#[verifier::external_body] pub fn vx_encode(m: &Message) -> (r: Vec<u8>) ensures r@ == encoded(*m) { unimplemented!() }
#[verifier::external_body] pub fn vx_decode(b: &[u8]) -> (r: Result<MessageData, ()>) ensures r is Ok <==> decoded(b@) is Some, r is Ok ==> r->Ok_0 == decoded(b@)->Some_0 { unimplemented!() }
pub open spec fn raw(m: Message) -> bool { m.data_bytes is Some && m.data_bytes->Some_0@.len() > 0 }
//@fn src/storage/store/account/message.rs::message_encode -> r
    ensures r@ == (if raw(*message) { encoded(Message { data: None, ..*message }) } else { encoded(*message) }),
//@closure 0 |b: &Vec<u8>| -> (o: bool)
    ensures o == (b@.len() > 0)
//@rw `cloned.encode_to_vec()` => `vx_encode(&cloned)`
//@rw `message.encode_to_vec()` => `vx_encode(message)`
//@rw `message.clone()` => `vx_same(message)`
//@endfn
#[verifier::external_body] pub fn vx_same(m: &Message) -> (r: Message) ensures r == *m { unimplemented!() }
//@fn src/storage/store/account/message.rs::message_bytes_decode
    ensures raw(*old(msg)) ==> final(msg).data == decoded(old(msg).data_bytes->Some_0@),
        !raw(*old(msg)) ==> *final(msg) == *old(msg),
        final(msg).hash == old(msg).hash && final(msg).signature == old(msg).signature && final(msg).signer == old(msg).signer && final(msg).data_bytes == old(msg).data_bytes
            && final(msg).hash_scheme == old(msg).hash_scheme && final(msg).signature_scheme == old(msg).signature_scheme,
//@closure 0 |b: &Vec<u8>| -> (o: bool)
    ensures o == (b@.len() > 0)
//@rw `MessageData::decode(` => `vx_decode(`
//@endfn
pub open spec fn key_of(m: Message) -> Seq<u8> { primary_key(m.data->Some_0.fid, set_of(MessageType::of(m.data->Some_0.r#type)->Ok_0)->Some_0, ts_hash(m.data->Some_0.timestamp, m.hash@)) }
pub open spec fn storable(m: Message) -> bool { m.hash@.len() == 20 && set_of(MessageType::of(m.data->Some_0.r#type)->Ok_0) is Some }
//@fn src/storage/store/account/message.rs::put_message_transaction -> r
    requires message.data is Some, MessageType::of(message.data->Some_0.r#type) is Ok,
    ensures r is Ok <==> storable(*message), r is Err ==> final(txn).batch@ == old(txn).batch@,
        r is Ok ==> final(txn).batch@.dom() == old(txn).batch@.dom().insert(key_of(*message)) && final(txn).batch@[key_of(*message)] is Some
            && final(txn).batch@[key_of(*message)]->Some_0@ == (if raw(*message) { encoded(Message { data: None, ..*message }) } else { encoded(*message) })
            && (forall|x: Seq<u8>| x != key_of(*message) && old(txn).batch@.contains_key(x) ==> final(txn).batch@[x] == old(txn).batch@[x]),
//@before `txn.put`
    proof { assert(primary_key@ =~= key_of(*message)); }
//@endfn
//@fn src/storage/store/account/message.rs::delete_message_transaction -> r
    requires message.data is Some, MessageType::of(message.data->Some_0.r#type) is Ok,
    ensures r is Ok <==> storable(*message), r is Err ==> final(txn).batch@ == old(txn).batch@,
        r is Ok ==> final(txn).batch@ == old(txn).batch@.insert(key_of(*message), None),
//@before `txn.delete`
    proof { assert(primary_key@ =~= key_of(*message)); }
//@endfn
// a stored message as it reads back
pub uninterp spec fn message_of(b: Seq<u8>) -> Option<Message>;
