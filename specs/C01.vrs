// Only authentic messages are admitted, and every rule is applied to the data that was hashed and signed.
//@include admit.vrs
//@fn src/core/validations/message.rs::validate_message_hash -> r
    ensures r is Ok == good_hash(hash_scheme, data_bytes@, hash@)
//@start
    proof { lemma_zero_iff_equal(digest20(data_bytes@), hash@); }
//@endfn
//@fn src/core/validations/message.rs::validate_signature -> r
    ensures r is Ok == good_signature(signature_scheme, data_bytes@, signature@, signer@)
//@rw `VerifyingKey::try_from(signer.as_slice())` => `VerifyingKey::vx_of(signer.as_slice())`
//@closure 0 |_vx: SignatureError| -> (k: ValidationError)
//@closure 1 |_vx: SignatureError| -> (k: ValidationError)
//@closure 2 |_vx: SignatureError| -> (k: ValidationError)
//@endfn
//@fn src/core/validations/message.rs::validate_timestamp -> r external
    ensures r is Ok == timely(message_timestamp, block_timestamp.time, engine_version)
//@endfn
// the plainest message: no rule beyond authenticity concerns it
pub open spec fn plain(m: proto::Message, current: FarcasterNetwork) -> bool {
    data_of(m) matches Some(d) && d.network == 1 && current is Mainnet && bytes_of(m).len() <= 2048 && d.timestamp == 0 && d.body is None
}
//@fn src/core/validations/message.rs::validate_message -> r
    requires 600 <= block_timestamp.time <= u32::MAX
    ensures r is Ok ==> authentic(*message),
        r is Ok ==> body_ok(data_of(*message)->Some_0, is_pro_user, version),
        authentic(*message) && plain(*message, current_network) ==> r is Ok
//@rw `message.data_bytes.as_ref().unwrap().clone()` => `vx_same(message.data_bytes.as_ref().unwrap())`
//@rw `data.clone()` => `vx_same(&data)`
//@rw `message.data.as_ref().unwrap().clone()` => `vx_same(message.data.as_ref().unwrap())`
//@rw `std::str::from_utf8(` => `vx_utf8(`
//@rw `crate::version::version::ProtocolFeature` => `ProtocolFeature`
//@closure 0 |_vx: UnknownEnumValue| -> (k: Result<FarcasterNetwork, ValidationError>) ensures k is Err
//@endfn
// ---- pages of messages taken from a peer while bootstrapping
pub mod boot {
use super::*;
use proto::ShardTrieEntryWithMessage;
use proto::shard_trie_entry_with_message::TrieMessage;
pub enum BootstrapError { ValidationError(ValidationError) }
impl From<ValidationError> for BootstrapError { #[verifier::external_body] fn from(e: ValidationError) -> BootstrapError { BootstrapError::ValidationError(e) } }
// derive(PartialEq) compares every field
impl vstd::std_specs::cmp::PartialEqSpecImpl for MessageData { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &MessageData) -> bool { *self == *o } }
impl PartialEq for MessageData { #[verifier::external_body] fn eq(&self, o: &MessageData) -> (r: bool) { unimplemented!() } }
// ed25519-dalek's batch check (trusted): every signature is one of its hash under its key
pub uninterp spec fn valid(key: Seq<u8>, m: Seq<u8>, sig: Seq<u8>) -> bool;
pub open spec fn all_valid(m: Seq<&[u8]>, s: Seq<Signature>, k: Seq<VerifyingKey>) -> bool {
    m.len() == s.len() && s.len() == k.len() && forall|i: int| 0 <= i < m.len() ==> valid((#[trigger] k[i]).b@, m[i]@, s[i].b@)
}
#[verifier::external_body] pub fn vx_verify_batch(m: &Vec<&[u8]>, s: &Vec<Signature>, k: &Vec<VerifyingKey>) -> (r: Result<(), SignatureError>) ensures (r is Ok) == all_valid(m@, s@, k@) { unimplemented!() }
// what is merged is what was hashed and signed
pub open spec fn genuine_data(m: proto::Message) -> bool { m.data is Some && m.data == data_of(m) && good_hash(m.hash_scheme, bytes_of(m), m.hash@) && m.signature@.len() == 64 && m.signer@.len() == 32 && valid_point(m.signer@) }
pub open spec fn genuine(m: proto::Message) -> bool { genuine_data(m) && valid(m.signer@, m.hash@, m.signature@) }
pub open spec fn user(e: ShardTrieEntryWithMessage) -> Option<proto::Message> { match e.trie_message { Some(TrieMessage::UserMessage(m)) => Some(m), _ => None } }
pub open spec fn genuine_page(p: Seq<ShardTrieEntryWithMessage>) -> bool { forall|i: int| 0 <= i < p.len() ==> (user(#[trigger] p[i]) matches Some(m) ==> genuine(m)) }
// the user messages of the first n entries
pub open spec fn users(p: Seq<ShardTrieEntryWithMessage>, n: int) -> Seq<proto::Message> decreases n { if n <= 0 { seq![] } else { match user(p[n - 1]) { Some(m) => users(p, n - 1).push(m), None => users(p, n - 1) } } }
proof fn lemma_users(p: Seq<ShardTrieEntryWithMessage>, n: int)
    requires 0 <= n <= p.len()
    ensures forall|i: int| 0 <= i < n && user(#[trigger] p[i]) is Some ==> users(p, n).contains(user(p[i])->Some_0),
        forall|j: int| 0 <= j < users(p, n).len() ==> exists|i: int| 0 <= i < n && user(#[trigger] p[i]) == Some(#[trigger] users(p, n)[j])
    decreases n
{
    if n > 0 {
        lemma_users(p, n - 1);
        assert forall|i: int| 0 <= i < n && user(#[trigger] p[i]) is Some implies users(p, n).contains(user(p[i])->Some_0) by {
            let m = user(p[i])->Some_0;
            if i < n - 1 { assert(users(p, n - 1).contains(m)); let j = choose|j: int| 0 <= j < users(p, n - 1).len() && #[trigger] users(p, n - 1)[j] == m; assert(users(p, n)[j] == m); }
            else { assert(users(p, n).last() == m); }
        }
        assert forall|j: int| 0 <= j < users(p, n).len() implies exists|i: int| 0 <= i < n && user(#[trigger] p[i]) == Some(#[trigger] users(p, n)[j]) by {
            if j < users(p, n - 1).len() { assert(users(p, n)[j] == users(p, n - 1)[j]); let i = choose|i: int| 0 <= i < n - 1 && user(#[trigger] p[i]) == Some(users(p, n - 1)[j]); assert(user(p[i]) == Some(users(p, n)[j])); }
            else { assert(user(p[n - 1]) == Some(users(p, n)[j])); }
        }
    }
}
pub open spec fn collected(u: Seq<proto::Message>, m: Seq<&[u8]>, s: Seq<Signature>, k: Seq<VerifyingKey>) -> bool {
    m.len() == u.len() && s.len() == u.len() && k.len() == u.len() && forall|j: int| 0 <= j < u.len() ==> genuine_data(#[trigger] u[j]) && m[j]@ == u[j].hash@ && s[j].b@ == u[j].signature@ && k[j].b@ == u[j].signer@
}
proof fn lemma_page(p: Seq<ShardTrieEntryWithMessage>, m: Seq<&[u8]>, s: Seq<Signature>, k: Seq<VerifyingKey>)
    requires collected(users(p, p.len() as int), m, s, k)
    ensures all_valid(m, s, k) == genuine_page(p), m.len() == 0 ==> genuine_page(p)
{
    let u = users(p, p.len() as int);
    lemma_users(p, p.len() as int);
    if all_valid(m, s, k) {
        assert forall|i: int| 0 <= i < p.len() implies (user(#[trigger] p[i]) matches Some(x) ==> genuine(x)) by {
            if user(p[i]) is Some { let x = user(p[i])->Some_0; assert(u.contains(x)); let j = choose|j: int| 0 <= j < u.len() && #[trigger] u[j] == x; assert(genuine_data(u[j])); assert(valid(k[j].b@, m[j]@, s[j].b@)); }
        }
    }
    if genuine_page(p) {
        assert forall|j: int| 0 <= j < m.len() implies valid((#[trigger] k[j]).b@, m[j]@, s[j].b@) by {
            assert(genuine_data(u[j])); let i = choose|i: int| 0 <= i < p.len() && user(#[trigger] p[i]) == Some(u[j]); assert(genuine(u[j]));
        }
    }
}
pub struct ReplicatorBootstrap {}
impl ReplicatorBootstrap {
//@fn src/bootstrap/replication/service.rs::ReplicatorBootstrap::validate_messages_signatures -> r
    ensures r is Ok == genuine_page(trie_messages@)
//@rw `VerifyingKey::try_from(m.signer.as_slice())` => `VerifyingKey::vx_of(m.signer.as_slice())`
//@rw `validations::error::ValidationError` => `ValidationError`
//@rw `ed25519_dalek::verify_batch(` => `vx_verify_batch(`
//@loops 1
//@loop 0
        invariant collected(users(trie_messages@, vx_i0 as int), message_hashes@, signatures@, verifying_keys@), len == trie_messages@.len()
//@loopstart 0
        let ghost vx_u = users(trie_messages@, vx_i0 as int); let ghost vx_e = user(trie_messages@[vx_i0 as int]);
        proof { assert(users(trie_messages@, vx_i0 + 1) == (match vx_e { Some(m) => vx_u.push(m), None => vx_u })); }
//@before `if !signatures.is_empty()`
    proof { lemma_page(trie_messages@, message_hashes@, signatures@, verifying_keys@); }
//@closure 0 |e: SignatureError| -> (k: BootstrapError)
//@endfn
}
}
} // verus!
fn main() {}
