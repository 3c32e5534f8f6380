// Key bodies are accepted exactly when well formed; the custody address is recovered from a digest of every signed field.
//@include prelude.vrs
//@include errors.vrs
global size_of usize == 8;
//@include strings.vrs
//@include fmt.vrs
//@include json.vrs
//@include eth.vrs
//@proto KeyAddBody KeyRemoveBody MessageType
use proto::*;
//@item src/core/validations/error.rs::ValidationError
//@item src/core/validations/key.rs::ED25519_PUBLIC_KEY_LEN
//@item src/core/validations/key.rs::KEY_TYPE_ED25519
//@item src/core/validations/key.rs::KeyRemoveSignatureType
//@item src/core/validations/key.rs::MAX_KEY_TTL_SECONDS
//@item src/core/validations/key.rs::MAX_KEY_ADD_SCOPES
//@item src/core/validations/key.rs::KEY_DOMAIN_NAME
//@item src/core/validations/key.rs::KEY_DOMAIN_VERSION
//@item src/core/validations/key.rs::METADATA_TYPE_SIGNED_KEY_REQUEST
//@item src/core/validations/key.rs::KeyAddPayload
//@item src/core/validations/key.rs::KeyRemovePayload
//@item src/core/validations/key.rs::VerifiedSignedKeyRequest
// ---- bodies
// casts, reactions, links, verifications, user data, username proofs, frame actions, storage loans
pub open spec fn ordinary(s: i32) -> bool { MessageType::of(s) matches Ok(t) && match t {
    MessageType::CastAdd | MessageType::CastRemove | MessageType::ReactionAdd | MessageType::ReactionRemove | MessageType::LinkAdd | MessageType::LinkRemove | MessageType::LinkCompactState
    | MessageType::VerificationAddEthAddress | MessageType::VerificationRemove | MessageType::UserDataAdd | MessageType::UsernameProof | MessageType::FrameAction | MessageType::LendStorage => true,
    MessageType::None | MessageType::KeyAdd | MessageType::KeyRemove | MessageType::ChannelUpdate | MessageType::ChannelMember | MessageType::ChannelPin | MessageType::ChannelModerate => false } }
pub open spec fn ok_scopes(s: Seq<i32>) -> bool { 1 <= s.len() <= 16 && forall|i: int| 0 <= i < s.len() ==> ordinary(#[trigger] s[i]) }
pub open spec fn ok_add(b: KeyAddBody) -> bool {
    b.key@.len() == 32 && b.key_type == 1 && b.deadline != 0 && 1 <= b.ttl <= 7_776_000 && b.metadata_type == 1 && b.metadata@.len() > 0 && ok_scopes(b.scopes@)
}
pub open spec fn ok_remove(b: KeyRemoveBody) -> bool { b.key@.len() == 32 && (b.signature_type == 1 || b.signature_type == 2) && b.deadline != 0 }
impl KeyRemoveSignatureType {
//@fn src/core/validations/key.rs::<TryFrom<u32> for KeyRemoveSignatureType>::try_from -> r
    ensures v == 1 ==> r == Ok::<KeyRemoveSignatureType, ValidationError>(KeyRemoveSignatureType::Custody),
        v == 2 ==> r == Ok::<KeyRemoveSignatureType, ValidationError>(KeyRemoveSignatureType::SelfRevoke), v != 1 && v != 2 ==> r is Err
//@rw `Self::Error` => `ValidationError`
//@endfn
}
//@fn src/core/validations/key.rs::validate_key_add_scopes -> r
    ensures r is Ok <==> ok_scopes(scopes@)
//@loop 0 it
    invariant 1 <= scopes@.len() <= 16, forall|j: int| 0 <= j < it.index@ ==> ordinary(#[trigger] scopes@[j])
//@endfn
//@fn src/core/validations/key.rs::validate_key_add_body -> r
    ensures r is Ok <==> ok_add(*body)
//@endfn
//@fn src/core/validations/key.rs::validate_key_remove_body -> r
    ensures r is Ok <==> ok_remove(*body)
//@endfn
// ---- what is signed
pub open spec fn domain_fields() -> J { push(push(push(arr0(), field("name"@, "string"@)), field("version"@, "string"@)), field("chainId"@, "uint256"@)) }
pub open spec fn domain(chain: u32) -> J { put(put(put(obj0(), "name"@, J::Str("Farcaster KeyAdd"@)), "version"@, J::Str("1"@)), "chainId"@, J::Num(chain as int)) }
pub open spec fn hex0x(b: Seq<u8>) -> J { J::Str("0x"@ + hex(b)) }
pub open spec fn add_fields() -> J {
    push(push(push(push(push(push(push(arr0(), field("fid"@, "uint256"@)), field("key"@, "bytes"@)), field("keyType"@, "uint32"@)), field("scopes"@, "uint32[]"@)), field("ttl"@, "uint32"@)), field("nonce"@, "uint32"@)), field("deadline"@, "uint256"@))
}
pub open spec fn add_types() -> J { put(put(obj0(), "EIP712Domain"@, domain_fields()), "KeyAdd"@, add_fields()) }
pub open spec fn add_message(p: KeyAddPayload) -> J {
    put(put(put(put(put(put(put(obj0(), "fid"@, J::Num(p.fid as int)), "key"@, hex0x(p.key@)), "keyType"@, J::Num(p.key_type as int)), "scopes"@, nums(p.scopes@.map_values(|x: i32| x as u32))), "ttl"@, J::Num(p.ttl as int)), "nonce"@, J::Num(p.nonce as int)), "deadline"@, J::Num(p.deadline as int))
}
pub open spec fn remove_fields() -> J { push(push(push(push(arr0(), field("fid"@, "uint256"@)), field("key"@, "bytes"@)), field("nonce"@, "uint32"@)), field("deadline"@, "uint256"@)) }
pub open spec fn remove_types() -> J { put(put(obj0(), "EIP712Domain"@, domain_fields()), "KeyRemove"@, remove_fields()) }
pub open spec fn remove_message(p: KeyRemovePayload) -> J {
    put(put(put(put(obj0(), "fid"@, J::Num(p.fid as int)), "key"@, hex0x(p.key@)), "nonce"@, J::Num(p.nonce as int)), "deadline"@, J::Num(p.deadline as int))
}
pub open spec fn request_fields() -> J { push(push(push(arr0(), field("requestFid"@, "uint256"@)), field("key"@, "bytes"@)), field("deadline"@, "uint256"@)) }
pub open spec fn request_types() -> J { put(put(obj0(), "EIP712Domain"@, domain_fields()), "SignedKeyRequest"@, request_fields()) }
pub open spec fn request_message(fid: u64, key: Seq<u8>, deadline: u64) -> J { put(put(put(obj0(), "requestFid"@, J::Num(fid as int)), "key"@, hex0x(key)), "deadline"@, J::Num(deadline as int)) }
pub open spec fn whole(r: Option<Address>, o: Result<Address, ValidationError>) -> bool { (o is Ok) == (r is Some) && (r is Some ==> o->Ok_0 == r->Some_0) }
pub open spec fn plain(s: Seq<i32>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 0 }
pub open spec fn add_digest(p: KeyAddPayload, chain: u32) -> Option<Hash32> { digest_of(add_types(), J::Str("KeyAdd"@), domain(chain), add_message(p)) }
pub open spec fn remove_digest(p: KeyRemovePayload, chain: u32) -> Option<Hash32> { digest_of(remove_types(), J::Str("KeyRemove"@), domain(chain), remove_message(p)) }
pub open spec fn request_digest(fid: u64, key: Seq<u8>, deadline: u64, chain: u32) -> Option<Hash32> { digest_of(request_types(), J::Str("SignedKeyRequest"@), domain(chain), request_message(fid, key, deadline)) }

#[verifier::external_body] pub fn vx_map_try<T, U, E, F: Fn(&T) -> Result<U, E>>(s: &[T], f: F) -> (r: Result<Vec<U>, E>)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],))
    ensures r matches Ok(v) ==> v@.len() == s@.len() && (forall|i: int| #![trigger v@[i]] #![trigger s@[i]] 0 <= i < v@.len() ==> f.ensures((&s@[i],), Ok(v@[i]))),
        r matches Err(e) ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), Err(e)) { unimplemented!() }
//@fn src/core/validations/key.rs::key_eip712_domain -> r
    ensures r@ == domain(chain_id)
//@endfn
//@fn src/core/validations/key.rs::eip712_domain_type -> r
    ensures r@ == domain_fields()
//@endfn
//@fn src/core/validations/key.rs::key_add_types -> r
    ensures r@ == add_types()
//@endfn
//@fn src/core/validations/key.rs::key_remove_types -> r
    ensures r@ == remove_types()
//@endfn
//@fn src/core/validations/key.rs::signed_key_request_types -> r
    ensures r@ == request_types()
//@endfn
//@fn src/core/validations/key.rs::key_add_typed_data -> r
    ensures (r is Ok) == (plain(payload.scopes@) && typed4(add_types(), J::Str("KeyAdd"@), domain(chain_id), add_message(*payload)) is Some),
        r is Ok ==> r->Ok_0 == typed4(add_types(), J::Str("KeyAdd"@), domain(chain_id), add_message(*payload))->Some_0
//@format
//@rw `payload.scopes.iter().map(` => `vx_map_try(payload.scopes, `
//@rw `.collect::<Result<_, _>>()` => ``
//@closure 0 |s: &i32| -> (k: Result<u32, ValidationError>) ensures k matches Ok(v) ==> v == *s, (k is Err) == (*s < 0)
//@closure 1 |_vx: std::num::TryFromIntError| -> (k: ValidationError)
//@closure 2 |_vx: JsonError| -> (k: ValidationError)
//@start
    proof {
        lemma_members();
        // the scopes as unsigned numbers, member by member
        assert forall|v: Seq<u32>| v.len() == payload.scopes@.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == payload.scopes@[i]) implies #[trigger] nums(v) == nums(payload.scopes@.map_values(|x: i32| x as u32)) by {
            assert(v =~= payload.scopes@.map_values(|x: i32| x as u32));
        }
    }
//@endfn
//@fn src/core/validations/key.rs::key_remove_typed_data -> r
    ensures (r is Ok) == (typed4(remove_types(), J::Str("KeyRemove"@), domain(chain_id), remove_message(*payload)) is Some),
        r is Ok ==> r->Ok_0 == typed4(remove_types(), J::Str("KeyRemove"@), domain(chain_id), remove_message(*payload))->Some_0
//@format
//@closure 0 |_vx: JsonError| -> (k: ValidationError)
//@start
    proof { lemma_members(); }
//@endfn
//@fn src/core/validations/key.rs::signed_key_request_typed_data -> r
    ensures (r is Ok) == (typed4(request_types(), J::Str("SignedKeyRequest"@), domain(chain_id), request_message(request_fid, key@, deadline)) is Some),
        r is Ok ==> r->Ok_0 == typed4(request_types(), J::Str("SignedKeyRequest"@), domain(chain_id), request_message(request_fid, key@, deadline))->Some_0
//@format
//@closure 0 |_vx: JsonError| -> (k: ValidationError)
//@start
    proof { lemma_members(); }
//@endfn
//@fn src/core/validations/key.rs::recover_from_typed_data -> r
    ensures whole(signer(signature@, digest(*typed_data)), r)
//@rw `&signature[0..64]` => `vx_part(signature, 0, 64)`
//@closure 0 |_vx: SigError| -> (k: ValidationError)
//@closure 1 |_vx: SigError| -> (k: ValidationError)
//@endfn
//@fn src/core/validations/key.rs::recover_key_add_custody_address -> r
    ensures whole(if plain(payload.scopes@) { signer(signature@, add_digest(*payload, chain_id)) } else { None }, r)
//@endfn
//@fn src/core/validations/key.rs::recover_key_remove_custody_address -> r
    ensures whole(signer(signature@, remove_digest(*payload, chain_id)), r)
//@endfn
// ---- app key requests (ABI-encoded)
pub struct U256 { pub l: [u64; 4] }
pub uninterp spec fn num(u: U256) -> nat;
#[verifier::external_body] pub fn vx_u64_of(u: U256) -> (r: Result<u64, AbiError>) ensures (r is Ok) == (num(u) <= u64::MAX), r is Ok ==> r->Ok_0 == num(u) { unimplemented!() }
pub struct AbiError { pub k: u8 }
pub struct Bytes { pub v: Vec<u8> }
impl Bytes { pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.v@ { self.v.as_slice() } }
#[allow(non_snake_case)]
pub struct SignedKeyRequestMetadata { pub requestFid: U256, pub requestSigner: Address, pub signature: Bytes, pub deadline: U256 }
pub uninterp spec fn request_of(b: Seq<u8>) -> Option<SignedKeyRequestMetadata>;
impl SignedKeyRequestMetadata { #[verifier::external_body] pub fn abi_decode(b: &[u8]) -> (r: Result<SignedKeyRequestMetadata, AbiError>) ensures (r is Ok) == (request_of(b@) is Some), r is Ok ==> r->Ok_0 == request_of(b@)->Some_0 { unimplemented!() } }
// what an acceptable request must be: unexpired, and signed by the signer it states over its fid, the key and its deadline
pub open spec fn ok_request(kind: u32, metadata: Seq<u8>, key: Seq<u8>, now: u64, chain: u32) -> bool {
    kind == 1 && metadata.len() > 0 && (request_of(metadata) matches Some(d) && now <= num(d.deadline) <= u64::MAX && num(d.requestFid) <= u64::MAX
        && signer(d.signature.v@, request_digest(num(d.requestFid) as u64, key, num(d.deadline) as u64, chain)) == Some(d.requestSigner))
}
//@fn src/core/validations/key.rs::verify_signed_key_request_metadata -> r
    ensures (r is Ok) == ok_request(metadata_type, metadata@, key@, current_timestamp, chain_id),
        r is Ok ==> ({ let d = request_of(metadata@)->Some_0; r->Ok_0.request_fid == num(d.requestFid) && r->Ok_0.request_signer == d.requestSigner && r->Ok_0.deadline == num(d.deadline) })
//@rw `u64::try_from(decoded.deadline)` => `vx_u64_of(decoded.deadline)`
//@rw `u64::try_from(decoded.requestFid)` => `vx_u64_of(decoded.requestFid)`
//@closure 0 |_vx: AbiError| -> (k: ValidationError)
//@closure 1 |_vx: AbiError| -> (k: ValidationError)
//@closure 2 |_vx: AbiError| -> (k: ValidationError)
//@closure 3 |_vx: ValidationError| -> (k: ValidationError)
//@endfn
// ---- every signed field counts: two changes with the same signed text are the same change
pub proof fn lemma_cancel(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires a + b == a + c ensures b == c {
    assert(b =~= (a + b).skip(a.len() as int)); assert(c =~= (a + c).skip(a.len() as int));
}
pub proof fn lemma_names()
    ensures "fid"@ != "key"@, "fid"@ != "keyType"@, "fid"@ != "scopes"@, "fid"@ != "ttl"@, "fid"@ != "nonce"@, "fid"@ != "deadline"@, "key"@ != "keyType"@, "key"@ != "scopes"@, "key"@ != "ttl"@, "key"@ != "nonce"@, "key"@ != "deadline"@,
        "keyType"@ != "scopes"@, "keyType"@ != "ttl"@, "keyType"@ != "nonce"@, "keyType"@ != "deadline"@, "scopes"@ != "ttl"@, "scopes"@ != "nonce"@, "scopes"@ != "deadline"@, "ttl"@ != "nonce"@, "ttl"@ != "deadline"@, "nonce"@ != "deadline"@, "requestFid"@ != "key"@, "requestFid"@ != "deadline"@
{
    reveal_strlit("fid"); reveal_strlit("key"); reveal_strlit("keyType"); reveal_strlit("scopes"); reveal_strlit("ttl"); reveal_strlit("nonce"); reveal_strlit("deadline"); reveal_strlit("requestFid");
    assert("fid"@[0] == 'f'); assert("key"@[0] == 'k'); assert("keyType"@.len() == 7); assert("scopes"@[0] == 's'); assert("ttl"@[0] == 't'); assert("nonce"@[0] == 'n'); assert("deadline"@[0] == 'd'); assert("requestFid"@[0] == 'r'); assert("keyType"@[0] == 'k');
}
pub proof fn lemma_hex0x(a: Seq<u8>, b: Seq<u8>) requires hex0x(a) == hex0x(b) ensures a == b
{ assert("0x"@ + hex(a) == "0x"@ + hex(b)) by { assert(hex0x(a)->Str_0 == hex0x(b)->Str_0); } lemma_cancel("0x"@, hex(a), hex(b)); ax_hex(a, b); }
pub proof fn lemma_nums(a: Seq<i32>, b: Seq<i32>) requires plain(a), plain(b), nums(a.map_values(|x: i32| x as u32)) == nums(b.map_values(|x: i32| x as u32)) ensures a =~= b
{
    let (p, q) = (nums(a.map_values(|x: i32| x as u32))->Arr_0, nums(b.map_values(|x: i32| x as u32))->Arr_0);
    assert(p.len() == a.len() && q.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(p[i]->Num_0 == a[i] as u32); assert(q[i]->Num_0 == b[i] as u32); }
}
pub proof fn every_field_counts_in_an_addition(a: KeyAddPayload, b: KeyAddPayload) requires plain(a.scopes@), plain(b.scopes@), add_message(a) == add_message(b)
    ensures a.fid == b.fid, a.key@ == b.key@, a.key_type == b.key_type, a.scopes@ == b.scopes@, a.ttl == b.ttl, a.nonce == b.nonce, a.deadline == b.deadline
{
    lemma_names();
    let (x, y) = (add_message(a), add_message(b));
    assert(get(x, "fid"@) == get(y, "fid"@)); assert(get(x, "key"@) == get(y, "key"@)); assert(get(x, "keyType"@) == get(y, "keyType"@)); assert(get(x, "scopes"@) == get(y, "scopes"@)); assert(get(x, "ttl"@) == get(y, "ttl"@)); assert(get(x, "nonce"@) == get(y, "nonce"@)); assert(get(x, "deadline"@) == get(y, "deadline"@));
    assert(get(x, "fid"@)->Num_0 == a.fid); assert(get(y, "fid"@)->Num_0 == b.fid);
    assert(get(x, "keyType"@)->Num_0 == a.key_type); assert(get(y, "keyType"@)->Num_0 == b.key_type);
    assert(get(x, "ttl"@)->Num_0 == a.ttl); assert(get(y, "ttl"@)->Num_0 == b.ttl);
    assert(get(x, "nonce"@)->Num_0 == a.nonce); assert(get(y, "nonce"@)->Num_0 == b.nonce);
    assert(get(x, "deadline"@)->Num_0 == a.deadline); assert(get(y, "deadline"@)->Num_0 == b.deadline);
    lemma_hex0x(a.key@, b.key@); lemma_nums(a.scopes@, b.scopes@);
}
pub proof fn every_field_counts_in_a_removal(a: KeyRemovePayload, b: KeyRemovePayload) requires remove_message(a) == remove_message(b)
    ensures a.fid == b.fid, a.key@ == b.key@, a.nonce == b.nonce, a.deadline == b.deadline
{
    lemma_names();
    let (x, y) = (remove_message(a), remove_message(b));
    assert(get(x, "fid"@)->Num_0 == a.fid); assert(get(y, "fid"@)->Num_0 == b.fid); assert(get(x, "key"@) == hex0x(a.key@)); assert(get(y, "key"@) == hex0x(b.key@));
    assert(get(x, "nonce"@)->Num_0 == a.nonce); assert(get(y, "nonce"@)->Num_0 == b.nonce); assert(get(x, "deadline"@)->Num_0 == a.deadline); assert(get(y, "deadline"@)->Num_0 == b.deadline);
    lemma_hex0x(a.key@, b.key@);
}
pub proof fn every_field_counts_in_a_request(f: u64, k: Seq<u8>, d: u64, g: u64, l: Seq<u8>, e: u64) requires request_message(f, k, d) == request_message(g, l, e) ensures f == g, k == l, d == e
{
    lemma_names();
    let (x, y) = (request_message(f, k, d), request_message(g, l, e));
    assert(get(x, "requestFid"@)->Num_0 == f); assert(get(y, "requestFid"@)->Num_0 == g); assert(get(x, "key"@) == hex0x(k)); assert(get(y, "key"@) == hex0x(l));
    assert(get(x, "deadline"@)->Num_0 == d); assert(get(y, "deadline"@)->Num_0 == e);
    lemma_hex0x(k, l);
}
} // verus!
fn main() {}
