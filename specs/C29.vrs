//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@proto UserNameProof FnameTransfer UserNameType CastId MessageType
//@include keys.vrs
//@include batch.vrs
//@include lex.vrs
//@include strings.vrs
use proto::{UserNameProof, FnameTransfer, UserNameType};
pub open spec fn proof_key(name: Seq<u8>) -> Seq<u8> { seq![RootPrefix::FNameUserNameProof as u8] + name }
pub open spec fn fid_index(fid: u64) -> Seq<u8> { seq![RootPrefix::FNameUserNameProofByFid as u8] + fid_key(fid) }
//@fn src/storage/store/account/name_registry_events.rs::make_fname_username_proof_key -> r
    ensures r@ =~= proof_key(name@),
//@endfn
//@fn src/storage/store/account/name_registry_events.rs::make_fname_username_proof_by_fid_key -> r
    ensures r@ =~= fid_index(fid),
//@endfn
// what the protobuf library writes for a proof (opaque)
pub uninterp spec fn encoded(m: UserNameProof) -> Seq<u8>;
#[verifier::external_body] pub fn vx_encode(m: &UserNameProof) -> (r: Vec<u8>) ensures r@ == encoded(*m) { unimplemented!() }
// the batch now says: k is written with the bytes v
pub open spec fn puts(b: B, k: Seq<u8>, v: Seq<u8>) -> bool { b.contains_key(k) && b[k] is Some && b[k]->Some_0@ == v }
pub open spec fn drops(b: B, k: Seq<u8>) -> bool { b.contains_key(k) && b[k] is None }
pub open spec fn untouched(a: B, b: B, k: Seq<u8>) -> bool { (a.contains_key(k) <==> b.contains_key(k)) && (a.contains_key(k) ==> a[k] == b[k]) }
proof fn lemma_keys(name: Seq<u8>, f: u64, g: u64)
    ensures proof_key(name) != fid_index(f), f <= u32::MAX && g <= u32::MAX && fid_index(f) == fid_index(g) ==> f == g
{
    assert(proof_key(name)[0] != fid_index(f)[0]);
    if f <= u32::MAX && g <= u32::MAX && fid_index(f) == fid_index(g) { assert(fid_index(f).skip(1) =~= fid_key(f)); assert(fid_index(g).skip(1) =~= fid_key(g)); lemma_be32_inj(f as u32, g as u32); }
}
//@fn src/storage/store/account/name_registry_events.rs::put_username_proof_transaction
    requires username_proof.fid <= u32::MAX, existing_fid is Some ==> existing_fid->Some_0 <= u32::MAX,
    ensures
        puts(final(txn).batch@, proof_key(username_proof.name@), encoded(*username_proof)),
        puts(final(txn).batch@, fid_index(username_proof.fid), proof_key(username_proof.name@)),
        existing_fid is Some && existing_fid->Some_0 != username_proof.fid ==> drops(final(txn).batch@, fid_index(existing_fid->Some_0)),
        forall|k: Seq<u8>| k != proof_key(username_proof.name@) && k != fid_index(username_proof.fid) && !(existing_fid is Some && k == fid_index(existing_fid->Some_0)) ==> #[trigger] untouched(old(txn).batch@, final(txn).batch@, k),
//@rw `username_proof.encode_to_vec()` => `vx_encode(username_proof)`
//@closure 0 |fid: &u64| -> (o: bool)
    ensures o == (*fid != username_proof.fid)
//@start
    proof { lemma_keys(username_proof.name@, username_proof.fid, 0); if existing_fid is Some { lemma_keys(username_proof.name@, existing_fid->Some_0, username_proof.fid); } }
//@endfn
//@fn src/storage/store/account/name_registry_events.rs::delete_username_proof_transaction
    ensures
        puts(final(txn).batch@, proof_key(username_proof.name@), encoded(*username_proof)),
        existing_fid is Some ==> drops(final(txn).batch@, fid_index(existing_fid->Some_0)),
        forall|k: Seq<u8>| k != proof_key(username_proof.name@) && !(existing_fid is Some && k == fid_index(existing_fid->Some_0)) ==> #[trigger] untouched(old(txn).batch@, final(txn).batch@, k),
//@rw `username_proof.encode_to_vec()` => `vx_encode(username_proof)`
//@start
    proof { if existing_fid is Some { lemma_keys(username_proof.name@, existing_fid->Some_0, 0); } }
//@endfn
// the later timestamp wins, ties fall to the greater signature
pub open spec fn cmp(a: UserNameProof, b: UserNameProof) -> i8 { if a.timestamp < b.timestamp { -1i8 } else if a.timestamp > b.timestamp { 1i8 } else { lexcmp(a.signature@, b.signature@) } }
pub struct UserDataStore {}
impl UserDataStore {
//@fn src/storage/store/account/user_data_store.rs::UserDataStore::username_proof_compare -> r
    ensures r == cmp(*a, *b),
//@endfn
}
proof fn theorem_total(a: UserNameProof, b: UserNameProof, c: UserNameProof)
    ensures cmp(a, b) == -cmp(b, a), cmp(a, b) == 0 <==> a.timestamp == b.timestamp && a.signature@ == b.signature@,
        cmp(a, b) < 0 && cmp(b, c) <= 0 ==> cmp(a, c) < 0,
{
    lemma_antisym(a.signature@, b.signature@); lemma_zero_iff_equal(a.signature@, b.signature@);
    if cmp(a, b) < 0 && cmp(b, c) <= 0 && a.timestamp == b.timestamp && b.timestamp == c.timestamp { lemma_trans(a.signature@, b.signature@, c.signature@); }
}
// the registry's transfers
pub mod reqwest { pub struct Error; }
//@item src/connectors/fname/mod.rs::Transfer
//@item src/connectors/fname/mod.rs::FetchError
pub uninterp spec fn unhex(s: Seq<char>) -> Option<Seq<u8>>;
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
pub open spec fn prefixed(s: Seq<char>) -> bool { s.len() > 2 && s[0] == '0' && s[1] == 'x' }
#[verifier::external_body] pub fn vx_0x(s: &String) -> (r: bool) ensures r <==> s@.len() >= 2 && s@[0] == '0' && s@[1] == 'x' { unimplemented!() }
proof fn lemma_ascii2(s: Seq<char>) requires s.len() >= 2, s[0] == '0', s[1] == 'x' ensures encode_utf8(s).len() > 2 <==> s.len() > 2 {
    reveal_with_fuel(encode_utf8, 3);
    assert(encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.drop_first()));
    assert(encode_utf8(s.drop_first()) == encode_scalar(s[1] as u32) + encode_utf8(s.drop_first().drop_first()));
    lemma_blen_zero(s.drop_first().drop_first());
}
// hex::decode of the string without its first two bytes (which panics unless they end at a character boundary)
#[verifier::external_body] pub fn vx_unhex2(s: &String) -> (r: Result<Vec<u8>, ()>) requires s@.len() >= 2, s@[0] == '0', s@[1] == 'x'
    ensures r is Ok <==> unhex(s@.skip(2)) is Some, r is Ok ==> r->Ok_0@ == unhex(s@.skip(2))->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_utf8(s: &String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
pub open spec fn well_formed(t: Transfer) -> bool { prefixed(t.owner@) && unhex(t.owner@.skip(2)) is Some && prefixed(t.server_signature@) && unhex(t.server_signature@.skip(2)) is Some }
//@fn src/connectors/fname/mod.rs::transfer_to_fname_transfer -> r
    ensures r is Ok <==> well_formed(*t),
        r is Ok ==> r->Ok_0.id == t.id && r->Ok_0.from_fid == t.from && r->Ok_0.proof is Some && ({
            let p = r->Ok_0.proof->Some_0;
            p.timestamp == t.timestamp && p.fid == t.to && p.name@ == utf8(t.username@) && p.r#type == UserNameType::UsernameTypeFname as i32
                && p.owner@ == unhex(t.owner@.skip(2))->Some_0 && p.signature@ == unhex(t.server_signature@.skip(2))->Some_0 }),
//@rw `t.owner.starts_with("0x")` => `vx_0x(&t.owner)`
//@rw `t.server_signature.starts_with("0x")` => `vx_0x(&t.server_signature)`
//@start
    proof { if t.owner@.len() >= 2 && t.owner@[0] == '0' && t.owner@[1] == 'x' { lemma_ascii2(t.owner@); } if t.server_signature@.len() >= 2 && t.server_signature@[0] == '0' && t.server_signature@[1] == 'x' { lemma_ascii2(t.server_signature@); } }
//@rw `hex::decode(&t.owner[2..])` => `vx_unhex2(&t.owner)`
//@rw `hex::decode(&t.server_signature[2..])` => `vx_unhex2(&t.server_signature)`
//@rw `t.username.clone().into_bytes()` => `vx_utf8(&t.username)`
//@closure 0 |vx_e: ()| -> (o: FetchError)
//@closure 1 |vx_e: ()| -> (o: FetchError)
//@endfn
} // verus!
fn main() {}
