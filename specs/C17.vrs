//@include prelude.vrs
global size_of usize == 8;
// the two variants the extracted functions construct
pub enum TrieError { TokenDecodeError(String), InvalidPageToken(String) }
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn unb64(s: Seq<char>) -> Option<Seq<u8>>;
pub broadcast axiom fn ax_b64(b: Seq<u8>) ensures unb64(#[trigger] b64(b)) == Some(b), b64(b).len() == 0 <==> b.len() == 0;
#[verifier::external_body]
pub fn vx_b64_encode(b: Vec<u8>) -> (r: String) ensures r@ == b64(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_b64_decode(s: &str) -> (r: Result<Vec<u8>, String>) ensures r is Ok <==> unb64(s@) is Some, r is Ok ==> r->Ok_0@ == unb64(s@)->Some_0 && r->Ok_0@.len() <= isize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn vx_four(b: &[u8]) -> (r: [u8; 4]) requires b@.len() == 4 ensures r@ == b@ { unimplemented!() }
// memory is reserved for no more parts than the token can hold
pub fn vx_reserve(cap: usize, bytes: &Vec<u8>) -> (r: Vec<Vec<u8>>) requires cap <= bytes@.len() ensures r@.len() == 0 { Vec::with_capacity(cap) }

pub open spec fn nibbles(s: Seq<u8>) -> Seq<u8> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { s[i / 2] >> 4 } else { s[i / 2] & 0x0f }) }
//@fn src/storage/trie/util.rs::expand_nibbles -> r
    ensures r@ == nibbles(input@),
//@loops 1
//@loop 0
    invariant result@.len() == 2 * vx_i0, forall|i: int| 0 <= i < 2 * vx_i0 ==> #[trigger] result@[i] == nibbles(input@)[i],
//@loopafter 0
    proof { assert(result@ =~= nibbles(input@)); }
//@start
    proof { admit_len(input); }
//@endfn
#[verifier::external_body]
proof fn admit_len(s: &[u8]) ensures s@.len() <= isize::MAX, s@.len() * 2 <= usize::MAX {}
//@fn src/storage/trie/util.rs::combine_nibbles -> r
    requires input@.len() % 2 == 0,
    ensures r@ =~= Seq::new((input@.len() / 2) as nat, |i: int| (input@[2 * i] << 4) | (input@[2 * i + 1] & 0x0f)),
//@loops 1
//@rw `for chunk in input.chunks_exact(2)` => `for vx_j in 0..input.len() / 2`
//@loopstart 0
    let chunk = [input[2 * vx_j], input[2 * vx_j + 1]];
//@loop 0
    invariant result@.len() == vx_j, forall|i: int| 0 <= i < vx_j ==> #[trigger] result@[i] == (input@[2 * i] << 4) | (input@[2 * i + 1] & 0x0f),
//@endfn
proof fn theorem_nibbles_invert(s: Seq<u8>)
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (nibbles(s)[2 * i] << 4) | (nibbles(s)[2 * i + 1] & 0x0f), forall|i: int| 0 <= i < nibbles(s).len() ==> #[trigger] nibbles(s)[i] < 16
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == (nibbles(s)[2 * i] << 4) | (nibbles(s)[2 * i + 1] & 0x0f) by {
        let x = s[i]; assert(x == ((x >> 4) << 4) | ((x & 0x0f) & 0x0f)) by (bit_vector);
        assert((2 * i) / 2 == i && (2 * i + 1) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) % 2 == 1);
    }
    assert forall|i: int| 0 <= i < nibbles(s).len() implies #[trigger] nibbles(s)[i] < 16 by { let x = s[i / 2]; assert(x >> 4 < 16 && x & 0x0f < 16) by (bit_vector); }
}
pub open spec fn views(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn enc_parts(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { enc_parts(s.drop_last()) + be32(s.last().len() as u32) + s.last() }
}
pub open spec fn enc(s: Seq<Seq<u8>>) -> Seq<u8> { be32(s.len() as u32) + enc_parts(s) }
// the only reading of b as exactly n parts
pub open spec fn parse(b: Seq<u8>, n: nat) -> Option<Seq<Seq<u8>>> decreases n {
    if n == 0 { if b.len() == 0 { Some(Seq::empty()) } else { None } }
    else if b.len() < 4 { None }
    else { let l = unbe32(b.take(4)) as int; if b.len() < 4 + l { None } else { match parse(b.skip(4 + l), (n - 1) as nat) { None => None, Some(r) => Some(seq![b.subrange(4, 4 + l)] + r) } } }
}
pub open spec fn fits(s: Seq<Seq<u8>>) -> bool { s.len() <= u32::MAX && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() <= u32::MAX }
//@fn src/storage/trie/util.rs::encode_trie_page_token -> r
    requires token is Some ==> fits(views(token->Some_0@)),
    ensures r@ == (if token is None || token->Some_0@.len() == 0 { Seq::empty() } else { b64(enc(views(token->Some_0@))) }),
//@loops 1
//@rw `4 + token_ref.iter().map(|v| 4 + v.len()).sum::<usize>()` => `0`
//@rw `base64::engine::general_purpose::STANDARD.encode(` => `vx_b64_encode(`
//@rw `use base64::Engine;` => ``
//@loop 0
    invariant token is Some, *token_ref == token->Some_0, fits(views(token_ref@)), buf@ == be32(token_ref@.len() as u32) + enc_parts(views(token_ref@).take(vx_i0 as int)),
//@loopstart 0
    proof { let v = views(token_ref@); assert(v.take(vx_i0 as int + 1).drop_last() =~= v.take(vx_i0 as int)); assert(v[vx_i0 as int].len() <= u32::MAX);
        assert(v.take(vx_i0 as int + 1).last() == v[vx_i0 as int]); }
//@before `for part in`
    proof { assert(buf@ =~= be32(token_ref@.len() as u32) + enc_parts(views(token_ref@).take(0))); }
//@loopend 0
    proof { let v = views(token_ref@); assert(buf@ =~= be32(token_ref@.len() as u32) + enc_parts(v.take(vx_i0 as int + 1))); }
//@loopafter 0
    proof { assert(views(token_ref@).take(token_ref@.len() as int) =~= views(token_ref@)); }
//@endfn
pub open spec fn read(s: Seq<char>) -> Option<Option<Seq<Seq<u8>>>> {
    if s.len() == 0 { Some(None) } else { match unb64(s) { None => None, Some(b) =>
        if b.len() < 4 { None } else { match parse(b.skip(4), unbe32(b.take(4)) as nat) { None => None, Some(v) => if v.len() == 0 { Some(None) } else { Some(Some(v)) } } } } }
}
//@fn src/storage/trie/util.rs::decode_trie_page_token -> r
    ensures
        r is Ok <==> read(encoded@) is Some,
        r is Ok ==> (match r->Ok_0 { None => read(encoded@) == Some(None::<Seq<Seq<u8>>>), Some(v) => read(encoded@) == Some(Some(views(v@))) }),
//@loops 1
//@rw `base64::engine::general_purpose::STANDARD.decode(encoded.as_bytes())` => `vx_b64_decode(encoded)`
//@rw `bytes[offset..offset + 4].try_into().unwrap()` => `vx_four(&bytes[offset..offset + 4])`
//@rw `Vec::with_capacity(count.min(bytes.len() / 4))` => `vx_reserve(count.min(bytes.len() / 4), &bytes)`
//@rw `Vec::with_capacity(count)` => `vx_reserve(count, &bytes)`
//@rw `"Too short".into()` => `"Too short".to_string()`
//@rw `.into()` => `.to_string()`
//@closure 0 |e: String| -> (o: TrieError)
//@loop 0 vxit
    invariant
        unb64(encoded@) == Some(bytes@), bytes@.len() >= 4, bytes@.len() <= isize::MAX, encoded@.len() > 0, count == unbe32(bytes@.take(4)), 4 <= offset <= bytes@.len(), out@.len() == vxit.index@,
        parse(bytes@.skip(4), count as nat) == (match parse(bytes@.skip(offset as int), (count - vxit.index@) as nat) { None => None, Some(r) => Some(views(out@) + r) }),
//@loopstart 0
    proof { let b = bytes@.skip(offset as int);
        if b.len() >= 4 { assert(b.take(4) =~= bytes@.subrange(offset as int, offset + 4)); let l = unbe32(b.take(4)) as int;
            if b.len() >= 4 + l { assert(b.skip(4 + l) =~= bytes@.skip(offset + 4 + l)); assert(b.subrange(4, 4 + l) =~= bytes@.subrange(offset + 4, offset + 4 + l)); } } }
    let ghost vx_out = out@; let ghost vx_off = offset as int;
//@loopend 0
    proof { assert(out@.last()@ =~= bytes@.subrange(vx_off + 4, offset as int)); assert(vx_out =~= out@.drop_last()); assert forall|r: Seq<Seq<u8>>| #[trigger] (views(out@) + r) == views(vx_out) + (seq![out@.last()@] + r) by { assert(views(out@) + r =~= views(vx_out) + (seq![out@.last()@] + r)); } }
//@before `for _ in`
    proof { assert(bytes@.subrange(0, 4) =~= bytes@.take(4)); let p = parse(bytes@.skip(4), count as nat); if p is Some { assert(views(out@) + p->Some_0 =~= p->Some_0); } }
//@before `if out.is_empty()`
    proof { assert(bytes@.skip(offset as int).len() == 0); assert(views(out@) + Seq::<Seq<u8>>::empty() =~= views(out@)); }
//@endfn
proof fn lemma_parse_front(x: Seq<u8>, rest: Seq<u8>, n: nat) requires x.len() <= u32::MAX
    ensures parse(be32(x.len() as u32) + x + rest, n + 1) == (match parse(rest, n) { None => None, Some(r) => Some(seq![x] + r) })
{
    let b = be32(x.len() as u32) + x + rest; lemma_be32(x.len() as u32);
    assert(b.take(4) =~= be32(x.len() as u32)); assert(b.skip(4 + x.len() as int) =~= rest); assert(b.subrange(4, 4 + x.len() as int) =~= x);
}
proof fn lemma_parse_enc(s: Seq<Seq<u8>>, t: Seq<u8>, n: nat) requires fits(s)
    ensures parse(enc_parts(s) + t, (s.len() + n) as nat) == (match parse(t, n) { None => None, Some(r) => Some(s + r) }) decreases s.len()
{
    if s.len() == 0 { assert(enc_parts(s) + t =~= t); if parse(t, n) is Some { assert(s + parse(t, n)->Some_0 =~= parse(t, n)->Some_0); } }
    else {
        let u = be32(s.last().len() as u32) + s.last() + t;
        assert(enc_parts(s) + t =~= enc_parts(s.drop_last()) + u);
        assert(s[s.len() - 1].len() <= u32::MAX);
        assert(fits(s.drop_last())) by { assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).len() <= u32::MAX by { assert(s[i].len() <= u32::MAX); } }
        lemma_parse_enc(s.drop_last(), u, n + 1); lemma_parse_front(s.last(), t, n);
        if parse(t, n) is Some { assert(s.drop_last() + (seq![s.last()] + parse(t, n)->Some_0) =~= s + parse(t, n)->Some_0); }
    }
}
// a token decodes to exactly what was encoded
proof fn theorem_token_roundtrip(s: Seq<Seq<u8>>) requires fits(s), s.len() > 0 ensures read(b64(enc(s))) == Some(Some(s))
{
    ax_b64(enc(s)); lemma_be32(s.len() as u32);
    assert(enc(s).take(4) =~= be32(s.len() as u32)); assert(enc(s).skip(4) =~= enc_parts(s));
    lemma_parse_enc(s, Seq::empty(), 0); assert(enc_parts(s) + Seq::<u8>::empty() =~= enc_parts(s)); assert(s + Seq::<Seq<u8>>::empty() =~= s);
}
} // verus!
fn main() {}
