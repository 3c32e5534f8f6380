//@include prelude.vrs
global size_of usize == 8;
//@include strings.vrs
//@include status.vrs
//@include maps.vrs
// tonic's request and its metadata: a header is absent, unreadable or text (opaque)
pub enum VxHeader { Absent, Unreadable, Text(Seq<char>) }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Request<T> { t: T }
#[verifier::external_body] pub struct MetadataMap { x: u8 }
#[verifier::external_body] pub struct MetadataValue { x: u8 }
impl MetadataMap { pub uninterp spec fn header(&self, k: Seq<char>) -> VxHeader;
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&MetadataValue>) ensures r is None <==> self.header(k@) is Absent, r is Some ==> r->Some_0.value() == self.header(k@) { unimplemented!() } }
impl MetadataValue { pub uninterp spec fn value(&self) -> VxHeader;
    #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str, ()>) ensures r is Ok <==> self.value() is Text, r is Ok ==> r->Ok_0@ == self.value()->Text_0 { unimplemented!() } }
impl<T> Request<T> { pub uninterp spec fn meta(&self) -> MetadataMap; #[verifier::external_body] pub fn metadata(&self) -> (r: &MetadataMap) ensures *r == self.meta() { unimplemented!() } }
// str::split_whitespace (opaque), base64 (opaque), UTF-8
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] pub fn vx_words<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures texts(r@) == words(s@) { unimplemented!() }
pub uninterp spec fn unbase64(s: Seq<char>) -> Option<Seq<u8>>;
#[verifier::external_body] pub fn vx_unbase64(s: &str) -> (r: Result<Vec<u8>, ()>) ensures r is Ok <==> unbase64(s@) is Some, r is Ok ==> r->Ok_0@ == unbase64(s@)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_from_utf8(b: Vec<u8>) -> (r: Result<String, ()>) ensures r is Ok <==> exists|s: Seq<char>| encode_utf8(s) == b@, r is Ok ==> encode_utf8(r->Ok_0@) == b@ { unimplemented!() }
// str::split on one character: the texts between its occurrences
pub open spec fn at(s: Seq<char>, c: char, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { s.len() as int } else if s[i] == c { i } else { at(s, c, i + 1) } }
proof fn lemma_at(s: Seq<char>, c: char, i: int)
    requires 0 <= i <= s.len()
    ensures i <= at(s, c, i) <= s.len(), at(s, c, i) < s.len() ==> s[at(s, c, i)] == c, forall|j: int| i <= j < at(s, c, i) ==> s[j] != c
    decreases s.len() - i
{ if i < s.len() && s[i] != c { lemma_at(s, c, i + 1); } }
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    let k = at(s, c, 0);
    if k < 0 || k >= s.len() { seq![s] } else { seq![s.take(k)] + pieces(s.skip(k + 1), c) }
}
#[verifier::external_body] pub fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures texts(r@) == pieces(s@, c) { unimplemented!() }
proof fn lemma_pieces_len(s: Seq<char>, c: char) ensures pieces(s, c).len() >= 1 decreases s.len() { let k = at(s, c, 0); lemma_at(s, c, 0); if k < s.len() { lemma_pieces_len(s.skip(k + 1), c); } }
pub open spec fn free(s: Seq<char>, c: char) -> bool { forall|j: int| 0 <= j < s.len() ==> s[j] != c }
// exactly two pieces: the text is one piece, the separator, the other piece
proof fn lemma_two(s: Seq<char>, a: Seq<char>, b: Seq<char>, c: char)
    ensures pieces(s, c) == seq![a, b] <==> s == a + seq![c] + b && free(a, c) && free(b, c)
{
    let k = at(s, c, 0); lemma_at(s, c, 0);
    if pieces(s, c) == seq![a, b] {
        assert(pieces(s, c).len() == 2);
        assert(k < s.len());
        let t = s.skip(k + 1); let l = at(t, c, 0); lemma_at(t, c, 0);
        assert(pieces(s, c) == seq![s.take(k)] + pieces(t, c));
        assert(pieces(s, c)[0] == s.take(k));
        assert(pieces(s, c)[1] == pieces(t, c)[0]);
        lemma_pieces_len(t, c); if l < t.len() { lemma_pieces_len(t.skip(l + 1), c); assert(pieces(t, c).len() >= 2); }
        assert(pieces(t, c) == seq![t]);
        assert(s =~= a + seq![c] + b);
    }
    if s == a + seq![c] + b && free(a, c) && free(b, c) {
        assert(s[a.len() as int] == c);
        assert forall|j: int| 0 <= j < a.len() implies s[j] != c by { assert(s[j] == a[j]); }
        assert(k == a.len());
        let t = s.skip(k + 1); assert(t =~= b); lemma_at(t, c, 0);
        assert(pieces(t, c) == seq![t]);
        assert(s.take(k) =~= a);
        assert(pieces(s, c) =~= seq![a, b]);
    }
}
#[verifier::external_body] pub fn vx_lookup<'a>(m: &'a HashMap<String, String>, k: &str) -> (r: Option<&'a String>)
    ensures r == (if m@.contains_key(k@) { Some(&m@[k@]) } else { None }) { unimplemented!() }
proof fn lemma_same_text(a: Seq<char>, b: Seq<char>) requires encode_utf8(a) == encode_utf8(b) ensures a == b { encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
// the header names a listed user with that user's password
pub open spec fn credentials(h: Seq<char>, users: Map<Seq<char>, String>) -> bool {
    exists|u: Seq<char>| users.contains_key(u) && presents(h, u, (#[trigger] users[u])@)
}
pub open spec fn presents(h: Seq<char>, u: Seq<char>, p: Seq<char>) -> bool {
    words(h).len() == 2 && words(h)[0] == "Basic"@ && unbase64(words(h)[1]) is Some && free(u, ':') && free(p, ':') && unbase64(words(h)[1])->Some_0 == encode_utf8(u + seq![':'] + p)
}
//@fn src/network/rpc_extensions.rs::authenticate_request -> r
    ensures
        allowed_users@ == Map::<Seq<char>, String>::empty() ==> r is Ok,
        allowed_users@ != Map::<Seq<char>, String>::empty() ==> (r is Ok <==> request.meta().header("authorization"@) is Text && credentials(request.meta().header("authorization"@)->Text_0, allowed_users@)),
        r is Err ==> r->Err_0.code == Code::Unauthenticated,
//@rw `auth.split_whitespace().collect()` => `vx_words(auth)`
//@rw `base64::engine::general_purpose::STANDARD.decode(parts[1])` => `vx_unbase64(parts[1])`
//@rw `String::from_utf8(decoded)` => `vx_from_utf8(decoded)`
//@rw `decoded.split(":").collect()` => `vx_split(decoded.as_str(), ':')`
//@rw `allowed_users.get(parts[0])` => `vx_lookup(allowed_users, parts[0])`
//@rw `password == parts[1]` => `password.as_str() == parts[1]`
//@closure 0 |vx_e: ()| -> (o: Status)
    ensures o.code == Code::Unauthenticated
//@closure 1 |vx_e: ()| -> (o: Status)
    ensures o.code == Code::Unauthenticated
//@closure 2 |vx_e: ()| -> (o: Status)
    ensures o.code == Code::Unauthenticated
//@before 1 `if parts.len() != 2`
    proof {
        let h = auth@; let d = decoded@;
        assert forall|u: Seq<char>, p: Seq<char>| #[trigger] presents(h, u, p) implies pieces(d, ':') == seq![u, p] by { lemma_two(d, u, p, ':'); lemma_same_text(d, u + seq![':'] + p); }
        assert(texts(parts@) == pieces(d, ':'));
        if parts@.len() == 2 {
            assert(parts@[0]@ == texts(parts@)[0] && parts@[1]@ == texts(parts@)[1]);
            assert(pieces(d, ':') =~= seq![parts@[0]@, parts@[1]@]); lemma_two(d, parts@[0]@, parts@[1]@, ':');
            assert(presents(h, parts@[0]@, parts@[1]@));
            assert forall|u: Seq<char>, p: Seq<char>| #[trigger] presents(h, u, p) implies u == parts@[0]@ && p == parts@[1]@ by { assert(seq![u, p][0] == parts@[0]@); assert(seq![u, p][1] == parts@[1]@); }
        } else { assert forall|u: Seq<char>, p: Seq<char>| !#[trigger] presents(h, u, p) by { if presents(h, u, p) { assert(pieces(d, ':').len() == 2); } } }
    }
//@endfn
} // verus!
fn main() {}
