// Channel URIs.  Shared by C07 and C41.
pub struct ParseError { pub k: u8 }
// an Ethereum address and its checksummed form, a 256-bit number and its big-endian bytes (alloy, trusted)
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Address { pub b: [u8; 20] }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Address { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Address) -> bool { *self == *o } }
#[derive(Clone, Copy)]
pub struct U256 { pub l: [u64; 4] }
pub uninterp spec fn checksum(a: Address) -> Seq<char>;
pub uninterp spec fn num(u: U256) -> nat;
pub uninterp spec fn of_bytes(b: Seq<u8>) -> U256;
pub uninterp spec fn bytes_of(u: U256) -> Seq<u8>;
impl Address {
    // accepts exactly the checksummed forms
    #[verifier::external_body] pub fn parse_checksummed(s: &str, chain: Option<u64>) -> (r: Result<Address, ParseError>)
        ensures chain is None ==> (r matches Ok(a) ==> checksum(a) == s@), chain is None ==> (r is Err ==> forall|a: Address| #[trigger] checksum(a) != s@) { unimplemented!() }
    #[verifier::external_body] pub fn to_checksum(&self, chain: Option<u64>) -> (r: String) ensures chain is None ==> r@ == checksum(*self) { unimplemented!() }
}
impl U256 {
    // some texts other than the decimal form are accepted too; the decimal form of a 256-bit number always is
    #[verifier::external_body] pub fn from_str_radix(s: &str, radix: u64) -> (r: Result<U256, ParseError>)
        ensures radix == 10 ==> (forall|u: U256| dec(#[trigger] num(u)) == s@ ==> r == Ok::<U256, ParseError>(u)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_be_bytes(&self) -> (r: [u8; 32]) ensures r@ == bytes_of(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_U256_from_be_bytes(b: [u8; 32]) -> (r: U256) ensures r == of_bytes(b@) { unimplemented!() }
impl VxDisp for U256 { open spec fn shown(&self) -> Seq<char> { dec(num(*self)) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
pub broadcast axiom fn ax_bytes(u: U256) ensures of_bytes(#[trigger] bytes_of(u)) == u, bytes_of(u).len() == 32;
pub broadcast axiom fn ax_of_bytes(b: Seq<u8>) requires b.len() == 32 ensures bytes_of(#[trigger] of_bytes(b)) == b;
// decimal digits and checksummed addresses: plain ASCII without the mark, of bounded length
pub broadcast axiom fn ax_dec(n: nat) ensures !has_char(#[trigger] dec(n), '/'), blen(dec(n)) == dec(n).len();
pub broadcast axiom fn ax_dec_u256(u: U256) ensures (#[trigger] dec(num(u))).len() <= 78;
pub broadcast axiom fn ax_dec_u64(n: u64) ensures (#[trigger] dec(n as nat)).len() <= 20;
pub axiom fn ax_dec_one(a: nat, b: nat) requires dec(a) == dec(b) ensures a == b;
pub axiom fn ax_num_one(a: U256, b: U256) requires num(a) == num(b) ensures a == b;
pub broadcast axiom fn ax_checksum(a: Address) ensures !has_char(#[trigger] checksum(a), '/'), checksum(a).len() == 42, blen(checksum(a)) == 42;
pub axiom fn ax_checksum_one(a: Address, b: Address) requires checksum(a) == checksum(b) ensures a == b;
// str::split, strip_prefix, parse (trusted)
pub struct VxSplit<'a> { v: Vec<&'a str>, n: usize }
impl<'a> VxSplit<'a> {
    pub uninterp spec fn left(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> (r matches Some(x) && x@ == old(self).left()[0] && final(self).left() == old(self).left().drop_first()) { unimplemented!() }
}
pub open spec fn one(c: char) -> Seq<char> { seq![c] }
pub open spec fn no_prefix(s: Seq<char>, p: Seq<char>) -> bool { forall|x: Seq<char>| s != #[trigger] (p + x) }
pub trait VxPat { spec fn pat(&self) -> Seq<char>; }
impl VxPat for &str { open spec fn pat(&self) -> Seq<char> { self@ } }
impl VxPat for char { open spec fn pat(&self) -> Seq<char> { one(*self) } }
pub trait VxStr {
    spec fn t(&self) -> Seq<char>;
    fn vx_split<'a>(&'a self, c: char) -> (r: VxSplit<'a>)
        ensures joined(r.left(), c) == self.t(), r.left().len() >= 1, forall|i: int| 0 <= i < r.left().len() ==> !has_char(#[trigger] r.left()[i], c);
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures r matches Some(x) ==> self.t() == p.pat() + x@, r is None ==> no_prefix(self.t(), p.pat());
    // any text may be refused or accepted except that the decimal form of a number is accepted as that number
    fn vx_parse_u64(&self) -> (r: Result<u64, ParseError>) ensures forall|n: u64| #[trigger] dec(n as nat) == self.t() ==> r == Ok::<u64, ParseError>(n);
    fn vx_len(&self) -> (r: usize) ensures r == blen(self.t());
}
impl VxStr for str {
    open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: VxSplit<'a>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u64(&self) -> (r: Result<u64, ParseError>) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
}
pub fn vx_same_text<T: VxDisp>(n: T, s: &str) -> (r: bool) ensures r == (n.shown() == s@) { vx_text_eq(n.vx_disp(), s) }
#[verifier::external_body] pub fn vx_text_eq(a: String, s: &str) -> (r: bool) ensures r == (a@ == s@) { unimplemented!() }

//@item src/core/channel_uri.rs::EIP155_NAMESPACE
//@item src/core/channel_uri.rs::ERC721_NAMESPACE
//@item src/core/channel_uri.rs::MAX_URI_LENGTH
//@item src/core/channel_uri.rs::MAX_TOKEN_ID_DIGITS
//@item src/core/channel_uri.rs::ChannelUriError
//@item src/core/channel_uri.rs::ChannelRegistrar
//@item src/core/channel_uri.rs::ChannelAssetId
pub open spec fn canon3(chain: Seq<char>, address: Seq<char>, token: Seq<char>) -> Seq<char> {
    seq!['e', 'i', 'p', '1', '5', '5', ':'] + chain + seq!['/', 'e', 'r', 'c', '7', '2', '1', ':'] + address + seq!['/'] + token
}
pub open spec fn canon(a: ChannelAssetId) -> Seq<char> { canon3(dec(a.chain_id as nat), checksum(a.contract), dec(num(of_bytes(a.channel_id@)))) }
pub open spec fn eip() -> Seq<char> { seq!['e', 'i', 'p', '1', '5', '5'] }
pub open spec fn erc() -> Seq<char> { seq!['e', 'r', 'c', '7', '2', '1'] }
pub proof fn lemma_free(h: Seq<char>, t: Seq<char>) requires !has_char(t, '/'), h == eip() || h == erc() ensures !has_char(h + (one(':') + t), '/')
{
    let s = h + (one(':') + t);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '/' by { if i >= 7 { assert(s[i] == t[i - 7]); } }
}
pub proof fn lemma_pieces(x: Seq<char>, y: Seq<char>, z: Seq<char>, p: Seq<Seq<char>>)
    requires joined(p, '/') == canon3(x, y, z), p.len() >= 1, forall|i: int| 0 <= i < p.len() ==> !has_char(#[trigger] p[i], '/'), !has_char(x, '/'), !has_char(y, '/'), !has_char(z, '/')
    ensures p.len() == 3, p[0] == eip() + (one(':') + x), p[1] == erc() + (one(':') + y), p[2] == z
{
    let (a, b) = (eip() + (one(':') + x), erc() + (one(':') + y));
    lemma_free(eip(), x); lemma_free(erc(), y);
    assert(canon3(x, y, z) =~= a + seq!['/'] + (b + seq!['/'] + z));
    lemma_split_more(p, a, b + seq!['/'] + z, '/');
    let q = p.drop_first();
    lemma_split_more(q, b, z, '/');
    lemma_split_last(q.drop_first(), z, '/');
}
pub proof fn lemma_joined3(p: Seq<Seq<char>>, x: Seq<char>, y: Seq<char>, z: Seq<char>)
    requires p.len() == 3, p[0] == eip() + (one(':') + x), p[1] == erc() + (one(':') + y), p[2] == z
    ensures joined(p, '/') == canon3(x, y, z)
{
    reveal_with_fuel(joined, 4);
    let q = p.drop_first(); assert(q[0] == p[1]); let t = q.drop_first(); assert(t[0] == p[2]);
    assert(joined(p, '/') =~= canon3(x, y, z));
}
// the canonical text is short
pub proof fn lemma_short(a: ChannelAssetId) ensures blen(canon(a)) <= 256
{
    broadcast use ax_dec, ax_dec_u256, ax_dec_u64, ax_checksum;
    let (x, y, z) = (dec(a.chain_id as nat), checksum(a.contract), dec(num(of_bytes(a.channel_id@))));
    let (h, m, t) = (seq!['e', 'i', 'p', '1', '5', '5', ':'], seq!['/', 'e', 'r', 'c', '7', '2', '1', ':'], seq!['/']);
    ax_blen_cat(h, x); ax_blen_cat(h + x, m); ax_blen_cat(h + x + m, y); ax_blen_cat(h + x + m + y, t); ax_blen_cat(h + x + m + y + t, z);
    ax_blen_lit(h); ax_blen_lit(m); ax_blen_lit(t);
}
// two assets never share a text
pub proof fn lemma_one(a: ChannelAssetId, b: ChannelAssetId) requires canon(a) == canon(b) ensures a.chain_id == b.chain_id && a.contract == b.contract && a.channel_id@ == b.channel_id@
{
    broadcast use ax_dec, ax_checksum, ax_of_bytes;
    let f = |a: ChannelAssetId| seq![eip() + (one(':') + dec(a.chain_id as nat)), erc() + (one(':') + checksum(a.contract)), dec(num(of_bytes(a.channel_id@)))];
    lemma_joined3(f(a), dec(a.chain_id as nat), checksum(a.contract), dec(num(of_bytes(a.channel_id@))));
    lemma_free(eip(), dec(a.chain_id as nat)); lemma_free(erc(), checksum(a.contract));
    assert forall|i: int| 0 <= i < f(a).len() implies !has_char(#[trigger] f(a)[i], '/') by {}
    lemma_pieces(dec(b.chain_id as nat), checksum(b.contract), dec(num(of_bytes(b.channel_id@))), f(a));
    lemma_cancel(eip(), one(':') + dec(a.chain_id as nat), one(':') + dec(b.chain_id as nat));
    lemma_cancel(one(':'), dec(a.chain_id as nat), dec(b.chain_id as nat));
    lemma_cancel(erc(), one(':') + checksum(a.contract), one(':') + checksum(b.contract));
    lemma_cancel(one(':'), checksum(a.contract), checksum(b.contract));
    ax_dec_one(a.chain_id as nat, b.chain_id as nat);
    ax_checksum_one(a.contract, b.contract);
    ax_dec_one(num(of_bytes(a.channel_id@)), num(of_bytes(b.channel_id@)));
    ax_num_one(of_bytes(a.channel_id@), of_bytes(b.channel_id@));
    assert(bytes_of(of_bytes(a.channel_id@)) == bytes_of(of_bytes(b.channel_id@)));
}
// reading what was rendered gives the same asset back
pub proof fn roundtrip(a: ChannelAssetId, r: Result<ChannelAssetId, ChannelUriError>)
    requires r matches Ok(b) ==> canon(b) == canon(a), r is Err ==> forall|b: ChannelAssetId| #[trigger] canon(b) != canon(a)
    ensures r matches Ok(b) && b.chain_id == a.chain_id && b.contract == a.contract && b.channel_id@ == a.channel_id@
{ if r is Ok { lemma_one(r->Ok_0, a); } else { assert(canon(a) == canon(a)); } }
impl ChannelAssetId {
//@fn src/core/channel_uri.rs::ChannelAssetId::parse -> r
    ensures r matches Ok(a) ==> canon(a) == uri@,
        r is Err ==> forall|a: ChannelAssetId| #[trigger] canon(a) != uri@
//@rw `.len()` => `.vx_len()`
//@rw `.split(` => `.vx_split(`
//@rw `.strip_prefix(` => `.vx_strip_prefix(`
//@rw `.parse()` => `.vx_parse_u64()`
//@rw `chain_id.to_string() != chain_reference` => `!vx_same_text(chain_id, chain_reference)`
//@rw `token.to_string() != token_id` => `!vx_same_text(token, token_id)`
//@closure 0 |rest: &str| -> (k: Option<&str>) ensures k matches Some(x) ==> rest@ == one(':') + x@, k is None ==> no_prefix(rest@, one(':'))
//@closure 1 |_vx: ParseError| -> (k: ChannelUriError)
//@closure 2 |rest: &str| -> (k: Option<&str>) ensures k matches Some(x) ==> rest@ == one(':') + x@, k is None ==> no_prefix(rest@, one(':'))
//@closure 3 |_vx: ParseError| -> (k: ChannelUriError)
//@closure 4 |_vx: ParseError| -> (k: ChannelUriError)
//@start
    proof {
        broadcast use ax_dec, ax_dec_u256, ax_dec_u64, ax_checksum, ax_bytes, ax_of_bytes;
        reveal_strlit("eip155"); reveal_strlit("erc721");
        assert(EIP155_NAMESPACE@ =~= eip()); assert(ERC721_NAMESPACE@ =~= erc());
        assert forall|a: ChannelAssetId| #[trigger] canon(a) == uri@ implies blen(uri@) <= 256 by { lemma_short(a); }
    }
//@after `let mut segments = uri.split('/');`
    let ghost p = segments.left();
    proof {
        assert forall|a: ChannelAssetId| #[trigger] canon(a) == uri@ implies p.len() == 3 && p[0] == eip() + (one(':') + dec(a.chain_id as nat)) && p[1] == erc() + (one(':') + checksum(a.contract)) && p[2] == dec(num(of_bytes(a.channel_id@))) by {
            broadcast use ax_dec, ax_checksum;
            lemma_pieces(dec(a.chain_id as nat), checksum(a.contract), dec(num(of_bytes(a.channel_id@))), p);
        }
        assert forall|a: ChannelAssetId, c: Seq<char>| #[trigger] canon(a) == uri@ && p[0] == #[trigger] (eip() + c) implies c == one(':') + dec(a.chain_id as nat) by { lemma_cancel(eip(), c, one(':') + dec(a.chain_id as nat)); }
        assert forall|a: ChannelAssetId, c: Seq<char>| #[trigger] canon(a) == uri@ && p[1] == #[trigger] (erc() + c) implies c == one(':') + checksum(a.contract) by { lemma_cancel(erc(), c, one(':') + checksum(a.contract)); }
        assert forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| p.len() == 3 && p[0] == eip() + (one(':') + x) && p[1] == erc() + (one(':') + y) && p[2] == z implies uri@ == #[trigger] canon3(x, y, z) by { lemma_joined3(p, x, y, z); }
        assert forall|a: Seq<char>, b: Seq<char>| #[trigger] (one(':') + a) == #[trigger] (one(':') + b) implies a == b by { lemma_cancel(one(':'), a, b); }
    }
//@endfn
//@fn src/core/channel_uri.rs::ChannelAssetId::canonical_string -> r
    ensures r@ == canon(*self)
//@format
//@start
    proof { reveal_strlit("eip155"); reveal_strlit("erc721"); reveal_strlit(":"); reveal_strlit("/"); assert(EIP155_NAMESPACE@ =~= eip()); assert(ERC721_NAMESPACE@ =~= erc()); }
//@endfn
//@fn src/core/channel_uri.rs::ChannelAssetId::for_channel -> r
    ensures r.chain_id == registrar.chain_id, r.contract == registrar.address, r.channel_id == channel_id
//@endfn
//@fn src/core/channel_uri.rs::ChannelAssetId::is_in -> r
    ensures r == (self.chain_id == registrar.chain_id && self.contract == registrar.address)
//@endfn
}
//@fn src/core/channel_uri.rs::channel_id_for_follow_target -> r
    ensures r matches Some(id) ==> exists|a: ChannelAssetId| #[trigger] canon(a) == target_url@ && a.chain_id == registrar.chain_id && a.contract == registrar.address && a.channel_id == id,
        r is None ==> forall|a: ChannelAssetId| a.chain_id == registrar.chain_id && a.contract == registrar.address ==> #[trigger] canon(a) != target_url@
//@rw `asset.is_in(registrar).then_some(asset.channel_id)` => `vx_then_some(asset.is_in(registrar), asset.channel_id)`
//@start
    proof { assert forall|a: ChannelAssetId, b: ChannelAssetId| #[trigger] canon(a) == #[trigger] canon(b) implies a.chain_id == b.chain_id && a.contract == b.contract by { lemma_one(a, b); } }
//@endfn
#[verifier::external_body] pub fn vx_then_some<T>(b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None }) { unimplemented!() }
