// Profile values and usernames are accepted exactly when they obey the grammar of their kind.
//@include prelude.vrs
//@include errors.vrs
global size_of usize == 8;
//@include strings.vrs
//@include split.vrs
//@include version.vrs
//@proto UserDataBody UserDataType
use proto::{UserDataBody, UserDataType};
//@item src/core/validations/error.rs::ValidationError
#[verifier::external] impl std::fmt::Debug for ValidationError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
// ---- grammar
pub open spec fn lower(c: char) -> bool { 'a' <= c <= 'z' }
pub open spec fn upper(c: char) -> bool { 'A' <= c <= 'Z' }
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn alnum(c: char) -> bool { lower(c) || upper(c) || digit(c) }
pub open spec fn label_char(c: char) -> bool { lower(c) || digit(c) || c == '-' }
pub open spec fn label(s: Seq<char>) -> bool { 1 <= s.len() <= 16 && s[0] != '-' && forall|i: int| 0 <= i < s.len() ==> label_char(#[trigger] s[i]) }
pub open spec fn ok_ens(s: Seq<char>) -> bool { exists|l: Seq<char>| label(l) && s == #[trigger] (l + ".eth"@) }
pub open spec fn ok_base(s: Seq<char>) -> bool { exists|l: Seq<char>| label(l) && s == #[trigger] (l + ".base.eth"@) }
pub open spec fn ok_twitter(s: Seq<char>) -> bool { s.len() <= 15 && forall|i: int| 0 <= i < s.len() ==> lower(#[trigger] s[i]) || digit(s[i]) || s[i] == '_' }
pub open spec fn hyphened(s: Seq<char>) -> bool { s.len() >= 1 && s[0] != '-' && (forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) || s[i] == '-') && (forall|i: int| 0 <= i < s.len() - 1 && #[trigger] s[i] == '-' ==> s[i + 1] != '-') }
pub open spec fn ok_github(s: Seq<char>) -> bool { s.len() <= 38 && hyphened(s) }
// a signed number of 1 to k digits with two decimals; the digits may first be those of any script
pub uninterp spec fn any_digit(c: char) -> bool;
pub open spec fn unsigned(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '-' { s.skip(1) } else { s } }
pub open spec fn coord_u(s: Seq<char>, k: int) -> bool { let t = unsigned(s); 4 <= t.len() <= k + 3 && t[t.len() - 3] == '.' && forall|i: int| 0 <= i < t.len() && i != t.len() - 3 ==> any_digit(#[trigger] t[i]) }
pub open spec fn coord(s: Seq<char>, k: int) -> bool { let t = unsigned(s); 4 <= t.len() <= k + 3 && t[t.len() - 3] == '.' && forall|i: int| 0 <= i < t.len() && i != t.len() - 3 ==> digit(#[trigger] t[i]) }
pub axiom fn ax_digits() ensures forall|c: char| #[trigger] digit(c) ==> any_digit(c), !any_digit(','), !any_digit('.'), !any_digit('-');
pub open spec fn value(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { value(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
// in hundredths
pub open spec fn hundredths(s: Seq<char>) -> int { let t = unsigned(s); let v = value(t.take(t.len() - 3) + t.skip(t.len() - 2)); if s[0] == '-' { -v } else { v } }
pub open spec fn place(lat: Seq<char>, long: Seq<char>) -> Seq<char> { "geo:"@ + lat + ","@ + long }
pub open spec fn ok_place(s: Seq<char>) -> bool { exists|lat: Seq<char>, long: Seq<char>| s == #[trigger] place(lat, long) && coord(lat, 2) && coord(long, 3) && -9000 <= hundredths(lat) <= 9000 && -18000 <= hundredths(long) <= 18000 }
// profile tokens: chain/asset[/token]
pub open spec fn run_of(s: Seq<char>, lo: int, hi: int, f: spec_fn(char) -> bool) -> bool { lo <= s.len() && (hi == 0 || s.len() <= hi) && forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) }
pub open spec fn chain_part(x: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| x == #[trigger] (a + seq![':'] + b) && run_of(a, 1, 0, |c: char| lower(c) || digit(c)) && run_of(b, 1, 0, |c: char| alnum(c)) }
pub open spec fn asset_part(x: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| x == #[trigger] (a + seq![':'] + b) && run_of(a, 3, 8, |c: char| label_char(c)) && run_of(b, 1, 128, |c: char| alnum(c) || c == '-' || c == '.' || c == '%') }
pub open spec fn token_part(x: Seq<char>) -> bool { run_of(x, 1, 0, |c: char| alnum(c)) }
pub open spec fn caip(s: Seq<char>) -> bool {
    (exists|x: Seq<char>, y: Seq<char>| s == #[trigger] (x + seq!['/'] + y) && chain_part(x) && asset_part(y))
    || (exists|x: Seq<char>, y: Seq<char>, z: Seq<char>| s == #[trigger] (x + seq!['/'] + (y + seq!['/'] + z)) && chain_part(x) && asset_part(y) && token_part(z))
}
// ---- regular expressions (fancy_regex, trusted: each of these texts denotes the language beside it)
pub struct ReError { pub k: u8 }
#[verifier::external] impl std::fmt::Debug for ReError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
#[verifier::external_body] pub struct Regex { k: u8 }
pub uninterp spec fn lang(re: Seq<char>, s: Seq<char>) -> bool;
pub uninterp spec fn well_written(re: Seq<char>) -> bool;
pub struct Captures { pub lat: String, pub long: String }
pub struct Match<'a> { pub t: &'a str }
impl<'a> Match<'a> { pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.t@ { self.t } }
impl Captures { #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<Match<'_>>) ensures i == 1 ==> (r matches Some(m) && m.t@ == self.lat@), i == 2 ==> (r matches Some(m) && m.t@ == self.long@) { unimplemented!() } }
impl Regex {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(t: &str) -> (r: Result<Regex, ReError>) ensures well_written(t@) ==> r is Ok, r is Ok ==> r->Ok_0.text() == t@ { unimplemented!() }
    #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: Result<bool, ReError>) ensures r == Ok::<bool, ReError>(lang(self.text(), s@)) { unimplemented!() }
    #[verifier::external_body] pub fn captures(&self, s: &str) -> (r: Result<Option<Captures>, ReError>)
        ensures r is Ok, self.text() == "^geo:(-?\\d{1,2}\\.\\d{2}),(-?\\d{1,3}\\.\\d{2})$"@ ==> match r->Ok_0 {
            None => forall|lat: Seq<char>, long: Seq<char>| s@ == #[trigger] place(lat, long) ==> !(coord_u(lat, 2) && coord_u(long, 3)),
            Some(c) => s@ == place(c.lat@, c.long@) && coord_u(c.lat@, 2) && coord_u(c.long@, 3) } { unimplemented!() }
}
pub broadcast axiom fn ax_label(s: Seq<char>) ensures #[trigger] lang("^[a-z0-9][a-z0-9-]{0,15}$"@, s) == label(s);
pub broadcast axiom fn ax_twitter(s: Seq<char>) ensures #[trigger] lang("^[a-z0-9_]{0,15}$"@, s) == ok_twitter(s);
pub broadcast axiom fn ax_github(s: Seq<char>) ensures #[trigger] lang("^[a-zA-Z0-9](?:[a-zA-Z0-9]|-(?!-)){0,38}$"@, s) == (hyphened(s) && s.len() <= 39);
pub broadcast axiom fn ax_caip(s: Seq<char>) ensures #[trigger] lang("^[a-z0-9]+:[a-zA-Z0-9]+/[a-z0-9-]{3,8}:[-.%a-zA-Z0-9]{1,128}(/[a-zA-Z0-9]+)?$"@, s) == caip(s);
pub axiom fn ax_caip_text() ensures well_written("^[a-z0-9]+:[a-zA-Z0-9]+/[a-z0-9-]{3,8}:[-.%a-zA-Z0-9]{1,128}(/[a-zA-Z0-9]+)?$"@);
pub axiom fn ax_geo_text() ensures well_written("^geo:(-?\\d{1,2}\\.\\d{2}),(-?\\d{1,3}\\.\\d{2})$"@);
//@item src/core/validations/message.rs::FNAME_REGEX
//@item src/core/validations/message.rs::TWITTER_USERNAME_REGEX
//@item src/core/validations/message.rs::GITHUB_USERNAME_REGEX
//@regex src/core/validations/message.rs::FNAME_RE
//@regex src/core/validations/message.rs::TWITTER_USERNAME_RE
//@regex src/core/validations/message.rs::GITHUB_USERNAME_RE
//@regex src/core/validations/message.rs::GEO_RE
// ---- text operations (standard library, trusted)
#[verifier::external_body] pub fn vx_dup(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn ends(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.skip(s.len() - t.len()) =~= t }
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.take(t.len() as int) =~= t }
pub trait VxText { spec fn t(&self) -> Seq<char>;
    fn vx_ends(&self, x: &'static str) -> (r: bool) ensures r == ends(self.t(), x@);
    fn vx_starts(&self, x: &'static str) -> (r: bool) ensures r == starts(self.t(), x@);
    fn vx_len(&self) -> (r: usize) ensures r == blen(self.t());
    fn vx_empty(&self) -> (r: bool) ensures r == (self.t().len() == 0);
    fn vx_pieces(&self, c: char) -> (r: Vec<&str>) ensures joined(texts(r@), c) == self.t(), r@.len() >= 1, forall|i: int| 0 <= i < r@.len() ==> !has_char(#[trigger] texts(r@)[i], c);
    fn vx_find(&self, c: char) -> (r: Option<usize>)
        ensures (r is None) == !has_char(self.t(), c), r is Some ==> 0 <= first(self.t(), c) < self.t().len() && self.t()[first(self.t(), c)] == c && r->Some_0 == blen(self.t().take(first(self.t(), c)));
    fn vx_from(&self, at: usize) -> (r: &str) requires exists|i: int| 0 <= i <= self.t().len() && blen(#[trigger] self.t().take(i)) == at
        ensures forall|i: int| 0 <= i <= self.t().len() && blen(#[trigger] self.t().take(i)) == at ==> r@ == self.t().skip(i);
}
pub open spec fn first(s: Seq<char>, c: char) -> int { choose|i: int| 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> s[j] != c }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
impl VxText for String { open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_ends(&self, x: &'static str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_starts(&self, x: &'static str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_pieces(&self, c: char) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, at: usize) -> (r: &str) { unimplemented!() }
}
impl VxText for str { open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_ends(&self, x: &'static str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_starts(&self, x: &'static str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_pieces(&self, c: char) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, at: usize) -> (r: &str) { unimplemented!() }
}
// a text split at a mark: two or three pieces
pub fn vx_split_all<'a, T: VxText>(s: &'a T, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() >= 1,
        r@.len() == 2 ==> s.t() == r@[0]@ + seq![c] + r@[1]@ && !has_char(r@[0]@, c) && !has_char(r@[1]@, c),
        r@.len() == 3 ==> s.t() == r@[0]@ + seq![c] + (r@[1]@ + seq![c] + r@[2]@) && !has_char(r@[0]@, c) && !has_char(r@[1]@, c) && !has_char(r@[2]@, c),
        forall|x: Seq<char>, y: Seq<char>| s.t() == #[trigger] (x + seq![c] + y) && !has_char(x, c) && !has_char(y, c) ==> r@.len() == 2 && r@[0]@ == x && r@[1]@ == y,
        forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| s.t() == #[trigger] (x + seq![c] + (y + seq![c] + z)) && !has_char(x, c) && !has_char(y, c) && !has_char(z, c) ==> r@.len() == 3 && r@[0]@ == x && r@[1]@ == y && r@[2]@ == z
{
    let r = s.vx_pieces(c);
    proof {
        let p = texts(r@);
        reveal_with_fuel(joined, 4);
        assert forall|i: int| 0 <= i < r@.len() implies #[trigger] r@[i]@ == p[i] && !has_char(p[i], c) by {}
        if p.len() == 2 { assert(p.drop_first()[0] == p[1]); }
        if p.len() == 3 { let q = p.drop_first(); assert(q[0] == p[1]); assert(q.drop_first()[0] == p[2]); }
        assert forall|x: Seq<char>, y: Seq<char>| s.t() == #[trigger] (x + seq![c] + y) && !has_char(x, c) && !has_char(y, c) implies r@.len() == 2 && r@[0]@ == x && r@[1]@ == y by {
            lemma_split_more(p, x, y, c); lemma_split_last(p.drop_first(), y, c); assert(p.drop_first()[0] == p[1]);
        }
        assert forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| s.t() == #[trigger] (x + seq![c] + (y + seq![c] + z)) && !has_char(x, c) && !has_char(y, c) && !has_char(z, c) implies r@.len() == 3 && r@[0]@ == x && r@[1]@ == y && r@[2]@ == z by {
            let q = p.drop_first();
            lemma_split_more(p, x, y + seq![c] + z, c); lemma_split_more(q, y, z, c); lemma_split_last(q.drop_first(), z, c); assert(q[0] == p[1]); assert(q.drop_first()[0] == p[2]);
        }
    }
    r
}
pub proof fn lemma_ascii(s: Seq<char>) ensures label(s) ==> blen(s) == s.len(), ok_twitter(s) ==> blen(s) == s.len(), hyphened(s) ==> blen(s) == s.len(), label(s) ==> !has_char(s, '.')
{
    if label(s) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 by { assert(label_char(s[i])); } ax_blen_lit(s); assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '.' by { assert(label_char(s[i])); } }
    if ok_twitter(s) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 by {} ax_blen_lit(s); }
    if hyphened(s) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 by {} ax_blen_lit(s); }
}
//@fn src/core/validations/message.rs::validate_fname -> r
    ensures r is Ok <==> label(input@)
//@rw `FNAME_RE` => `vx_FNAME_RE()`
//@rw `input.clone()` => `vx_dup(input)`
//@closure 0 |_vx: ReError| -> (k: ValidationError)
//@start
    proof { broadcast use ax_label, lemma_blen_zero; lemma_ascii(input@); }
//@endfn
pub open spec fn dot_eth(s: Seq<char>) -> bool { ends(s, ".eth"@) }
pub proof fn lemma_suffixes()
    ensures ".eth"@ =~= seq!['.', 'e', 't', 'h'], ".base.eth"@ =~= seq!['.', 'b', 'a', 's', 'e', '.', 'e', 't', 'h'], blen(".eth"@) == 4, blen(".base.eth"@) == 9
{ reveal_strlit(".eth"); reveal_strlit(".base.eth"); ax_blen_lit(".eth"@); ax_blen_lit(".base.eth"@); }
// an ENS name has exactly the two pieces of its label and its ending; a Basename three
pub open spec fn eth() -> Seq<char> { seq!['e', 't', 'h'] }
pub open spec fn bas() -> Seq<char> { seq!['b', 'a', 's', 'e'] }
pub proof fn lemma_ens(s: Seq<char>)
    ensures forall|l: Seq<char>| label(l) && s == #[trigger] (l + ".eth"@) ==> s == l + seq!['.'] + eth() && !has_char(l, '.') && ends(s, ".eth"@) && blen(s) <= 20,
        !has_char(eth(), '.'),
        forall|x: Seq<char>, y: Seq<char>| s == #[trigger] (x + seq!['.'] + y) && !has_char(x, '.') && !has_char(y, '.') && ends(s, ".eth"@) ==> s == x + ".eth"@
{
    lemma_suffixes();
    assert forall|l: Seq<char>| label(l) && s == #[trigger] (l + ".eth"@) implies s == l + seq!['.'] + eth() && !has_char(l, '.') && ends(s, ".eth"@) && blen(s) <= 20 by {
        assert(s =~= l + seq!['.'] + eth()); lemma_ascii(l); ax_blen_cat(l, ".eth"@);
    }
    assert forall|x: Seq<char>, y: Seq<char>| s == #[trigger] (x + seq!['.'] + y) && !has_char(x, '.') && !has_char(y, '.') && ends(s, ".eth"@) implies s == x + ".eth"@ by {
        let n = s.len() - 4;
        assert(s.skip(n)[0] == '.'); assert(s[n] == '.');
        if n < x.len() { assert(x[n] == '.'); } else if n > x.len() { assert(y[n - x.len() - 1] == '.'); }
        assert(s =~= s.take(n) + s.skip(n)); assert(s.take(n) =~= x);
    }
}
pub proof fn lemma_base(s: Seq<char>)
    ensures forall|l: Seq<char>| label(l) && s == #[trigger] (l + ".base.eth"@) ==> s == l + seq!['.'] + (bas() + seq!['.'] + eth()) && !has_char(l, '.') && ends(s, ".base.eth"@) && blen(s) <= 25,
        !has_char(eth(), '.'), !has_char(bas(), '.'),
        forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| s == #[trigger] (x + seq!['.'] + (y + seq!['.'] + z)) && !has_char(x, '.') && !has_char(y, '.') && !has_char(z, '.') && ends(s, ".base.eth"@) ==> s == x + ".base.eth"@
{
    lemma_suffixes();
    assert forall|l: Seq<char>| label(l) && s == #[trigger] (l + ".base.eth"@) implies s == l + seq!['.'] + (bas() + seq!['.'] + eth()) && !has_char(l, '.') && ends(s, ".base.eth"@) && blen(s) <= 25 by {
        assert(s =~= l + seq!['.'] + (bas() + seq!['.'] + eth())); lemma_ascii(l); ax_blen_cat(l, ".base.eth"@);
    }
    assert forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| s == #[trigger] (x + seq!['.'] + (y + seq!['.'] + z)) && !has_char(x, '.') && !has_char(y, '.') && !has_char(z, '.') && ends(s, ".base.eth"@) implies s == x + ".base.eth"@ by {
        let n = s.len() - 9;
        assert(s.skip(n)[0] == '.'); assert(s.skip(n)[5] == '.'); assert(s[n] == '.' && s[n + 5] == '.');
        let m = x.len() + 1 + y.len();
        assert(s[x.len() as int] == '.' && s[m as int] == '.');
        assert forall|i: int| 0 <= i < s.len() && i != x.len() && i != m implies s[i] != '.' by { if i < x.len() { assert(s[i] == x[i]); } else if i < m { assert(s[i] == y[i - x.len() - 1]); } else { assert(s[i] == z[i - m - 1]); } }
        assert(n == x.len());
        assert(s =~= s.take(n) + s.skip(n)); assert(s.take(n) =~= x);
    }
}
//@fn src/core/validations/message.rs::validate_ens_name -> r
    ensures r is Ok <==> ok_ens(input@)
//@rw `FNAME_RE` => `vx_FNAME_RE()`
//@rw `input.clone()` => `vx_dup(input)`
//@rw `.ends_with(` => `.vx_ends(`
//@rw `input.split('.').collect()` => `vx_split_all(input, '.')`
//@rw `.is_empty()` => `.vx_empty()`
//@closure 0 |_vx: ReError| -> (k: ValidationError)
//@start
    proof { broadcast use ax_label; lemma_ens(input@); }
//@endfn
//@fn src/core/validations/message.rs::validate_base_name -> r
    ensures r is Ok <==> ok_base(input@)
//@rw `FNAME_RE` => `vx_FNAME_RE()`
//@rw `input.clone()` => `vx_dup(input)`
//@rw `.ends_with(` => `.vx_ends(`
//@rw `input.split('.').collect()` => `vx_split_all(input, '.')`
//@rw `.is_empty()` => `.vx_empty()`
//@closure 0 |_vx: ReError| -> (k: ValidationError)
//@start
    proof { broadcast use ax_label; lemma_base(input@); }
//@endfn
//@fn src/core/validations/message.rs::validate_twitter_username -> r
    ensures r is Ok <==> ok_twitter(input@)
//@rw `TWITTER_USERNAME_RE` => `vx_TWITTER_USERNAME_RE()`
//@rw `input.clone()` => `vx_dup(input)`
//@closure 0 |_vx: ReError| -> (k: ValidationError)
//@start
    proof { broadcast use ax_twitter; lemma_ascii(input@); }
//@endfn
//@fn src/core/validations/message.rs::validate_github_username -> r
    ensures r is Ok <==> ok_github(input@)
//@rw `GITHUB_USERNAME_RE` => `vx_GITHUB_USERNAME_RE()`
//@rw `input.clone()` => `vx_dup(input)`
//@closure 0 |_vx: ReError| -> (k: ValidationError)
//@start
    proof { broadcast use ax_github; lemma_ascii(input@); }
//@endfn
// ---- locations: numbers as read by the standard library, in hundredths
pub struct NumError { pub k: u8 }
pub uninterp spec fn hundred(f: f64) -> int;
#[verifier::external_body] pub fn vx_number(s: &str) -> (r: Result<f64, NumError>) ensures coord_u(s@, 3) ==> (r is Ok) == coord(s@, 3), coord(s@, 3) ==> hundred(r->Ok_0) == hundredths(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_below(f: f64, n: i32) -> (r: bool) ensures r == (hundred(f) < 100 * n) { unimplemented!() }
#[verifier::external_body] pub fn vx_above(f: f64, n: i32) -> (r: bool) ensures r == (hundred(f) > 100 * n) { unimplemented!() }
pub open spec fn angle(s: Seq<char>, top: int) -> bool { coord(s, 3) && -100 * top <= hundredths(s) <= 100 * top }
//@fn src/core/validations/message.rs::validate_number -> r
    ensures coord_u(value@, 3) ==> (r is Ok) == coord(value@, 3), coord(value@, 3) ==> hundred(r->Ok_0) == hundredths(value@)
//@rw `value.parse::<f64>()` => `vx_number(value)`
//@closure 0 |_vx: NumError| -> (k: ValidationError)
//@start
    proof { ax_digits(); }
//@endfn
//@fn src/core/validations/message.rs::validate_latitude -> r
    ensures coord_u(value@, 3) ==> (r is Ok) == angle(value@, 90)
//@rw `number < -90.0` => `vx_below(number, -90)`
//@rw `number > 90.0` => `vx_above(number, 90)`
//@endfn
//@fn src/core/validations/message.rs::validate_longitude -> r
    ensures coord_u(value@, 3) ==> (r is Ok) == angle(value@, 180)
//@rw `number < -180.0` => `vx_below(number, -180)`
//@rw `number > 180.0` => `vx_above(number, 180)`
//@endfn
pub open spec fn g() -> Seq<char> { seq!['g', 'e', 'o', ':'] }
pub proof fn lemma_place(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
    requires place(a, b) == place(c, d), coord_u(a, 3), coord_u(b, 3), coord_u(c, 3), coord_u(d, 3) ensures a == c, b == d
{
    ax_digits();
    let (h, s) = ("geo:"@, place(a, b));
    reveal_strlit(",");
    assert(","@ =~= seq![',']);
    assert forall|x: Seq<char>| #[trigger] coord_u(x, 3) implies !has_char(x, ',') by {
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != ',' by { let t = unsigned(x); if x[0] == '-' { if i > 0 { assert(t[i - 1] == x[i]); } } }
    }
    let (n, m) = (h.len() + a.len(), h.len() + c.len());
    assert(s[n as int] == ','); assert(s[m as int] == ',');
    if n < m { assert(c[n - h.len()] == ','); } else if m < n { assert(a[m - h.len()] == ','); }
    assert(a =~= s.subrange(h.len() as int, n as int)); assert(c =~= s.subrange(h.len() as int, n as int));
    assert(b =~= s.skip(n as int + 1)); assert(d =~= s.skip(n as int + 1));
}
//@fn src/core/validations/message.rs::validate_user_location -> r
    ensures r is Ok <==> location@.len() == 0 || ok_place(location@)
//@rw `GEO_RE` => `vx_GEO_RE()`
//@rw `location.is_empty()` => `location.vx_empty()`
//@closure 0 |_vx: ReError| -> (k: ValidationError)
//@start
    proof {
        ax_digits();
        assert forall|lat: Seq<char>, long: Seq<char>| location@ == #[trigger] place(lat, long) && coord(lat, 2) && coord(long, 3) implies coord_u(lat, 2) && coord_u(long, 3) by {}
        assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| location@ == #[trigger] place(a, b) && location@ == #[trigger] place(c, d) && coord_u(a, 2) && coord_u(b, 3) && coord_u(c, 2) && coord_u(d, 3) implies a == c && b == d by { lemma_place(a, b, c, d); }
    }
//@endfn
// ---- addresses
#[derive(Clone, Copy)] pub struct Address { pub b: [u8; 20] }
pub struct HexError { pub k: u8 }
pub uninterp spec fn checksum(a: Address) -> Seq<char>;
pub axiom fn ax_checksum() ensures forall|a: Address| blen(#[trigger] checksum(a)) == 42 && checksum(a).len() == 42 && starts(checksum(a), "0x"@);
impl Address {
    #[verifier::external_body] pub fn from_hex(s: &String) -> (r: Result<Address, HexError>) ensures forall|a: Address| #[trigger] checksum(a) == s@ ==> r == Ok::<Address, HexError>(a) { unimplemented!() }
    #[verifier::external_body] pub fn to_checksum(&self, chain: Option<u64>) -> (r: String) ensures chain is None ==> r@ == checksum(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.b@ { unimplemented!() }
}
pub uninterp spec fn unb58(s: Seq<char>) -> Option<Seq<u8>>;
pub struct B58 { pub s: Ghost<Seq<char>> }
pub struct B58Error { pub k: u8 }
pub mod bs58 { use super::*; verus! {
#[verifier::external_body] pub fn decode(s: &String) -> (r: B58) ensures r.s@ == s@ { unimplemented!() }
} }
impl B58 { #[verifier::external_body] pub fn into_vec(self) -> (r: Result<Vec<u8>, B58Error>) ensures (r is Ok) == (unb58(self.s@) is Some), r is Ok ==> r->Ok_0@ == unb58(self.s@)->Some_0 { unimplemented!() } }
pub open spec fn ok_eth_text(s: Seq<char>) -> bool { s.len() == 0 || exists|a: Address| #[trigger] checksum(a) == s }
pub open spec fn ok_sol_text(s: Seq<char>) -> bool { s.len() == 0 || (unb58(s) matches Some(v) && v.len() == 32) }
pub mod verification { use super::*; verus! {
//@fn src/core/validations/verification.rs::validate_eth_address -> r
    ensures (r is Ok) == (address@.len() == 20)
//@endfn
//@fn src/core/validations/verification.rs::validate_sol_address -> r
    ensures (r is Ok) == (address@.len() == 32)
//@endfn
} }
#[verifier::external_body] pub fn vx_same_string(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@fn src/core/validations/message.rs::validate_user_data_primary_address_ethereum -> r
    ensures r is Ok <==> ok_eth_text(input@)
//@rw `.starts_with(` => `.vx_starts(`
//@rw `checksummed != *input` => `!vx_same_string(&checksummed, input)`
//@closure 0 |_vx: HexError| -> (k: ValidationError)
//@start
    proof { broadcast use lemma_blen_zero; ax_checksum(); }
//@endfn
//@fn src/core/validations/message.rs::validate_user_data_primary_address_solana -> r
    ensures r is Ok <==> ok_sol_text(input@)
//@closure 0 |_vx: B58Error| -> (k: ValidationError)
//@start
    proof { broadcast use lemma_blen_zero; }
//@endfn
// ---- profile tokens
pub open spec fn ok_token(s: Seq<char>) -> bool { s.len() == 0 || (caip(s) && blen(s) <= 256) }
//@fn src/core/validations/message.rs::validate_caip19_format -> r
    ensures r is Ok <==> ok_token(input@)
//@rw `input.split('/').collect()` => `vx_split_all(input, '/')`
//@rw `.find(` => `.vx_find(`
//@rw `&asset_part[colon_pos + 1..]` => `asset_part.vx_from(colon_pos + 1)`
//@rw `asset_reference.len()` => `asset_reference.vx_len()`
//@closure 0 |_vx: ReError| -> (k: ValidationError)
//@start
    proof { broadcast use ax_caip, lemma_blen_zero; ax_caip_text(); lemma_caip(input@); }
//@before 0 `let asset_reference`
    proof {
        let f = first(asset_part.t(), ':');
        let y = asset_part.t();
        assert(y.take(f + 1) =~= y.take(f) + seq![':']);
        ax_blen_cat(y.take(f), seq![':']);
        ax_blen_lit(seq![':']);
        assert(blen(y.take(f + 1)) == colon_pos + 1);
        assert(good_asset(y));
    }
//@endfn
pub proof fn lemma_caip(s: Seq<char>)
    ensures forall|x: Seq<char>, y: Seq<char>| s == #[trigger] (x + seq!['/'] + y) && chain_part(x) && asset_part(y) ==> !has_char(x, '/') && !has_char(y, '/') && good_asset(y),
        forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| s == #[trigger] (x + seq!['/'] + (y + seq!['/'] + z)) && chain_part(x) && asset_part(y) && token_part(z) ==> !has_char(x, '/') && !has_char(y, '/') && !has_char(z, '/') && good_asset(y)
{
    assert forall|x: Seq<char>| #[trigger] chain_part(x) implies !has_char(x, '/') by {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| x == #[trigger] (a + seq![':'] + b) && run_of(a, 1, 0, |c: char| lower(c) || digit(c)) && run_of(b, 1, 0, |c: char| alnum(c));
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != '/' by { if i < a.len() { assert(x[i] == a[i]); } else if i > a.len() { assert(x[i] == b[i - a.len() - 1]); } }
    }
    assert forall|y: Seq<char>| #[trigger] asset_part(y) implies !has_char(y, '/') && good_asset(y) by {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| y == #[trigger] (a + seq![':'] + b) && run_of(a, 3, 8, |c: char| label_char(c)) && run_of(b, 1, 128, |c: char| alnum(c) || c == '-' || c == '.' || c == '%');
        assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] != '/' && (y[i] as u32) < 128 by { if i < a.len() { assert(y[i] == a[i]); } else if i > a.len() { assert(y[i] == b[i - a.len() - 1]); } }
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i] as u32) < 128 by { assert(b[i] == y[i + a.len() + 1]); }
        ax_blen_lit(b);
        assert(y[a.len() as int] == ':');
        assert(has_char(y, ':'));
        lemma_first(y, ':', a.len() as int);
        let i = a.len() as int;
        assert forall|k: int| 0 <= k <= y.len() implies blen(#[trigger] y.take(k)) == k by { ax_blen_lit(y.take(k)); }
        assert(y.skip(i + 1) =~= b);
    }
    assert forall|z: Seq<char>| #[trigger] token_part(z) implies !has_char(z, '/') by {}
}
pub open spec fn good_asset(y: Seq<char>) -> bool { has_char(y, ':') && blen(y.skip(first(y, ':') + 1)) <= 128 && (forall|k: int| 0 <= k <= y.len() ==> blen(#[trigger] y.take(k)) == k) && y.len() <= 137 }
pub proof fn lemma_first(s: Seq<char>, c: char, n: int) requires 0 <= n < s.len(), s[n] == c, forall|j: int| 0 <= j < n ==> s[j] != c ensures first(s, c) == n
{ let i = first(s, c); if i < n { assert(s[i] != c); } else if n < i { assert(s[n] != c); } }
// ---- the kinds
pub open spec fn ok_username(s: Seq<char>) -> bool { s.len() == 0 || (if ends(s, ".base.eth"@) { ok_base(s) } else if ends(s, ".eth"@) { ok_ens(s) } else { label(s) }) }
pub open spec fn ok_profile(kind: i32, s: Seq<char>, pro: bool, v: EngineVersion) -> bool {
    UserDataType::of(kind) matches Ok(k) && match k {
        UserDataType::None => false,
        UserDataType::Pfp | UserDataType::Bio | UserDataType::Url => blen(s) <= 256,
        UserDataType::Display => blen(s) <= 32,
        UserDataType::Username => ok_username(s),
        UserDataType::Location => s.len() == 0 || ok_place(s),
        UserDataType::Twitter => ok_twitter(s),
        UserDataType::Github => ok_github(s),
        UserDataType::Banner => pro && blen(s) <= 256,
        UserDataType::UserDataPrimaryAddressEthereum => enabled(v, ProtocolFeature::PrimaryAddresses) && ok_eth_text(s),
        UserDataType::UserDataPrimaryAddressSolana => enabled(v, ProtocolFeature::PrimaryAddresses) && ok_sol_text(s),
        UserDataType::ProfileToken => enabled(v, ProtocolFeature::UserProfileToken) && ok_token(s),
        UserDataType::LiveAt => enabled(v, ProtocolFeature::LiveAt) && blen(s) <= 256,
    }
}
//@fn src/core/validations/message.rs::validate_user_data_add_body -> r
    ensures r is Ok <==> ok_profile(body.r#type, body.value@, is_pro_user, version)
//@rw `.ends_with(` => `.vx_ends(`
//@start
    proof { broadcast use lemma_blen_zero; }
//@endfn
} // verus!
fn main() {}
