use vstd::utf8::*;
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize) ensures r == encode_utf8(s@).len();
// length of a text in bytes
pub open spec fn blen(s: Seq<char>) -> nat { encode_utf8(s).len() }
pub broadcast proof fn lemma_blen_zero(s: Seq<char>) ensures #[trigger] encode_utf8(s).len() == 0 <==> s.len() == 0 {
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 { assert(encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.drop_first())); }
}
