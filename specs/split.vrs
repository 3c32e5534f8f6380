// Texts taken apart at a character
pub open spec fn has_char(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c }
pub open spec fn joined(p: Seq<Seq<char>>, c: char) -> Seq<char> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { p[0] + seq![c] + joined(p.drop_first(), c) }
}
// ASCII texts take one byte for each character, in concatenation too
pub proof fn ax_blen_cat(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) decreases a.len() {
    reveal_with_fuel(encode_utf8, 2);
    if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b).drop_first() =~= a.drop_first() + b); ax_blen_cat(a.drop_first(), b); }
}

pub proof fn ax_blen_lit(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 ensures blen(s) == s.len() decreases s.len() {
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 { let t = s.drop_first(); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 128 by { assert(t[i] == s[i + 1]); } ax_blen_lit(t); assert((s[0] as u32) < 128); }
}
pub proof fn lemma_cancel(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires a + b == a + c ensures b == c {
    assert(b =~= (a + b).skip(a.len() as int)); assert(c =~= (a + c).skip(a.len() as int));
}
// a text has only one split
pub proof fn lemma_split_more(p: Seq<Seq<char>>, a: Seq<char>, rest: Seq<char>, c: char)
    requires joined(p, c) == a + seq![c] + rest, !has_char(a, c), p.len() >= 1, forall|i: int| 0 <= i < p.len() ==> !has_char(#[trigger] p[i], c)
    ensures p.len() >= 2, p[0] == a, joined(p.drop_first(), c) == rest, forall|i: int| 0 <= i < p.drop_first().len() ==> !has_char(#[trigger] p.drop_first()[i], c)
{
    let s = a + seq![c] + rest;
    assert(s[a.len() as int] == c);
    if p.len() == 1 { assert(has_char(p[0], c)); }
    else {
        let q = joined(p.drop_first(), c);
        assert(s == p[0] + seq![c] + q);
        assert(s[p[0].len() as int] == c);
        if p[0].len() < a.len() { assert(a[p[0].len() as int] == c); }
        if p[0].len() > a.len() { assert(p[0][a.len() as int] == c); }
        assert(p[0] =~= s.take(a.len() as int)); assert(a =~= s.take(a.len() as int));
        assert(q =~= s.skip(a.len() as int + 1)); assert(rest =~= s.skip(a.len() as int + 1));
        assert forall|i: int| 0 <= i < p.drop_first().len() implies !has_char(#[trigger] p.drop_first()[i], c) by { assert(p.drop_first()[i] == p[i + 1]); }
    }
}
pub proof fn lemma_split_last(p: Seq<Seq<char>>, a: Seq<char>, c: char)
    requires joined(p, c) == a, !has_char(a, c), p.len() >= 1 ensures p.len() == 1, p[0] == a
{
    if p.len() > 1 { let s = p[0] + seq![c] + joined(p.drop_first(), c); assert(s[p[0].len() as int] == c); }
}
