//@include prelude.vrs
//@include lex.vrs

//@fn src/storage/util.rs::increment_vec_u8 -> r
    ensures
        r@ == succ(vec@),
//@loops 1
//@rw `for byte in result.iter_mut().rev()` => `let vx_n = result.len(); for vx_r in 0..vx_n`
//@rw `*byte` => `result[vx_k]`
//@loop 0
        invariant_except_break
            carry,
            result@.len() == vec@.len(), vx_n == vec@.len(),
            forall|j: int| 0 <= j < vec@.len() - vx_r ==> result@[j] == vec@[j],
            forall|j: int| vec@.len() - vx_r <= j < vec@.len() ==> result@[j] == 0 && vec@[j] == 255,
        ensures
            carry ==> all_is(vec@, 255) && result@ =~= zeros(vec@.len()),
            !carry ==> result@ =~= succ(vec@) && !all_is(vec@, 255),
//@loopstart 0
    let vx_k = vx_n - 1 - vx_r;
//@before `carry = false`
    proof { lemma_last_nff(vec@, vec@.len() - 1 - vx_r); }
//@after `result.insert(0, 1)`
;    proof { lemma_last_nff(vec@, -1); assert(result@ =~= seq![1u8] + zeros(vec@.len())); }
//@start
    proof { if vec@.len() == 0 { lemma_last_nff(vec@, -1); } }
//@endfn

//@fn src/storage/util.rs::decrement_vec_u8 -> r
    ensures
        !all_is(vec@, 0) ==> r@ == pred(vec@),
//@loops 1
//@rw `for byte in result.iter_mut().rev()` => `let vx_n = result.len(); for vx_r in 0..vx_n`
//@rw `*byte` => `result[vx_k]`
//@loop 0
        invariant_except_break
            borrow,
            result@.len() == vec@.len(), vx_n == vec@.len(),
            forall|j: int| 0 <= j < vec@.len() - vx_r ==> result@[j] == vec@[j],
            forall|j: int| vec@.len() - vx_r <= j < vec@.len() ==> result@[j] == 255 && vec@[j] == 0,
        ensures
            borrow ==> all_is(vec@, 0),
            !borrow ==> result@ =~= pred(vec@),
//@loopstart 0
    let vx_k = vx_n - 1 - vx_r;
//@before `borrow = false`
    proof { lemma_last_nz(vec@, vec@.len() - 1 - vx_r); }
//@endfn

//@fn src/storage/util.rs::vec_to_u8_24 -> r
    ensures
        r is Ok <==> (vec is Some && vec->Some_0@.len() == 24),
        r is Ok ==> (r->Ok_0)@ == (vec->Some_0)@,
//@endfn

//@include errors.vrs

pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn all_is(s: Seq<u8>, x: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == x }
// position of the last byte that is not 255 (not 0), or -1
pub open spec fn last_nff(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { -1 } else if s.last() != 255 { s.len() - 1 } else { last_nff(s.drop_last()) }
}
pub open spec fn last_nz(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { -1 } else if s.last() != 0 { s.len() - 1 } else { last_nz(s.drop_last()) }
}
proof fn lemma_last_nff(s: Seq<u8>, k: int)
    requires -1 <= k < s.len(), k >= 0 ==> s[k] != 255, forall|j: int| k < j < s.len() ==> s[j] == 255
    ensures last_nff(s) == k decreases s.len()
{ if s.len() > 0 && s.last() == 255 { lemma_last_nff(s.drop_last(), k); } }
proof fn lemma_last_nz(s: Seq<u8>, k: int)
    requires -1 <= k < s.len(), k >= 0 ==> s[k] != 0, forall|j: int| k < j < s.len() ==> s[j] == 0
    ensures last_nz(s) == k decreases s.len()
{ if s.len() > 0 && s.last() == 0 { lemma_last_nz(s.drop_last(), k); } }
proof fn lemma_nff_range(s: Seq<u8>) ensures -1 <= last_nff(s) < s.len(), last_nff(s) >= 0 ==> s[last_nff(s)] != 255,
    forall|j: int| last_nff(s) < j < s.len() ==> s[j] == 255 decreases s.len()
{ if s.len() > 0 && s.last() == 255 { let d = s.drop_last(); lemma_nff_range(d);
    assert forall|j: int| last_nff(s) < j < s.len() implies s[j] == 255 by { if j < d.len() { assert(d[j] == 255); } } } }
// the big-endian successor and predecessor
pub open spec fn succ(s: Seq<u8>) -> Seq<u8> {
    let k = last_nff(s);
    if k < 0 { seq![1u8] + zeros(s.len()) } else { Seq::new(s.len(), |i: int| if i < k { s[i] } else if i == k { (s[i] + 1) as u8 } else { 0u8 }) }
}
pub open spec fn pred(s: Seq<u8>) -> Seq<u8> {
    let k = last_nz(s);
    Seq::new(s.len(), |i: int| if i < k { s[i] } else if i == k { (s[i] - 1) as u8 } else { 255u8 })
}
pub open spec fn is_prefix(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> p[i] == s[i] }

// the property: between a prefix and its successor lie exactly the strings with that prefix
proof fn theorem_prefix_bound(p: Seq<u8>, s: Seq<u8>)
    requires !all_is(p, 255), s.len() >= p.len()
    ensures succ(p).len() == p.len(), (lexcmp(p, s) <= 0 && lexcmp(s, succ(p)) < 0) <==> is_prefix(p, s)
{
    lemma_nff_range(p);
    assert(last_nff(p) >= 0);
    lemma_between(p, succ(p), s, last_nff(p));
}
// p and q share k bytes, q[k] = p[k]+1, p ends in 255s and q in 0s
proof fn lemma_between(p: Seq<u8>, q: Seq<u8>, s: Seq<u8>, k: int)
    requires s.len() >= p.len(), 0 <= k < p.len(), q.len() == p.len(), forall|i: int| 0 <= i < k ==> p[i] == q[i], q[k] == p[k] + 1,
        forall|i: int| k < i < p.len() ==> p[i] == 255 && q[i] == 0,
    ensures (lexcmp(p, s) <= 0 && lexcmp(s, q) < 0) <==> is_prefix(p, s)
    decreases p.len()
{
    if s.len() == 0 { }
    else if k == 0 {
        if s[0] == p[0] { lemma_ff(p.skip(1), s.skip(1)); assert(lexcmp(s, q) < 0);
            assert(is_prefix(p, s) <==> is_prefix(p.skip(1), s.skip(1))) by {
                if is_prefix(p.skip(1), s.skip(1)) { assert forall|i: int| 0 <= i < p.len() implies p[i] == s[i] by { if i > 0 { assert(p.skip(1)[i - 1] == s.skip(1)[i - 1]); } } }
                if is_prefix(p, s) { assert forall|i: int| 0 <= i < p.skip(1).len() implies p.skip(1)[i] == s.skip(1)[i] by { } }
            }
        } else if s[0] == q[0] { lemma_zero_low(q.skip(1), s.skip(1)); }
    } else if s[0] == p[0] {
        lemma_between(p.skip(1), q.skip(1), s.skip(1), k - 1);
        if is_prefix(p.skip(1), s.skip(1)) { assert forall|i: int| 0 <= i < p.len() implies p[i] == s[i] by { if i > 0 { assert(p.skip(1)[i - 1] == s.skip(1)[i - 1]); } } }
        if is_prefix(p, s) { assert forall|i: int| 0 <= i < p.skip(1).len() implies p.skip(1)[i] == s.skip(1)[i] by { } }
    }
}
proof fn lemma_ff(p: Seq<u8>, s: Seq<u8>) requires all_is(p, 255) ensures lexcmp(p, s) <= 0 <==> is_prefix(p, s) decreases p.len() {
    if p.len() > 0 && s.len() > 0 {
        if s[0] == 255 {
            lemma_ff(p.skip(1), s.skip(1));
            if is_prefix(p.skip(1), s.skip(1)) { assert forall|i: int| 0 <= i < p.len() implies p[i] == s[i] by { if i > 0 { assert(p.skip(1)[i - 1] == s.skip(1)[i - 1]); } } }
            if is_prefix(p, s) { assert forall|i: int| 0 <= i < p.skip(1).len() implies p.skip(1)[i] == s.skip(1)[i] by { } }
        }
    }
}
proof fn lemma_zero_low(q: Seq<u8>, s: Seq<u8>) requires all_is(q, 0) ensures lexcmp(s, q) < 0 ==> s.len() < q.len() decreases q.len() {
    if q.len() > 0 && s.len() > 0 { lemma_zero_low(q.skip(1), s.skip(1)); }
}
proof fn theorem_pred_undoes_succ(p: Seq<u8>) requires !all_is(p, 255) ensures pred(succ(p)) == p {
    lemma_nff_range(p);
    let k = last_nff(p);
    lemma_last_nz(succ(p), k);
    assert(pred(succ(p)) =~= p);
}
} // verus!
fn main() {}
