pub open spec fn vmin(a: int, b: int) -> int { if a < b { a } else { b } }
// the total lexicographic order on byte strings
pub open spec fn lexcmp(a: Seq<u8>, b: Seq<u8>) -> i8 decreases a.len() {
    if a.len() == 0 && b.len() == 0 { 0i8 } else if a.len() == 0 { -1i8 } else if b.len() == 0 { 1i8 }
    else if a[0] < b[0] { -1i8 } else if a[0] > b[0] { 1i8 } else { lexcmp(a.skip(1), b.skip(1)) }
}
proof fn lemma_step(a: Seq<u8>, b: Seq<u8>) requires a.len() > 0, b.len() > 0
    ensures lexcmp(a, b) == (if a[0] < b[0] { -1i8 } else if a[0] > b[0] { 1i8 } else { lexcmp(a.skip(1), b.skip(1)) }) {}
proof fn lemma_end(a: Seq<u8>, b: Seq<u8>) requires a.len() == 0 || b.len() == 0
    ensures lexcmp(a, b) == (if a.len() < b.len() { -1i8 } else if a.len() > b.len() { 1i8 } else { 0i8 }) {}
// zero exactly for equal strings; antisymmetric; transitive
proof fn lemma_zero_iff_equal(a: Seq<u8>, b: Seq<u8>) ensures lexcmp(a, b) == 0 <==> a == b decreases a.len() {
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lemma_zero_iff_equal(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    else { assert(a.len() == 0 && b.len() == 0 ==> a =~= b); }
}
proof fn lemma_antisym(a: Seq<u8>, b: Seq<u8>) ensures lexcmp(a, b) == -lexcmp(b, a), -1 <= lexcmp(a, b) <= 1 decreases a.len() {
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lemma_antisym(a.skip(1), b.skip(1)); }
}
proof fn lemma_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires lexcmp(a, b) < 0, lexcmp(b, c) <= 0 ensures lexcmp(a, c) < 0 decreases a.len() {
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
//@fn src/storage/util.rs::bytes_compare -> r
    ensures
        r == lexcmp(a@, b@),
//@loops 1
//@loop 0 vxit
        invariant
            len == vmin(a@.len() as int, b@.len() as int),
            forall|k: int| 0 <= k < i ==> a@[k] == b@[k],
            lexcmp(a@, b@) == lexcmp(a@.skip(i as int), b@.skip(i as int)),
//@loopstart 0
        proof { lemma_step(a@.skip(i as int), b@.skip(i as int));
            assert(a@.skip(i as int).skip(1) =~= a@.skip(i as int + 1));
            assert(b@.skip(i as int).skip(1) =~= b@.skip(i as int + 1)); }
//@start
    proof { assert(a@.skip(0) =~= a@); assert(b@.skip(0) =~= b@); }
//@loopafter 0
    proof { lemma_end(a@.skip(len as int), b@.skip(len as int)); }
//@endfn
