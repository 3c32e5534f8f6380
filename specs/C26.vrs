//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@proto Message MessageType CastId
//@include keys.vrs
//@include sets.vrs
//@include batch.vrs
//@include codec.vrs
// merging is last-writer-wins per key
proof fn theorem_merge(a: B, b: B, x: Seq<u8>)
    ensures a.union_prefer_right(b).contains_key(x) <==> a.contains_key(x) || b.contains_key(x),
        b.contains_key(x) ==> a.union_prefer_right(b)[x] == b[x], a.contains_key(x) && !b.contains_key(x) ==> a.union_prefer_right(b)[x] == a[x]
{ }
} // verus!
fn main() {}
