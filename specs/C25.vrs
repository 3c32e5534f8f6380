//@include prelude.vrs
global size_of usize == 8;
//@include errors.vrs
//@include time.vrs
//@include lex.vrs
//@proto Message MessageType ValidatorMessage UserDataType CastId
//@include keys.vrs
use proto::{Message, UserDataType};
//@include pool.vrs
proof fn lemma_lex_prefix(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires a.len() == b.len()
    ensures lexcmp(a + x, b + y) == (if lexcmp(a, b) != 0 { lexcmp(a, b) } else { lexcmp(x, y) })
    decreases a.len()
{
    if a.len() == 0 { assert(a + x =~= x); assert(b + y =~= y); } else {
        assert((a + x).skip(1) =~= a.skip(1) + x); assert((b + y).skip(1) =~= b.skip(1) + y);
        if a[0] == b[0] { lemma_lex_prefix(a.skip(1), b.skip(1), x, y); }
    }
}
proof fn lemma_be_order(x: u32, y: u32) ensures lexcmp(be32(x), be32(y)) == (if x < y { -1i8 } else if x > y { 1i8 } else { 0i8 }) {
    let a = be32(x); let b = be32(y);
    reveal_with_fuel(lexcmp, 6);
    assert(a.skip(1).skip(1) =~= a.skip(2)); assert(b.skip(1).skip(1) =~= b.skip(2)); assert(a.skip(2).skip(1) =~= a.skip(3)); assert(b.skip(2).skip(1) =~= b.skip(3));
    assert(a.skip(3).skip(1).len() == 0); assert(b.skip(3).skip(1).len() == 0);
    let (x0, x1, x2, x3) = ((x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8); let (y0, y1, y2, y3) = ((y >> 24) as u8, (y >> 16) as u8, (y >> 8) as u8, y as u8);
    assert(x < y <==> x0 < y0 || x0 == y0 && (x1 < y1 || x1 == y1 && (x2 < y2 || x2 == y2 && x3 < y3))) by (bit_vector)
        requires x0 == (x >> 24) as u8, x1 == (x >> 16) as u8, x2 == (x >> 8) as u8, x3 == x as u8, y0 == (y >> 24) as u8, y1 == (y >> 16) as u8, y2 == (y >> 8) as u8, y3 == y as u8;
    assert(x == y <==> x0 == y0 && x1 == y1 && x2 == y2 && x3 == y3) by (bit_vector)
        requires x0 == (x >> 24) as u8, x1 == (x >> 16) as u8, x2 == (x >> 8) as u8, x3 == x as u8, y0 == (y >> 24) as u8, y1 == (y >> 16) as u8, y2 == (y >> 8) as u8, y3 == y as u8;
}
proof fn theorem_live_at(a: Message, b: Message)
    requires a.data is Some, b.data is Some, a.hash@.len() == 20, b.hash@.len() == 20
    ensures newer(a, b) < 0 <==> a.data->Some_0.timestamp < b.data->Some_0.timestamp || a.data->Some_0.timestamp == b.data->Some_0.timestamp && lexcmp(a.hash@, b.hash@) < 0,
        newer(a, b) == -newer(b, a),
{
    let (x, y) = (a.data->Some_0.timestamp, b.data->Some_0.timestamp);
    lemma_lex_prefix(be32(x), be32(y), a.hash@, b.hash@); lemma_be_order(x, y);
    lemma_antisym(ts_hash(x, a.hash@), ts_hash(y, b.hash@));
}
} // verus!
fn main() {}
