//@include prelude.vrs
//@include errors.vrs
use std::collections::HashMap;
//@proto HubEvent HubEventType !Block !ShardChunk
use proto::{HubEvent, HubEventType};
use vstd::arithmetic::power::pow;
//@item src/storage/store/account/event.rs::HEIGHT_BITS
//@item src/storage/store/account/event.rs::SEQUENCE_BITS
//@item src/storage/store/account/event.rs::HubEventIdGenerator
//@item src/storage/constants.rs::RootPrefix
pub assume_specification [u64::pow] (x: u64, e: u32) -> (r: u64) requires pow(x as int, e as nat) <= u64::MAX ensures r == pow(x as int, e as nat);
pub proof fn lemma_pows() ensures pow(2, 50) == 0x4_0000_0000_0000, pow(2, 14) == 0x4000
{ vstd::arithmetic::power2::lemma_pow2(50); vstd::arithmetic::power2::lemma_pow2(14); vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest(); }
pub open spec fn id_of(height: int, seq: int) -> int { height * 0x4000 + seq }
proof fn lemma_pack(h: u64, s: u64) requires h < 0x4_0000_0000_0000u64
    ensures (h << 14u64) | (s & 0x3fff) == h * 0x4000 + s % 0x4000
{
    assert(h < 0x4_0000_0000_0000u64 ==> (h << 14u64) | (s & 0x3fff) == add(mul(h, 0x4000), s % 0x4000)) by (bit_vector);
    assert(h < 0x4_0000_0000_0000u64 ==> mul(h, 0x4000) == h * 0x4000) by (nonlinear_arith);
}
impl HubEventIdGenerator {
//@fn src/storage/store/account/event.rs::HubEventIdGenerator::new -> r
    ensures r.current_height == (match current_block { Some(x) => x, None => 0 }), r.current_seq == (match last_seq { Some(x) => x, None => 0 }),
//@endfn
//@fn src/storage/store/account/event.rs::HubEventIdGenerator::set_current_height
    ensures final(self).current_height == height, final(self).current_seq == 0,
//@endfn
//@fn src/storage/store/account/event.rs::HubEventIdGenerator::generate_id -> r
    ensures step(*old(self), *final(self), *event, r),
//@start
    proof { lemma_pows(); }
//@endfn
//@fn src/storage/store/account/event.rs::HubEventIdGenerator::make_event_id -> r
    ensures height < 0x4_0000_0000_0000 ==> r == id_of(height as int, seq as int % 0x4000),
//@start
    proof {
        if height < 0x4_0000_0000_0000u64 { lemma_pack(height, seq); }
        assert(1u64 << 14u32 == 0x4000) by (bit_vector); assert((height << 14u32) == (height << 14u64)) by (bit_vector);
        assert(sub(1u64 << 14u32, 1) == 0x3fff) by (bit_vector);
    }
//@endfn
//@fn src/storage/store/account/event.rs::HubEventIdGenerator::make_event_id_for_block_number -> r
    ensures height < 0x4_0000_0000_0000 ==> r == id_of(height as int, 0),
//@endfn
//@fn src/storage/store/account/event.rs::HubEventIdGenerator::extract_height_and_seq -> r
    ensures r.0 == event_id / 0x4000, r.1 == event_id % 0x4000,
//@start
    proof {
        assert(event_id >> 14u32 == event_id / 0x4000) by (bit_vector); assert(event_id & 0x3fff == event_id % 0x4000) by (bit_vector);
        assert(1u64 << 14u32 == 0x4000) by (bit_vector); assert(sub(1u64 << 14u32, 1) == 0x3fff) by (bit_vector);
    }
//@endfn
}
//@fn src/storage/store/account/event.rs::make_event_key -> r
    ensures r@ == seq![RootPrefix::HubEvents as u8] + be64(event_id),
//@endfn
pub open spec fn confirms(e: HubEvent) -> bool { HubEventType::spec_or_default(e.r#type) == HubEventType::BlockConfirmed }
// one step of the generator: refuses without a change, or gives the next id
pub open spec fn step(a: HubEventIdGenerator, b: HubEventIdGenerator, e: HubEvent, r: Result<u64, HubError>) -> bool {
    if a.current_height >= 0x4_0000_0000_0000 || a.current_seq >= 0x4000 { r is Err && a == b }
    else if confirms(e) { r is Ok && r->Ok_0 == id_of(a.current_height as int, 0) && a == b }
    else {
        let s = if a.current_seq == 0 { 1int } else { a.current_seq as int };
        r is Ok && r->Ok_0 == id_of(a.current_height as int, s) && b.current_height == a.current_height && b.current_seq == s + 1
    }
}
proof fn theorem_reversible(h: int, s: int) requires 0 <= h < 0x4_0000_0000_0000, 0 <= s < 0x4000
    ensures id_of(h, s) / 0x4000 == h, id_of(h, s) % 0x4000 == s, 0 <= id_of(h, s) <= u64::MAX {}
proof fn theorem_sorted(h: int, s: int, g: int, t: int) requires 0 <= h, 0 <= g, 0 <= s < 0x4000, 0 <= t < 0x4000
    ensures id_of(h, s) < id_of(g, t) <==> (h < g || h == g && s < t) {}
// any number of further events: later ids of ordinary events are larger, never sequence 0
proof fn theorem_increasing(tr: Seq<HubEventIdGenerator>, ev: Seq<HubEvent>, rs: Seq<Result<u64, HubError>>, i: int, j: int)
    requires tr.len() == ev.len() + 1, rs.len() == ev.len(), forall|k: int| 0 <= k < ev.len() ==> step(tr[k], #[trigger] tr[k + 1], ev[k], rs[k]),
        0 <= i < j < ev.len(), rs[i] is Ok, rs[j] is Ok, !confirms(ev[i]), !confirms(ev[j])
    ensures rs[i]->Ok_0 < rs[j]->Ok_0, rs[i]->Ok_0 % 0x4000 != 0
{
    assert(step(tr[i], tr[i + 1], ev[i], rs[i])); assert(step(tr[j], tr[j + 1], ev[j], rs[j]));
    lemma_grows(tr, ev, rs, i + 1, j);
    assert(rs[i]->Ok_0 < rs[j]->Ok_0) by (nonlinear_arith) requires rs[i]->Ok_0 == id_of(tr[i].current_height as int, tr[i + 1].current_seq - 1),
        rs[j]->Ok_0 == id_of(tr[j].current_height as int, tr[j + 1].current_seq - 1), tr[i].current_height == tr[j].current_height, tr[i + 1].current_seq < tr[j + 1].current_seq;
}
proof fn lemma_grows(tr: Seq<HubEventIdGenerator>, ev: Seq<HubEvent>, rs: Seq<Result<u64, HubError>>, i: int, j: int)
    requires tr.len() == ev.len() + 1, rs.len() == ev.len(), forall|k: int| 0 <= k < ev.len() ==> step(tr[k], #[trigger] tr[k + 1], ev[k], rs[k]), 0 <= i <= j < tr.len()
    ensures tr[i].current_height == tr[j].current_height, tr[i].current_seq <= tr[j].current_seq decreases j - i
{ if i < j { assert(step(tr[i], tr[i + 1], ev[i], rs[i])); lemma_grows(tr, ev, rs, i + 1, j); } }
} // verus!
fn main() {}
