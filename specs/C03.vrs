//@include prelude.vrs
//@include errors.vrs
//@include time.vrs
//@include seqs.vrs
//@include version.vrs
//@proto CastAddBody CastRemoveBody CastType CastId
use proto::{CastAddBody, CastRemoveBody, CastType, CastId, Embed, embed, cast_add_body::Parent};
//@include valid.vrs
pub open spec fn ok_embed(e: Embed) -> bool {
    match e.embed { None => false, Some(embed::Embed::Url(u)) => ok_url(u@), Some(embed::Embed::CastId(c)) => ok_cast_id(c) }
}
pub open spec fn ok_parent(p: Parent) -> bool { match p { Parent::ParentCastId(c) => ok_cast_id(c), Parent::ParentUrl(u) => ok_url(u@) } }
// the text length fits the declared kind: 0 cast, 1 long cast, 2 ten-thousand-byte cast (pro only)
pub open spec fn ok_kind(ty: i32, n: nat, pro: bool) -> bool {
    if ty == 0 { n <= 320 } else if ty == 1 { 321 <= n <= 1024 } else if ty == 2 { pro && 1025 <= n <= 10000 } else { false }
}
pub open spec fn embed_limit(pro: bool, v: EngineVersion) -> int { if pro || v as int >= 20 { 4 } else { 2 } }
pub open spec fn ok_mentions(b: CastAddBody) -> bool {
    &&& b.mentions@.len() <= 10 && b.mentions@.len() == b.mentions_positions@.len()
    &&& forall|i: int| 0 <= i < b.mentions@.len() ==> ok_fid(#[trigger] b.mentions@[i])
    &&& forall|i: int| 0 <= i < b.mentions@.len() ==> #[trigger] b.mentions_positions@[i] <= blen(b.text@)
    &&& forall|i: int| 0 < i < b.mentions@.len() ==> b.mentions_positions@[i - 1] <= #[trigger] b.mentions_positions@[i]
}
pub open spec fn ok_cast(b: CastAddBody, old_embeds: bool, pro: bool, v: EngineVersion) -> bool {
    &&& ok_kind(b.r#type, blen(b.text@), pro)
    &&& b.embeds@.len() <= embed_limit(pro, v)
    &&& b.embeds_deprecated@.len() <= (if old_embeds { 2int } else { 0 })
    &&& (b.embeds@.len() == 0 || b.embeds_deprecated@.len() == 0)
    &&& ok_mentions(b)
    &&& (blen(b.text@) > 0 || b.embeds@.len() > 0 || b.embeds_deprecated@.len() > 0 || b.mentions@.len() > 0)
    &&& forall|i: int| 0 <= i < b.embeds@.len() ==> ok_embed(#[trigger] b.embeds@[i])
    &&& forall|i: int| 0 <= i < b.embeds_deprecated@.len() ==> ok_url((#[trigger] b.embeds_deprecated@[i])@)
    &&& (b.parent is Some ==> ok_parent(b.parent->Some_0))
}
//@fn src/core/validations/cast.rs::validate_cast_add_body -> r
    requires encode_utf8(body.text@).len() <= u32::MAX,
    ensures r is Ok <==> ok_cast(*body, allow_embeds_deprecated, is_pro_user, version),
//@loops 3
//@loop 0
    invariant forall|i: int| 0 <= i < vx_i0 ==> ok_embed(#[trigger] body.embeds@[i]),
//@loop 1
    invariant forall|i: int| 0 <= i < vx_i1 ==> ok_url((#[trigger] body.embeds_deprecated@[i])@),
//@loop 2
    invariant
        body.mentions@.len() == body.mentions_positions@.len(), text_bytes@ == encode_utf8(body.text@), text_bytes@.len() <= u32::MAX,
        idx == 0 ==> prev_position == -1, idx > 0 ==> prev_position == body.mentions_positions@[idx - 1],
        forall|i: int| 0 <= i < idx ==> ok_fid(#[trigger] body.mentions@[i]),
        forall|i: int| 0 <= i < idx ==> #[trigger] body.mentions_positions@[i] <= blen(body.text@),
        forall|i: int| 0 < i < idx ==> body.mentions_positions@[i - 1] <= #[trigger] body.mentions_positions@[i],
//@endfn
//@fn src/core/validations/cast.rs::validate_cast_remove_body -> r
    ensures r is Ok <==> body.target_hash@.len() == 20,
//@endfn
//@fn src/core/validations/cast.rs::validate_embed -> r
    ensures r is Ok <==> ok_embed(*embed),
//@endfn
//@fn src/core/validations/cast.rs::validate_parent -> r
    ensures r is Ok <==> ok_parent(*parent),
//@endfn
} // verus!
fn main() {}
