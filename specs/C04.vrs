//@include prelude.vrs
//@include errors.vrs
//@proto CastId LinkBody LinkCompactStateBody ReactionBody ReactionType FarcasterNetwork FrameActionBody LendStorageBody StorageUnitType MessageType
use proto::{CastId, LinkBody, LinkCompactStateBody, ReactionBody, ReactionType, FarcasterNetwork, FrameActionBody, StorageUnitType, MessageType};
//@include valid.vrs
pub open spec fn ok_link_type(s: Seq<char>) -> bool { 1 <= blen(s) <= 8 }
pub open spec fn ok_link(b: LinkBody) -> bool {
    ok_link_type(b.r#type@) && match b.target { Some(proto::link_body::Target::TargetFid(f)) => ok_fid(f), None => false }
}
pub open spec fn ok_compact(b: LinkCompactStateBody) -> bool {
    ok_link_type(b.r#type@) && b.target_fids@.len() > 0 && forall|i: int| 0 <= i < b.target_fids@.len() ==> ok_fid(#[trigger] b.target_fids@[i])
}
pub mod link {
use super::*;
use proto::link_body::Target;
//@fn src/core/validations/link.rs::validate_link_type -> r
    ensures r is Ok <==> ok_link_type(type_str@),
//@rw `type_str.len()` => `type_str.as_bytes().len()`
//@endfn
//@fn src/core/validations/link.rs::validate_link_compact_state_body -> r
    ensures r is Ok <==> ok_compact(*body),
//@loops 1
//@loop 0
    invariant forall|i: int| 0 <= i < vx_i0 ==> ok_fid(#[trigger] body.target_fids@[i]),
//@endfn
//@fn src/core/validations/link.rs::validate_target -> r
    ensures r is Ok <==> ok_fid(target->TargetFid_0),
//@endfn
//@fn src/core/validations/link.rs::validate_link_body -> r
    ensures r is Ok <==> ok_link(*body),
//@endfn
}
// reaction types: 1 like, 2 recast (0 is defined as "none" and passes here)
pub open spec fn ok_reaction(b: ReactionBody) -> bool {
    0 <= b.r#type <= 2 && match b.target { Some(proto::reaction_body::Target::TargetUrl(u)) => ok_url(u@), Some(proto::reaction_body::Target::TargetCastId(c)) => ok_cast_id(c), None => false }
}
pub mod reaction {
use super::*;
use proto::reaction_body::Target;
//@fn src/core/validations/reaction.rs::validate_reaction_type -> r
    ensures r is Ok <==> 0 <= type_num <= 2,
//@closure 0 |_vx: UnknownEnumValue| -> (o: Result<(), ValidationError>) ensures o is Err
//@closure 1 |_vx: ReactionType| -> (o: Result<(), ValidationError>) ensures o is Ok
//@endfn
//@fn src/core/validations/reaction.rs::validate_network -> r
    ensures r is Ok <==> 0 <= network <= 3,
//@closure 0 |_vx: UnknownEnumValue| -> (o: Result<(), ValidationError>) ensures o is Err
//@closure 1 |_vx: FarcasterNetwork| -> (o: Result<(), ValidationError>) ensures o is Ok
//@endfn
//@fn src/core/validations/reaction.rs::validate_target -> r
    ensures r is Ok <==> match *target { Target::TargetUrl(u) => ok_url(u@), Target::TargetCastId(c) => ok_cast_id(c) },
//@endfn
//@fn src/core/validations/reaction.rs::validate_reaction_body -> r
    ensures r is Ok <==> ok_reaction(*body),
//@endfn
}
pub assume_specification<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U> [std::result::Result::<T, E>::map_or_else] (r: std::result::Result<T, E>, d: D, f: F) -> (o: U)
    where D: core::marker::Destruct, F: core::marker::Destruct,
    requires r is Ok ==> f.requires((r->Ok_0,)), r is Err ==> d.requires((r->Err_0,)),
    ensures r is Ok ==> f.ensures((r->Ok_0,), o), r is Err ==> d.ensures((r->Err_0,), o);
//@fn src/core/validations/message.rs::validate_bytes_as_string -> r
    ensures r is Ok <==> (required ==> byte_array@.len() > 0) && byte_array@.len() <= max_length,
//@endfn
pub open spec fn ok_frame(b: FrameActionBody) -> bool {
    &&& b.button_index <= 5 && 1 <= b.url@.len() <= 1024 && b.input_text@.len() <= 256 && b.state@.len() <= 4096
    &&& b.transaction_id@.len() <= 256 && b.address@.len() <= 64 && (b.cast_id is Some ==> ok_cast_id(b.cast_id->Some_0))
}
//@fn src/core/validations/message.rs::validate_frame_action_body -> r
    ensures r is Ok <==> ok_frame(*body),
//@endfn
//@fn src/core/validations/message.rs::validate_lend_storage_body -> r
    ensures r is Ok <==> 0 <= lend_storage_body.unit_type <= 2 && lend_storage_body.num_units <= 5000,
//@closure 0 |_vx: UnknownEnumValue| -> (o: ValidationError)
//@endfn
} // verus!
fn main() {}
