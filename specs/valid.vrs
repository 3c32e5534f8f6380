//@include strings.vrs
//@item src/core/validations/error.rs::ValidationError
pub open spec fn ok_fid(f: u64) -> bool { f != 0 }
pub open spec fn ok_url(u: Seq<char>) -> bool { 1 <= blen(u) <= 256 }
pub open spec fn ok_cast_id(c: CastId) -> bool { ok_fid(c.fid) && c.hash@.len() == 20 }
//@fn src/core/validations/mod.rs::validate_fid -> r
    ensures r is Ok <==> ok_fid(fid),
//@endfn
//@fn src/core/validations/mod.rs::validate_cast_id -> r
    ensures r is Ok <==> ok_cast_id(*cast_id),
//@endfn
//@fn src/core/validations/mod.rs::validate_url -> r
    ensures r is Ok <==> ok_url(url@),
//@endfn
