//@item src/core/error.rs::HubError
impl HubError {
//@fn src/core/error.rs::HubError::validation_failure -> r
    ensures r.code@ == "bad_request.validation_failure"@, r.message@ == error_message@,
//@endfn
//@fn src/core/error.rs::HubError::unavailable -> r
    ensures r.code@ == "unavailable"@, r.message@ == error_message@,
//@endfn
//@fn src/core/error.rs::HubError::invalid_parameter -> r
    ensures r.code@ == "bad_request.invalid_param"@, r.message@ == error_message@,
//@endfn
//@fn src/core/error.rs::HubError::internal_db_error -> r
    ensures r.code@ == "db.internal_error"@, r.message@ == error_message@,
//@endfn
//@fn src/core/error.rs::HubError::not_found -> r
    ensures r.code@ == "not_found"@, r.message@ == error_message@,
//@endfn
//@fn src/core/error.rs::HubError::invalid_internal_state -> r
    ensures r.code@ == "invalid_internal_state"@, r.message@ == error_message@,
//@endfn
//@fn src/core/error.rs::HubError::duplicate -> r
    ensures r.code@ == "bad_request.duplicate"@, r.message@ == error_message@,
//@endfn
//@fn src/core/error.rs::HubError::rate_limited -> r
    ensures r.code@ == "bad_request.rate_limited"@, r.message@ == error_message@,
//@endfn
}
