// tonic's Status: the code is what callers act on (the text is not interpreted)
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Code { Internal, NotFound, InvalidArgument, Unauthenticated, FailedPrecondition, Unavailable }
unsafe impl Structural for Code {}
pub struct Status { pub code: Code }
impl Status {
    #[verifier::external_body] pub fn internal<T>(m: T) -> (r: Status) ensures r.code == Code::Internal { unimplemented!() }
    #[verifier::external_body] pub fn not_found<T>(m: T) -> (r: Status) ensures r.code == Code::NotFound { unimplemented!() }
    #[verifier::external_body] pub fn invalid_argument<T>(m: T) -> (r: Status) ensures r.code == Code::InvalidArgument { unimplemented!() }
    #[verifier::external_body] pub fn unauthenticated<T>(m: T) -> (r: Status) ensures r.code == Code::Unauthenticated { unimplemented!() }
    #[verifier::external_body] pub fn failed_precondition<T>(m: T) -> (r: Status) ensures r.code == Code::FailedPrecondition { unimplemented!() }
    #[verifier::external_body] pub fn unavailable<T>(m: T) -> (r: Status) ensures r.code == Code::Unavailable { unimplemented!() }
}
