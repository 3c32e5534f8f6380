//@include admit_body.vrs
pub open spec fn about(d: MessageData) -> bool { match d.body { Some(proto::message_data::Body::VerificationAddAddressBody(_)) | Some(proto::message_data::Body::VerificationRemoveBody(_)) => true, _ => false } }
} // verus!
fn main() {}
