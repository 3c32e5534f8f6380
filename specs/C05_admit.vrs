//@include admit_body.vrs
pub open spec fn about(d: MessageData) -> bool { match d.body { Some(proto::message_data::Body::UserDataBody(_)) | Some(proto::message_data::Body::UsernameProofBody(_)) => true, _ => false } }
} // verus!
fn main() {}
