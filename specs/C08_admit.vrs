//@include admit_body.vrs
pub open spec fn about(d: MessageData) -> bool { match d.body { Some(proto::message_data::Body::KeyAddBody(_)) | Some(proto::message_data::Body::KeyRemoveBody(_)) => true, _ => false } }
} // verus!
fn main() {}
