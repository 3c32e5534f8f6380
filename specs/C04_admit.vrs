//@include admit_body.vrs
pub open spec fn about(d: MessageData) -> bool { match d.body { Some(proto::message_data::Body::LinkCompactStateBody(_)) | Some(proto::message_data::Body::LinkBody(_)) | Some(proto::message_data::Body::ReactionBody(_)) | Some(proto::message_data::Body::FrameActionBody(_)) | Some(proto::message_data::Body::LendStorageBody(_)) => true, _ => false } }
} // verus!
fn main() {}
