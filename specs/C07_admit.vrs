//@include admit_body.vrs
pub open spec fn about(d: MessageData) -> bool { match d.body { Some(proto::message_data::Body::ChannelUpdateBody(_)) | Some(proto::message_data::Body::ChannelMemberBody(_)) | Some(proto::message_data::Body::ChannelPinBody(_)) | Some(proto::message_data::Body::ChannelModerateBody(_)) => true, _ => false } }
} // verus!
fn main() {}
