use super::support::*;
use crate::core::error::HubError;
use crate::network::replication::error::ReplicationError as E;
use crate::proto;
use crate::storage::trie::errors::TrieError;
use tonic::Code;

pub fn run(c: &mut Ctx) {
    for _ in 0..c.rounds(2000) {
        let (s, h, t, x) = (c.u32(), c.u64(), c.u64(), c.text(12));
        let i = c.below(10);
        c.case("status", format!("{} {} {} {} {}", i, s, h, t, x), || {
            let (e, want, text) = match i {
                0 => (E::ShardStoreNotFound(s), Code::Internal, s.to_string()),
                1 => (E::StoreNotFound(s, h, x.clone()), Code::Internal, x.clone()),
                2 => (E::InternalError(x.clone()), Code::Internal, x.clone()),
                3 => (E::InvalidMessage(x.clone()), Code::InvalidArgument, x.clone()),
                4 => (E::TimestampTooOld(s, h, t), Code::FailedPrecondition, h.to_string()),
                5 => (E::ChannelMessagesInactive(s, h, proto::MessageType::ChannelPin), Code::FailedPrecondition, h.to_string()),
                6 => (E::from(HubError::not_found(&x)), Code::Internal, x.clone()),
                7 => (E::from(HubError::validation_failure(&x)), Code::Internal, x.clone()),
                8 => (E::from(HubError::unavailable(&x)), Code::Internal, String::new()),
                _ => (E::from(TrieError::NodeNotFound { prefix: vec![1] }), Code::Internal, String::new()),
            };
            let st: tonic::Status = e.into();
            same("code", st.code(), want)?;
            holds("message names the cause", st.message().contains(&text))
        });
    }
}
