// where what waits is held
impl Message {
//@fn proto/src/lib.rs::Message::msg_type -> r
    ensures r == kind(*self),
//@endfn
//@fn proto/src/lib.rs::Message::fid -> r
    ensures r == owner(*self),
//@endfn
//@fn proto/src/lib.rs::Message::is_type -> r
    ensures r == (self.data is Some && self.data->Some_0.r#type == message_type as i32),
//@endfn
}
pub open spec fn kind(m: Message) -> MessageType { match m.data { Some(d) => MessageType::spec_or_default(d.r#type), None => MessageType::None } }
pub open spec fn owner(m: Message) -> u64 { match m.data { Some(d) => d.fid, None => 0 } }
pub open spec fn always_zero(t: MessageType) -> bool {
    t == MessageType::LendStorage || t == MessageType::KeyAdd || t == MessageType::KeyRemove || t == MessageType::ChannelUpdate || t == MessageType::ChannelMember
    || t == MessageType::ChannelPin || t == MessageType::ChannelModerate
}
pub open spec fn on_zero(t: MessageType, v: EngineVersion) -> bool {
    always_zero(t) || ((t == MessageType::VerificationAddEthAddress || t == MessageType::VerificationRemove) && enabled(v, ProtocolFeature::VerificationsOnShardZero))
}
//@fn src/mempool/routing.rs::route_message -> r
    requires num_shards > 0,
    ensures r == (if on_zero(kind(*message), version) { 0 } else { home_shard(owner(*message), num_shards) }),
//@rw `&Box<dyn MessageRouter>` => `&Box<ShardRouter>`
//@endfn
// ---- everything that waits to be proposed
pub assume_specification<T, U, F: FnOnce(T) -> U> [std::option::Option::<T>::map_or] (o: std::option::Option<T>, d: U, f: F) -> (r: U) where F: core::marker::Destruct, U: core::marker::Destruct
    requires o matches Some(v) ==> call_requires(f, (v,)) ensures match o { Some(v) => call_ensures(f, (v,), r), None => r == d };
//@include poolmsg.vrs
// what the submitting side checks before anything waits: transfers carry their proof, mirrored messages themselves
pub open spec fn complete(m: MempoolMessage) -> bool {
    match m {
        MempoolMessage::FnameTransfer(t) => t.proof is Some,
        MempoolMessage::BlockEvent { for_shard, message } => match message.data { Some(d) => match d.body { Some(block_event_data::Body::MergeMessageEventBody(b)) => b.message is Some, _ => true }, None => true },
        _ => true,
    }
}
pub open spec fn user_of(m: MempoolMessage) -> u64 {
    match m {
        MempoolMessage::UserMessage(m) => owner(m),
        MempoolMessage::OnchainEvent(e) => e.fid,
        MempoolMessage::OnchainEventForMigration(e) => e.fid,
        MempoolMessage::FnameTransfer(t) => t.proof->Some_0.fid,
        MempoolMessage::BlockEvent { for_shard, message } => match message.data { Some(d) => match d.body {
            Some(block_event_data::Body::MergeMessageEventBody(b)) => owner(b.message->Some_0),
            Some(block_event_data::Body::MergeOnChainEventEventBody(b)) => match b.on_chain_event { Some(e) => e.fid, None => 0 },
            _ => 0 }, None => 0 },
    }
}
impl MempoolMessage {
//@fn src/storage/store/mempool_poller.rs::MempoolMessage::fid -> r
    requires complete(*self),
    ensures r == user_of(*self),
//@rw `.map_or(0, |e| e.fid)` => `.map_or(0, |e: &proto::OnChainEvent| -> (o: u64) ensures o == e.fid { e.fid })`
//@endfn
}
// the version of the moment (C10): the clock is read, so it is some version
impl EngineVersion { pub uninterp spec fn at(n: FarcasterNetwork, t: int) -> EngineVersion;
//@fn src/version/version.rs::EngineVersion::current -> v external
    ensures exists|t: int| v == #[trigger] EngineVersion::at(network, t)
//@endfn
}
#[verifier::external_body] pub fn vx_range(a: u32, b: u32) -> (r: Vec<u32>) ensures r@ == Seq::new((if b > a { b - a } else { 0 }) as nat, |i: int| (a + i) as u32) { unimplemented!() }
// where what waits is held: transfers on every shard of users once that is enabled, chain events on shard 0 and the user's, the rest on one shard
pub open spec fn held_on(m: MempoolMessage, n: u32, v: EngineVersion) -> Seq<u32> {
    match m {
        MempoolMessage::FnameTransfer(_) => if enabled(v, ProtocolFeature::UsernameShardRoutingFix) { Seq::new(n as nat, |i: int| (1 + i) as u32) } else { seq![home_shard(user_of(m), n)] },
        MempoolMessage::OnchainEventForMigration(_) => seq![0u32],
        MempoolMessage::OnchainEvent(_) => seq![0u32, home_shard(user_of(m), n)],
        MempoolMessage::BlockEvent { for_shard, message } => seq![for_shard],
        MempoolMessage::UserMessage(u) => seq![if on_zero(kind(u), v) { 0 } else { home_shard(owner(u), n) }],
    }
}
