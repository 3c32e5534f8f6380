// The gate of shard 0: keys, loans, verifications and channels, each with its own rule, and the books of the verification quota.
//@include gate.vrs
//@item src/storage/store/block_engine.rs::MessageValidationError
impl From<ValidationError> for MessageValidationError { #[verifier::external_body] fn from(e: ValidationError) -> MessageValidationError { unimplemented!() } }
impl From<HubError> for MessageValidationError { #[verifier::external_body] fn from(e: HubError) -> MessageValidationError { unimplemented!() } }
use proto::{MergeMessageBody, CastingMode, StorageUnitType, MembershipMode, ChannelMemberAction, ChannelUpdateBody, ChannelMemberBody};
//@item src/storage/store/account/channel_store.rs::ChannelUpdateState
//@item src/storage/store/account/channel_store.rs::CHANNEL_ID_LENGTH
//@item src/storage/store/account/channel_store.rs::CHANNEL_MODERATE_CAST_HASH_LENGTH
//@item src/storage/store/account/onchain_event_store.rs::ChannelOwner
//@item src/storage/store/account/onchain_event_store.rs::StorageSlot
//@item src/storage/store/block_engine.rs::VERIFICATION_TOMBSTONE_CAP_FLOOR
//@item src/storage/store/block_engine.rs::CHANNEL_MODERATOR_CAP
//@item src/storage/store/block_engine.rs::ChannelAdmissionBody
//@item src/storage/store/block_engine.rs::ChannelMergeDispatch
//@item src/storage/store/block_engine.rs::VerificationMessageCounts
#[verifier::external_body] pub struct ChannelMemberStoreDef { x: u8 }
#[verifier::external_body] pub struct ChannelUpdateStoreDef { x: u8 }
#[verifier::external_body] pub struct StorageLendStoreDef { x: u8 }
pub struct ChannelMemberStore {} pub struct ChannelUpdateStore {}
// the fields of the engine and its stores that the gate reads
pub struct BlockStores { pub onchain_event_store: OnchainEventStore, pub verification_store: Store<VerificationStoreDef>, pub channel_member_store: Store<ChannelMemberStoreDef>, pub channel_update_store: Store<ChannelUpdateStoreDef>, pub storage_lend_store: Store<StorageLendStoreDef>, pub db: Arc<RocksDB> }
pub struct BlockEngine { pub network: FarcasterNetwork, pub stores: BlockStores }
// ---- look-ups, each one function of the store and the batch's contents
pub uninterp spec fn pro(s: OnchainEventStore, fid: u64, t: FarcasterTime) -> Result<bool, OnchainEventStorageError>;
pub uninterp spec fn channel_key(s: OnchainEventStore, id: Seq<u8>, b: B) -> Result<Option<String>, OnchainEventStorageError>;
pub uninterp spec fn channel_owner(s: OnchainEventStore, key: Seq<char>, b: B) -> Result<Option<ChannelOwner>, OnchainEventStorageError>;
pub uninterp spec fn address_owner(s: BlockStores, a: Seq<u8>, b: B) -> Result<Option<u64>, HubError>;
pub uninterp spec fn member(s: Store<ChannelMemberStoreDef>, id: Seq<u8>, fid: u64, b: B) -> Result<Option<ChannelMemberState>, HubError>;
pub uninterp spec fn moderators(s: Store<ChannelMemberStoreDef>, id: Seq<u8>, b: B) -> Result<u32, HubError>;
pub uninterp spec fn settings(s: Store<ChannelUpdateStoreDef>, id: Seq<u8>, b: B) -> Result<Option<ChannelUpdateState>, HubError>;
pub uninterp spec fn unverified(s: Store<VerificationStoreDef>, fid: u64, a: Seq<u8>, b: B) -> Result<Option<Message>, HubError>;
pub uninterp spec fn purchased(s: BlockStores, fid: u64, v: EngineVersion) -> Option<StorageSlot>;
pub uninterp spec fn allowance(s: StorageSlot) -> u32;
pub uninterp spec fn version_at(t: u64, net: FarcasterNetwork) -> EngineVersion;
impl OnchainEventStore {
    #[verifier::external_body] pub fn is_tier_subscription_active_at(&self, k: proto::TierType, fid: u64, t: &FarcasterTime) -> (r: Result<bool, OnchainEventStorageError>) ensures r == pro(*self, fid, *t) { unimplemented!() }
    #[verifier::external_body] pub fn get_channel_key_by_label(&self, id: &[u8], t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<String>, OnchainEventStorageError>) requires t is Some ensures r == channel_key(*self, id@, t->Some_0.batch@) { unimplemented!() }
    #[verifier::external_body] pub fn get_channel_owner(&self, k: &str, t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<ChannelOwner>, OnchainEventStorageError>) requires t is Some ensures r == channel_owner(*self, k@, t->Some_0.batch@) { unimplemented!() }
}
impl BlockStores {
    #[verifier::external_body] pub fn resolve_channel_owner_fid(&self, a: &[u8], t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<u64>, HubError>) requires t is Some ensures r == address_owner(*self, a@, t->Some_0.batch@) { unimplemented!() }
    #[verifier::external_body] pub fn get_storage_slot_for_fid(&self, fid: u64, v: EngineVersion, e: &Vec<OnChainEvent>, lent: bool, borrowed: bool) -> (r: Option<StorageSlot>) requires e@.len() == 0, !lent, !borrowed ensures r == purchased(*self, fid, v) { unimplemented!() }
}
impl ChannelMemberStore {
    #[verifier::external_body] pub fn member_state(s: &Store<ChannelMemberStoreDef>, id: &[u8], fid: u64, t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<ChannelMemberState>, HubError>) requires t is Some ensures r == member(*s, id@, fid, t->Some_0.batch@) { unimplemented!() }
    #[verifier::external_body] pub fn live_moderator_count(s: &Store<ChannelMemberStoreDef>, id: &[u8], t: Option<&RocksDbTransactionBatch>) -> (r: Result<u32, HubError>) requires t is Some ensures r == moderators(*s, id@, t->Some_0.batch@) { unimplemented!() }
}
impl ChannelUpdateStore { #[verifier::external_body] pub fn get_channel_update(s: &Store<ChannelUpdateStoreDef>, id: &[u8], t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<ChannelUpdateState>, HubError>) requires t is Some ensures r == settings(*s, id@, t->Some_0.batch@) { unimplemented!() } }
impl VerificationStore { #[verifier::external_body] pub fn get_verification_remove_with_txn(s: &Store<VerificationStoreDef>, fid: u64, a: &[u8], t: Option<&RocksDbTransactionBatch>) -> (r: Result<Option<Message>, HubError>) requires t is Some ensures r == unverified(*s, fid, a@, t->Some_0.batch@) { unimplemented!() } }
impl EngineVersion { #[verifier::external_body] pub fn version_for(t: &FarcasterTime, net: FarcasterNetwork) -> (r: EngineVersion) ensures r == version_at(t.time, net) { unimplemented!() } }
pub enum StoreType { Verifications }
pub struct StoreLimits {}
impl StoreLimits { pub fn default() -> StoreLimits { StoreLimits {} } #[verifier::external_body] pub fn max_messages(&self, s: &StorageSlot, k: StoreType) -> (r: u32) ensures r == allowance(*s) { unimplemented!() } }
pub open spec fn units(s: StorageSlot, t: StorageUnitType) -> u32 { match t { StorageUnitType::UnitTypeLegacy => s.units_legacy, StorageUnitType::UnitType2024 => s.units_2024, StorageUnitType::UnitType2025 => s.units_2025 } }
impl StorageSlot {
//@fn src/storage/store/account/onchain_event_store.rs::StorageSlot::units_for -> r
    ensures r == units(*self, unit_type),
//@endfn
}
//@include authority.vrs
// derive(PartialEq) on both sides of a Result
#[verifier::external_body] pub fn vx_is_ok(a: Result<ChannelMemberAction, UnknownEnumValue>, b: Result<ChannelMemberAction, UnknownEnumValue>) -> (r: bool) ensures r == (a == b) { unimplemented!() }
// ---- channels
pub open spec fn owner_of(s: BlockStores, id: Seq<u8>, b: B) -> Result<Option<u64>, ()> {
    match channel_key(s.onchain_event_store, id, b) {
        Ok(Some(k)) => match channel_owner(s.onchain_event_store, k@, b) {
            Ok(Some(o)) => match address_owner(s, o.owner_address@, b) { Ok(f) => Ok(f), Err(_) => Err(()) },
            _ => Err(()),
        },
        _ => Err(()),
    }
}
pub open spec fn role(s: BlockStores, id: Seq<u8>, fid: u64, owner: Option<u64>, b: B) -> Option<ChannelAuthorRole> {
    if owner == Some(fid) { Some(ChannelAuthorRole::Owner) } else { match member(s.channel_member_store, id, fid, b) {
        Err(_) => None,
        Ok(Some(ChannelMemberState::Moderator)) => Some(ChannelAuthorRole::Moderator),
        Ok(Some(ChannelMemberState::Member)) => Some(ChannelAuthorRole::Member),
        Ok(_) => Some(ChannelAuthorRole::Other),
    } }
}
pub open spec fn mode(s: BlockStores, id: Seq<u8>, b: B) -> MembershipMode { match settings(s.channel_update_store, id, b) { Ok(Some(u)) => u.membership_mode, _ => MembershipMode::Approval } }
pub open spec fn channel_body(d: MessageData) -> Option<(ChannelMergeDispatch, Seq<u8>)> {
    match d.body {
        Some(Body::ChannelUpdateBody(x)) => if d.r#type == 18 { Some((ChannelMergeDispatch::Update, x.channel_id@)) } else { None },
        Some(Body::ChannelMemberBody(x)) => if d.r#type == 19 { Some((ChannelMergeDispatch::Member, x.channel_id@)) } else { None },
        Some(Body::ChannelPinBody(x)) => if d.r#type == 20 { Some((ChannelMergeDispatch::Pin, x.channel_id@)) } else { None },
        Some(Body::ChannelModerateBody(x)) => if d.r#type == 21 { Some((ChannelMergeDispatch::Moderate, x.channel_id@)) } else { None },
        _ => None,
    }
}
pub open spec fn leaves(x: ChannelMemberBody, fid: u64) -> bool { ChannelMemberAction::of(x.action) == Ok::<ChannelMemberAction, UnknownEnumValue>(ChannelMemberAction::RemoveMember) && x.fid == fid }
pub open spec fn channel_admitted(s: BlockStores, d: MessageData, b: B) -> bool {
    &&& channel_body(d) is Some
    &&& channel_body(d)->Some_0.1.len() == 32
    &&& d.body matches Some(Body::ChannelModerateBody(x)) ==> x.cast_hash@.len() == 20 && proto::ChannelModerateAction::of(x.action) is Ok && x.action != 0
    &&& {
        let id = channel_body(d)->Some_0.1; let owner = owner_of(s, id, b);
        // the channel is known; while its owner cannot be told, only leaving it oneself is possible
        &&& owner is Ok
        &&& owner->Ok_0 is None ==> match d.body { Some(Body::ChannelMemberBody(x)) => leaves(x, d.fid), _ => false }
        &&& {
            let r = role(s, id, d.fid, owner->Ok_0, b);
            &&& r is Some
            &&& match d.body {
                Some(Body::ChannelUpdateBody(x)) => r == Some(ChannelAuthorRole::Owner),
                Some(Body::ChannelMemberBody(x)) => {
                    &&& ChannelMemberAction::of(x.action) is Ok
                    &&& member(s.channel_member_store, id, x.fid, b) is Ok
                    &&& settings(s.channel_update_store, id, b) is Ok
                    &&& permitted(ChannelMemberAction::of(x.action)->Ok_0, r->Some_0, member(s.channel_member_store, id, x.fid, b)->Ok_0, d.fid == x.fid, mode(s, id, b), owner->Ok_0 == Some(x.fid))
                    // at most ten moderators
                    &&& ChannelMemberAction::of(x.action)->Ok_0 == ChannelMemberAction::AddModerator ==> moderators(s.channel_member_store, id, b) is Ok && moderators(s.channel_member_store, id, b)->Ok_0 < 10
                },
                _ => manages(r->Some_0),
            }
        }
    }
}
impl ChannelAdmissionBody<'_> {
//@fn src/storage/store/block_engine.rs::ChannelAdmissionBody::channel_id -> r
    ensures r@ == (match *self { ChannelAdmissionBody::Update(x) => x.channel_id@, ChannelAdmissionBody::Member(x) => x.channel_id@, ChannelAdmissionBody::Pin(x) => x.channel_id@, ChannelAdmissionBody::Moderate(x) => x.channel_id@ }),
//@endfn
}
// ---- verifications: quotas by what each transition grows
pub open spec fn tombstone_cap(max: u32) -> u32 { if max == 0 { 0 } else if max > 256 { max } else { 256 } }
pub open spec fn row_cap(max: u32) -> u32 { let n = max + tombstone_cap(max); if n > u32::MAX { u32::MAX } else { n as u32 } }
//@fn src/storage/store/block_engine.rs::verification_tombstone_cap -> r
    ensures r == tombstone_cap(max_messages),
//@endfn
//@fn src/storage/store/block_engine.rs::verification_row_cap -> r
    ensures r == row_cap(max_messages),
//@endfn
pub open spec fn existing(s: BlockStores, fid: u64, a: Seq<u8>, b: B) -> Result<Option<MessageType>, ()> {
    match verified(s.verification_store, fid, a, b) {
        Err(_) => Err(()),
        Ok(Some(_)) => Ok(Some(MessageType::VerificationAddEthAddress)),
        Ok(None) => match unverified(s.verification_store, fid, a, b) { Err(_) => Err(()), Ok(Some(_)) => Ok(Some(MessageType::VerificationRemove)), Ok(None) => Ok(None) },
    }
}
pub open spec fn rows(c: VerificationMessageCounts) -> int { c.live_adds + c.tombstones }
pub open spec fn fits(add: bool, was: Option<MessageType>, max: u32, c: VerificationMessageCounts) -> bool {
    &&& add ==> max > 0
    &&& match was {
        Some(MessageType::VerificationAddEthAddress) => true,
        Some(_) => add ==> c.live_adds < max,
        None => rows(c) < row_cap(max) && (if add { c.live_adds < max } else { c.tombstones < tombstone_cap(max) }),
    }
}
// what a merged message does to the books
pub open spec fn after(add: bool, was: Option<MessageType>, c: VerificationMessageCounts) -> (int, int) {
    let (a, t) = match was { Some(MessageType::VerificationAddEthAddress) => (c.live_adds - 1, c.tombstones as int), Some(_) => (c.live_adds as int, c.tombstones - 1), None => (c.live_adds as int, c.tombstones as int) };
    if add { (a + 1, t) } else { (a, t + 1) }
}
// no sequence of admitted verifications takes a user past the row cap, nor past the live limit
proof fn theorem_rows_are_bounded(add: bool, was: Option<MessageType>, max: u32, c: VerificationMessageCounts)
    requires fits(add, was, max, c), rows(c) <= row_cap(max), c.live_adds <= max
    ensures ({ let (a, t) = after(add, was, c); a + t <= row_cap(max) && a <= max }) {}
// whatever the limits, a removal of something on record is admitted
proof fn theorem_shedding_is_free(was: MessageType, max: u32, c: VerificationMessageCounts) ensures fits(false, Some(was), max, c) {}
impl VerificationMessageCounts {
//@fn src/storage/store/block_engine.rs::VerificationMessageCounts::counter_mut -> r
    ensures (r is Some) == (msg_type == MessageType::VerificationAddEthAddress || msg_type == MessageType::VerificationRemove),
        r is Some ==> *r->Some_0 == (if msg_type == MessageType::VerificationAddEthAddress { old(self).live_adds } else { old(self).tombstones }),
        final(self).live_adds == (if msg_type == MessageType::VerificationAddEthAddress { *final(r->Some_0) } else { old(self).live_adds }),
        final(self).tombstones == (if msg_type == MessageType::VerificationRemove { *final(r->Some_0) } else { old(self).tombstones }),
//@endfn
}
pub open spec fn type_of(n: i32) -> MessageType { match MessageType::of(n) { Ok(t) => t, Err(_) => MessageType::None } }
// ---- the books kept while a batch of verifications is replayed
pub open spec fn kind(m: Message) -> MessageType { match m.data { Some(d) => type_of(d.r#type), None => MessageType::None } }
impl Message {
//@fn proto/src/lib.rs::Message::msg_type -> r
    ensures r == kind(*self),
//@rw `proto::MessageType` => `MessageType`
//@endfn
}
pub open spec fn of_kind(s: Seq<Message>, k: MessageType) -> nat decreases s.len() { if s.len() == 0 { 0 } else { of_kind(s.drop_last(), k) + (if kind(s.last()) == k { 1nat } else { 0 }) } }
pub open spec fn verifications(s: Seq<Message>) -> bool { forall|i: int| 0 <= i < s.len() ==> kind(#[trigger] s[i]) == MessageType::VerificationAddEthAddress || kind(s[i]) == MessageType::VerificationRemove }
pub open spec fn brings(m: Option<Message>, k: MessageType) -> int { match m { Some(x) => if kind(x) == k { 1 } else { 0 }, None => 0 } }
pub open spec fn booked(a: VerificationMessageCounts, b: VerificationMessageCounts, g: proto::MergeMessageBody) -> bool {
    &&& b.live_adds == a.live_adds - of_kind(g.deleted_messages@, MessageType::VerificationAddEthAddress) + brings(g.message, MessageType::VerificationAddEthAddress)
    &&& b.tombstones == a.tombstones - of_kind(g.deleted_messages@, MessageType::VerificationRemove) + brings(g.message, MessageType::VerificationRemove)
}
pub open spec fn bookable(a: VerificationMessageCounts, g: proto::MergeMessageBody) -> bool {
    &&& verifications(g.deleted_messages@)
    &&& of_kind(g.deleted_messages@, MessageType::VerificationAddEthAddress) <= a.live_adds
    &&& of_kind(g.deleted_messages@, MessageType::VerificationRemove) <= a.tombstones
    &&& g.message matches Some(m) ==> kind(m) == MessageType::VerificationAddEthAddress || kind(m) == MessageType::VerificationRemove
    &&& a.live_adds - of_kind(g.deleted_messages@, MessageType::VerificationAddEthAddress) + brings(g.message, MessageType::VerificationAddEthAddress) <= u32::MAX
    &&& a.tombstones - of_kind(g.deleted_messages@, MessageType::VerificationRemove) + brings(g.message, MessageType::VerificationRemove) <= u32::MAX
}
pub open spec fn so_far(a: VerificationMessageCounts, now: VerificationMessageCounts, s: Seq<Message>) -> bool {
    verifications(s) && now.live_adds == a.live_adds - of_kind(s, MessageType::VerificationAddEthAddress) && now.tombstones == a.tombstones - of_kind(s, MessageType::VerificationRemove)
}
proof fn lemma_of_kind(s: Seq<Message>, n: int, k: MessageType) requires 0 <= n <= s.len() ensures of_kind(s.take(n), k) <= of_kind(s, k) decreases s.len() {
    if n < s.len() { assert(s.drop_last().take(n) =~= s.take(n)); lemma_of_kind(s.drop_last(), n, k); } else { assert(s.take(n) =~= s); }
}
pub enum BlockEngineError { HubError(HubError) }
//@fn src/storage/store/block_engine.rs::BlockEngine::apply_verification_count_delta -> r
    ensures (r is Ok) == bookable(vx_counts, *merge_message_body), r is Ok ==> booked(vx_counts, r->Ok_0, *merge_message_body),
//@rw `mut counts: VerificationMessageCounts` => `vx_counts: VerificationMessageCounts`
//@start
    let mut counts = vx_counts; let ghost vx_d = merge_message_body.deleted_messages@;
//@loop 0
    invariant so_far(vx_counts, counts, vx_d.take(vx_i0 as int)), vx_d == merge_message_body.deleted_messages@,
//@loopstart 0
    proof { let s = vx_d.take(vx_i0 + 1); assert(s.drop_last() =~= vx_d.take(vx_i0 as int)); assert(s.last() == vx_d[vx_i0 as int]);
        lemma_of_kind(vx_d, vx_i0 + 1, MessageType::VerificationAddEthAddress); lemma_of_kind(vx_d, vx_i0 + 1, MessageType::VerificationRemove); }
//@loopafter 0
    proof { assert(vx_d.take(vx_d.len() as int) =~= vx_d); }
//@endfn
// one merged verification that replaces at most what was on record in its slot books exactly the transition the gate judged
proof fn theorem_books(a: VerificationMessageCounts, b: VerificationMessageCounts, g: proto::MergeMessageBody, was: Option<MessageType>, max: u32)
    requires bookable(a, g), booked(a, b, g), g.message is Some, g.deleted_messages@.len() <= 1,
        was == (if g.deleted_messages@.len() == 0 { None::<MessageType> } else { Some(kind(g.deleted_messages@[0])) }),
        fits(kind(g.message->Some_0) == MessageType::VerificationAddEthAddress, was, max, a), rows(a) <= row_cap(max), a.live_adds <= max
    ensures rows(b) <= row_cap(max), b.live_adds <= max
{
    reveal_with_fuel(of_kind, 3);
    theorem_rows_are_bounded(kind(g.message->Some_0) == MessageType::VerificationAddEthAddress, was, max, a);
}
pub open spec fn lend_ok(e: BlockEngine, l: proto::LendStorageBody, d: MessageData, slot: StorageSlot, v: EngineVersion) -> bool {
    let k = StorageUnitType::spec_or_default(l.unit_type);
    &&& match purchased(e.stores, d.fid, v) { None => false, Some(p) => e.network == FarcasterNetwork::Mainnet ==> units(p, k) >= 1000 }
    &&& units(slot, k) >= l.num_units + (if enabled(v, ProtocolFeature::StorageLendingLimitFix) { 1int } else { 0 })
}
pub open spec fn verification_ok(e: BlockEngine, add: bool, a: Seq<u8>, d: MessageData, slot: StorageSlot, v: EngineVersion, b: B, c: VerificationMessageCounts) -> bool {
    &&& enabled(v, ProtocolFeature::VerificationsOnShardZero)
    &&& d.r#type == (if add { 7i32 } else { 8 })
    &&& enabled(version_at(d.timestamp as u64, e.network), ProtocolFeature::VerificationsOnShardZero)
    &&& existing(e.stores, d.fid, a, b) is Ok
    &&& fits(add, existing(e.stores, d.fid, a, b)->Ok_0, allowance(slot), c)
}
pub open spec fn channel_shaped(d: MessageData) -> bool {
    18 <= d.r#type <= 21 || match d.body { Some(Body::ChannelUpdateBody(_)) | Some(Body::ChannelMemberBody(_)) | Some(Body::ChannelPinBody(_)) | Some(Body::ChannelModerateBody(_)) => true, _ => false }
}
pub open spec fn body_admitted(e: BlockEngine, d: MessageData, slot: StorageSlot, v: EngineVersion, b: B, c: VerificationMessageCounts) -> bool {
    &&& d.body is Some
    &&& if channel_shaped(d) { enabled(v, ProtocolFeature::ChannelMessages) && channel_admitted(e.stores, d, b) } else { match d.body->Some_0 {
        Body::LendStorageBody(l) => lend_ok(e, l, d, slot, v),
        Body::KeyAddBody(_) | Body::KeyRemoveBody(_) => enabled(v, ProtocolFeature::GaslessSigners),
        Body::VerificationAddAddressBody(x) => verification_ok(e, true, x.address@, d, slot, v, b, c),
        Body::VerificationRemoveBody(x) => verification_ok(e, false, x.address@, d, slot, v, b, c),
        // everything else lives on the data shards
        _ => false,
    } }
}
pub open spec fn key_message(n: i32) -> bool { n == 16 || n == 17 }
pub open spec fn signer_key(s: BlockStores, b: B, m: Message) -> Option<ActiveKey> { match active_key(s.onchain_event_store, *s.db, b, m.data->Some_0.fid, m.signer@) { Ok(k) => k, Err(_) => None } }
pub open spec fn signed_by_active_key(s: BlockStores, b: B, m: Message) -> bool { match signer_key(s, b, m) { Some(k) => may(k, type_of(m.data->Some_0.r#type)), None => false } }
pub open spec fn lifetime(s: BlockStores, b: B, m: Message) -> Option<u32> {
    if key_message(m.data->Some_0.r#type) { None } else { match signer_key(s, b, m) { Some(ActiveKey::Gasless { ttl_seconds, .. }) => if ttl_seconds > 0 { Some(ttl_seconds) } else { None }, _ => None } }
}
pub open spec fn admitted(e: BlockEngine, m: Message, slot: StorageSlot, t: FarcasterTime, v: EngineVersion, b: B, c: VerificationMessageCounts) -> bool {
    &&& m.data is Some
    &&& match pro(e.stores.onchain_event_store, m.data->Some_0.fid, t) { Ok(p) => valid(m, e.network, p, t, v), Err(_) => false }
    &&& as_signed(m)
    &&& registration(e.stores.onchain_event_store, m.data->Some_0.fid, b) is Ok && registration(e.stores.onchain_event_store, m.data->Some_0.fid, b)->Ok_0 is Some
    &&& if key_message(m.data->Some_0.r#type) { enabled(v, ProtocolFeature::GaslessSigners) } else { signed_by_active_key(e.stores, b, m) }
    &&& body_admitted(e, m.data->Some_0, slot, v, b, c)
    &&& match lifetime(e.stores, b, m) { None => true, Some(ttl) => in_use(*e.stores.db, b, m.data->Some_0.fid, m.signer@, ttl, t.time) }
}
impl BlockEngine {
//@fn src/storage/store/block_engine.rs::BlockEngine::channel_validation_error -> r
//@endfn
//@fn src/storage/store/block_engine.rs::BlockEngine::verification_logical_key_type -> r
    ensures match existing(self.stores, fid, address@, txn_batch.batch@) { Ok(k) => r == Ok::<Option<MessageType>, MessageValidationError>(k), Err(_) => r is Err },
//@rw `.map_err(MessageValidationError::HubError)` => `.map_err(|vx_e: HubError| -> (vx_o: MessageValidationError) { MessageValidationError::HubError(vx_e) })`
//@rw `.map(|_| MessageType::VerificationRemove)` => `.map(|vx_m: Message| -> (vx_o: MessageType) ensures vx_o == MessageType::VerificationRemove { MessageType::VerificationRemove })`
//@endfn
//@fn src/storage/store/block_engine.rs::BlockEngine::channel_author_role -> r
    ensures match role(self.stores, channel_id@, author_fid, owner_fid, txn_batch.batch@) { Some(k) => r == Ok::<ChannelAuthorRole, MessageValidationError>(k), None => r is Err },
//@rw `.map_err(MessageValidationError::HubError)` => `.map_err(|vx_e: HubError| -> (vx_o: MessageValidationError) { MessageValidationError::HubError(vx_e) })`
//@endfn
//@fn src/storage/store/block_engine.rs::BlockEngine::validate_channel_message -> r
    ensures (r is Ok) == channel_admitted(self.stores, *message_data, txn_batch.batch@),
        r is Ok ==> channel_body(*message_data) is Some && r->Ok_0 == channel_body(*message_data)->Some_0.0,
//@rw `proto::ChannelMemberAction::try_from(member.action) == Ok(proto::ChannelMemberAction::RemoveMember)` => `vx_is_ok(proto::ChannelMemberAction::try_from(member.action), Ok(proto::ChannelMemberAction::RemoveMember))`
//@rw `.map_err(MessageValidationError::HubError)` => `.map_err(|vx_e: HubError| -> (vx_o: MessageValidationError) { MessageValidationError::HubError(vx_e) })`
//@rw `.map(|state| state.membership_mode)` => `.map(|state: ChannelUpdateState| -> (vx_o: MembershipMode) ensures vx_o == state.membership_mode { state.membership_mode })`
//@endfn
//@fn src/storage/store/block_engine.rs::BlockEngine::validate_user_message_with_verification_counts -> r
    ensures (r is Ok) == admitted(*self, *message, *storage_slot, *timestamp, version, old(txn_batch).batch@, verification_counts),
        // a channel message comes out with the store it goes to, which is that of its type and of its body; nothing else does
        r is Ok ==> (match r->Ok_0 { Some(k) => channel_body(message.data->Some_0) is Some && k == channel_body(message.data->Some_0)->Some_0.0, None => !channel_shaped(message.data->Some_0) }),
        final(txn_batch).batch@ == (match lifetime(self.stores, old(txn_batch).batch@, *message) {
            Some(ttl) if r is Ok => noted(*self.stores.db, old(txn_batch).batch@, message.data->Some_0.fid, message.signer@, message.data->Some_0.timestamp),
            _ => old(txn_batch).batch@ }),
//@rw `.map_err(MessageValidationError::HubError)` => `.map_err(|vx_e: HubError| -> (vx_o: MessageValidationError) { MessageValidationError::HubError(vx_e) })`
//@rw `crate::proto::message_data::Body::KeyAddBody(_) | crate::proto::message_data::Body::KeyRemoveBody(_) if` => `body if matches!(body, crate::proto::message_data::Body::KeyAddBody(_) | crate::proto::message_data::Body::KeyRemoveBody(_)) &&`
//@rw `body @ (crate::proto::message_data::Body::VerificationAddAddressBody(_) | crate::proto::message_data::Body::VerificationRemoveBody(_)) if` => `body if matches!(body, crate::proto::message_data::Body::VerificationAddAddressBody(_) | crate::proto::message_data::Body::VerificationRemoveBody(_)) &&`
//@endfn
}
} // verus!
fn main() {}
