"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe='', hook=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))
V='src/core/validations/'; A='src/storage/store/account/'

p('C01','Only authentic messages are admitted',
 'A message passes validation only if its hash scheme is Blake3 and its hash is exactly the 20-byte Blake3 digest of the exact data bytes that are then interpreted (the supplied raw bytes when present, otherwise the encoding of the structured data), its signature scheme is Ed25519, and its signature is a strictly valid Ed25519 signature of that hash by the stated signer. Missing, empty or undecodable data is rejected, and when raw bytes are present every later rule is applied to the decoded bytes and never to the unsigned structured copy. A correctly hashed and signed well-formed message is not rejected for authenticity reasons. A page of messages taken from a peer while bootstrapping is accepted only if every user message in it has the Blake3 hash of its data bytes, its structured copy is exactly the data those bytes decode to, and it carries a valid Ed25519 signature of that hash by the stated signer; malformed keys and signatures are refused.',
 ['inputs'],'every message: all hash, signature, signer, raw-bytes and structured-data combinations','tests sample a few hand-built messages; one wrong comparison length or a rule applied to the unsigned copy is invisible to them',
 [V+'message.rs','src/storage/util.rs'],[('hash check',V+'message.rs::validate_message_hash'),('signature check',V+'message.rs::validate_signature'),('admission',V+'message.rs::validate_message'),('bootstrap admission','src/bootstrap/replication/service.rs::ReplicatorBootstrap::validate_messages_signatures')],observe='validate_message result')

p('C02','Admission gates: network, clock skew, size, feature gates',
 'On mainnet only mainnet messages pass, and elsewhere any defined network except none passes; when future-timestamp checking is active a message more than 600 seconds ahead of the block time is rejected and one at most 600 seconds ahead is not rejected for that reason; a storage loan dated more than 600 seconds before the block is rejected. The encoded data may not exceed 2048 bytes, except (once the corrected length check is active) 65536 for compact link state, 16384 for a cast by a pro user, and 16384 for a username proof when that limit increase is active. Channel bodies are rejected before channel messages are enabled, ENS-L1 name proofs are name-checked only once ENS validation is enabled, Basename proofs are rejected before Basenames are enabled, and other proof types always are.',
 ['inputs','configurations'],'every message type, size, timestamp, network, pro flag and protocol version','the product of version x type x tier x size boundary is far larger than the sampled cases',
 [V+'message.rs','src/version/version.rs'],[('timestamp gate',V+'message.rs::validate_timestamp'),('size and network gate',V+'message.rs::validate_message')],observe='validate_message result')

p('C03','Cast bodies are admitted exactly when well-formed',
 'A cast body is valid exactly when its text length in bytes fits its declared kind (0-320 normal, 321-1024 long, 1025-10000 ten-thousand-byte and pro only), it has at most 4 embeds (2 for non-pro users before the increase), deprecated string embeds appear only before the cutoff, number at most 2 and are never mixed with structured embeds, it has at most 10 mentions with one position each, positions non-decreasing and within the text, it is not empty, and every embed, deprecated embed URL, mention and parent is itself valid. A URL is valid when 1-256 bytes, a cast reference when its hash is exactly 20 bytes and its fid non-zero, a mention when its fid is non-zero. A cast removal is valid exactly when its target hash has 20 bytes.',
 ['inputs'],'every cast body, tier and version','length and ordering boundaries combine; tests pick a few',
 [V+'cast.rs',V+'mod.rs',V+'message.rs'],[('admission',V+'message.rs::validate_message'),('cast add',V+'cast.rs::validate_cast_add_body'),('embeds',V+'cast.rs::validate_embed'),('references',V+'mod.rs::validate_cast_id')],observe='validate_cast_add_body result')

p('C04','Link, reaction, frame and storage-loan bodies are checked completely',
 'A link body is valid exactly when its type has 1-8 bytes and it has a target with non-zero fid; compact link state additionally needs at least one target and every target fid non-zero. A reaction is valid exactly when its type number is defined and its target is present and valid (URL of 1-256 bytes, or a cast reference with 20-byte hash and non-zero fid). A frame action needs a button index of at most 5, a URL of 1-1024 bytes and other fields within their limits; a storage loan needs a defined unit type and at most 5000 units.',
 ['inputs'],'every body','boundary values and each element of a repeated field',
 [V+'link.rs',V+'reaction.rs',V+'message.rs',V+'mod.rs'],[('admission',V+'message.rs::validate_message'),('link',V+'link.rs::validate_link_body'),('reaction',V+'reaction.rs::validate_reaction_body'),('frame',V+'message.rs::validate_frame_action_body'),('loan',V+'message.rs::validate_lend_storage_body')],observe='validator results')

p('C05','Profile data and usernames obey their grammar',
 'A profile value is accepted exactly when it obeys its kind: at most 256 bytes for picture, bio, URL, banner (pro only) and live-status (only when enabled), at most 32 for display name; fnames are 1-16 characters of lowercase letters, digits and hyphens not starting with a hyphen; ENS names are such a label of at most 16 characters plus ".eth" with no subdomain, Basenames such a label plus ".base.eth"; Twitter names are at most 15 of [a-z0-9_] and GitHub names at most 38 ASCII letters, digits and non-consecutive hyphens not starting with one. A location is empty or "geo:lat,long" with exactly two decimals, |lat|<=90 and |long|<=180; primary addresses and profile tokens are accepted only when enabled, an Ethereum address must be a checksummed 20-byte 0x address and a Solana one 32 bytes of base58. Unknown kinds and the kind none are rejected.',
 ['inputs','configurations'],'every string for every kind, tier and protocol version','infinitely many strings, with byte-length versus character-length and anchoring traps',
 [V+'message.rs'],[('admission',V+'message.rs::validate_message'),('dispatch',V+'message.rs::validate_user_data_add_body'),('names',V+'message.rs::validate_fname, validate_ens_name, validate_base_name'),('location',V+'message.rs::validate_user_location')],observe='validator results')

p('C06','Address verifications prove control of the address',
 'An Ethereum verification passes only with a 20-byte address, a 32-byte block hash, a claim signature of at most 2048 bytes, a chain id in {0,1,5,10,420} and a verification kind of 0 or 1, and for kind 0 only if the 65-byte signature recovers exactly that address from the claim naming the same fid, address, block hash and network. A Solana verification passes only with a 32-byte address and block hash and a 64-byte signature by that address over the same claim. Unknown protocols are rejected, and removals need a correctly sized address for their protocol. A username transfer passes outside devnet only if its 65-byte signature over its name, timestamp and owner recovers the configured registry signer.',
 ['inputs'],'every verification body, fid and network','tests use a few recorded signatures; integer truncation or a claim field dropped from the digest passes them',
 [V+'verification.rs',V+'message.rs'],[('admission',V+'message.rs::validate_message'),('add',V+'verification.rs::validate_add_address'),('remove',V+'verification.rs::validate_remove_address'),('claim',V+'verification.rs::make_verification_address_claim')],observe='validator results')

p('C07','Channel message bodies and channel URIs are well-formed',
 'A channel body is valid exactly when its channel id is 32 bytes, any modes given are defined, a member change names a non-zero fid that fits 32 bits and a defined non-none action, a pin names no cast or a 20-byte cast hash, and a moderation names a 20-byte cast hash and a defined non-none action. A channel URI parses exactly when it is the canonical registrar URI for the network with a canonical decimal token id, and parsing is the inverse of rendering.',
 ['inputs'],'every body and every string','parsers have leading-zero, case, overflow and trailing-text traps',
 [V+'message.rs','src/core/channel_uri.rs'],[('admission',V+'message.rs::validate_message'),('bodies',V+'message.rs::validate_channel_member_body'),('URI','src/core/channel_uri.rs')],observe='validator and parser results')

p('C08','Gasless key changes are well-formed and custody-authorised',
 'A key addition is valid exactly when its key is 32 bytes, its key type Ed25519, its deadline non-zero, its time-to-live between 1 second and 90 days, its metadata a non-empty signed key request, and it lists 1-16 scopes each of which is an ordinary user message type - never a key, channel or none type; a removal needs a 32-byte key, a known signature kind and a non-zero deadline. The custody address recovered from a key change depends on every signed field and only on a 65-byte signature, and an app key request is accepted only if unexpired and its signature over its fid, key and deadline recovers its stated signer.',
 ['inputs'],'every body, signature and metadata blob','tests cannot enumerate scope lists, boundary lifetimes and mutated signed fields',
 [V+'key.rs',V+'message.rs'],[('admission',V+'message.rs::validate_message'),('add',V+'key.rs::validate_key_add_body'),('remove',V+'key.rs::validate_key_remove_body'),('metadata',V+'key.rs::verify_signed_key_request_metadata'),('custody',V+'key.rs::recover_key_add_custody_address')],observe='validator results')

p('C09','A delegated key acts only within its granted scope and life',
 'A key registered on chain may sign every message type, while a gasless key may sign exactly the message types listed in its grant: scope numbers outside 0-63 grant nothing and no grant leaks onto another type. What is reported for a signer is faithful: the grant\'s key type, scopes, nonce, lifetime and requesting app are copied, its creation time is the grant time in Unix seconds, and it expires exactly its lifetime after its last use when that is known.',
 ['inputs'],'every scope list and message type, every record','bit arithmetic is wrong only for particular numbers',
 [A+'active_key.rs','src/network/server.rs'],[('scope mask',A+'active_key.rs::compute_scopes_mask'),('admission',A+'active_key.rs::ActiveKey::admits'),('signer report','src/network/server.rs::signer_from_gasless_record')],observe='admits result, reported signer')

p('C10','Every node derives the same protocol version from chain time',
 'For each network the active protocol version is a function of block time alone: the last scheduled version whose activation time is not later than that time, never decreasing as time passes. A feature is active exactly from its introducing version onwards, so once on it stays on (the one exception is the early signer-revoke bug, present in versions 1 and 3 only), the version switch announced at a time is consistent with the schedule, and each schedule starts at time 0 and lists strictly increasing versions at non-decreasing times.',
 ['inputs','configurations'],'every network and every second of time, every version and feature','tests probe a few instants around known switch points',
 ['src/version/version.rs'],[('schedule','src/version/version.rs::EngineVersion::version_for'),('features','src/version/version.rs::EngineVersion::is_enabled')],observe='version_for / is_enabled results')

p('C11','Messages are routed to exactly one well-defined shard',
 'A user\'s ordinary messages always go to one shard between 1 and the number of shards, determined only by the user\'s fid through the first four bytes of the SHA-256 of its 32-bit big-endian form. Storage loans, key changes and channel messages always go to shard 0, verification changes do exactly when shard-zero verification is enabled, and nothing else ever does. While waiting to be proposed, a message is held on the one shard it is routed to, a chain event on shard 0 and on its user\'s shard, a username transfer on its user\'s shard (on every user shard once that is enabled) and a mirrored block event on the shard it names.',
 ['inputs','configurations'],'every fid, shard count, message type and protocol version','modulus and type-table errors show only for particular values',
 ['src/mempool/routing.rs','src/mempool/mempool.rs','src/storage/store/mempool_poller.rs'],[('fid routing','src/mempool/routing.rs::ShardRouter::route_fid'),('message routing','src/mempool/routing.rs::route_message'),('user of a waiting item','src/storage/store/mempool_poller.rs::MempoolMessage::fid'),('where items wait','src/mempool/mempool.rs::ReadNodeMempool::route_mempool_message')],observe='route_message result')

p('C12','Farcaster time conversions are exact inverses',
 'Protocol time counts whole seconds since 2021-01-01T00:00:00Z: converting Unix milliseconds rejects instants before that epoch or beyond 32-bit seconds and otherwise truncates to whole seconds, converting back gives the same second, and Unix-second conversions are exact inverses. Shifting a time forwards or backwards by n seconds changes it by exactly n, and later instants never convert to earlier protocol times.',
 ['inputs'],'every time value in range','off-by-one and unit errors at range ends',
 ['src/core/util.rs','src/core/types.rs'],[('to','src/core/util.rs::to_farcaster_time'),('from','src/core/util.rs::from_farcaster_time'),('FarcasterTime','src/core/util.rs::FarcasterTime')],observe='return values')

p('C13','Storage keys never collide and keep users and sets apart',
 'Two different records never share a storage key: for fids that fit 32 bits, the primary key of a message identifies its fid, its set, its timestamp and its hash and these can be read back from it, distinct message classes of a user live under distinct non-overlapping set numbers, and index keys of distinct kinds start with distinct prefixes. Within one user and set, keys sort by timestamp first and then by hash. A timestamp-hash needs a hash of exactly 20 bytes. Blocks and shard chunks are stored under their number so that keys sort by number, and indexed by time so that index keys sort by time.',
 ['inputs'],'every fid, message type, timestamp and hash; every pair of keys','injectivity is a statement about all pairs',
 [A+'message.rs',A+'cast_store.rs',A+'link_store.rs',A+'reaction_store.rs',A+'onchain_event_store.rs','src/storage/constants.rs'],[('primary key',A+'message.rs::make_message_primary_key'),('ts hash',A+'message.rs::make_ts_hash'),('sets',A+'message.rs::type_to_set_postfix'),('blocks','src/storage/store/block.rs::make_block_key'),('chunks','src/storage/store/shard.rs::make_shard_key')],observe='key bytes')

p('C14','Byte-string ordering and prefix bounds are exact',
 'Byte-string comparison is the total lexicographic order, with a proper prefix before its extensions and zero exactly for equal strings. The successor used as an exclusive upper bound for a prefix scan equals the big-endian number plus one, so that for every prefix not made only of 0xFF bytes it has the same length and, among strings at least as long as the prefix, exactly those starting with it lie between the prefix and it; the predecessor operation undoes the successor.',
 ['inputs'],'every pair of byte strings, every prefix','carry chains and length differences',
 ['src/storage/util.rs'],[('compare','src/storage/util.rs::bytes_compare'),('successor','src/storage/util.rs::increment_vec_u8')],observe='return values')

p('C15','Hub event ids are unique, ordered and reversible',
 'Event ids pack block height and in-block sequence so that both can be read back and ids sort by height then sequence; the ids of a block\'s ordinary events are strictly increasing, never repeat and have sequence at least 1, and its block-confirmed event always gets sequence 0. A height of 2^50 or more, or a sequence of 2^14 or more, is refused rather than wrapped.',
 ['inputs','histories'],'every height and sequence, every order of generated events','packing errors only appear near the bit limits or after thousands of events',
 [A+'event.rs'],[('packing',A+'event.rs::HubEventIdGenerator::make_event_id'),('generator',A+'event.rs::HubEventIdGenerator::generate_id')],observe='event ids')

p('C16','Sync-trie keys identify each record uniquely',
 'The sync key of a record begins with the virtual shard of its fid (the 256-way routing of the fid, minus one), then the 32-bit fid, then a type byte that keeps on-chain events (below 7), name transfers (7) and user messages (8 and above, type times eight) apart, then the record\'s identity (message hash; transaction hash and log index; name zero-padded to 20 bytes); decoding a key returns those parts and keys too short are rejected. A storage loan is keyed under both lender and borrower. For every event the keys to insert and delete are exactly those of the records it merged and of the records it deleted, pruned or revoked.',
 ['inputs','histories'],'every record and event','all pairs of records of different kinds; tests sample few',
 ['src/storage/trie/merkle_trie.rs'],[('keys','src/storage/trie/merkle_trie.rs::TrieKey::for_message'),('events','src/storage/trie/merkle_trie.rs::TrieKey::for_hub_event'),('decode','src/storage/trie/merkle_trie.rs::TrieKey::decode')],observe='key bytes')

p('C17','Trie page tokens and nibble paths round-trip; bad tokens are refused',
 'Splitting bytes into nibbles and joining them again is the identity, each nibble being below 16, high half first. Encoding a page token and decoding it returns the same path list, with absent and empty both meaning no token; any string that is not the encoding of a token is refused with an error, never with a crash and without reserving memory beyond a small multiple of the token\'s own size.',
 ['inputs'],'every byte string and every token string, including hostile ones','malformed tokens are infinitely many',
 ['src/storage/trie/util.rs'],[('nibbles','src/storage/trie/util.rs::expand_nibbles'),('token','src/storage/trie/util.rs::decode_trie_page_token')],observe='return values, allocation')

p('C18','Trie nodes hash by content and survive storage',
 'A leaf hashes to the 20-byte Blake3 digest of its key, an empty node to the empty string, and an inner node to the digest of its children\'s hashes in ascending child order, independent of insertion order. Serialising a node and reading it back preserves its key, item count, child set and child hashes, and hence its hash; the storage key of a node is determined by and determines its path.',
 ['inputs','histories'],'every node','map iteration order and field loss are not sampled',
 ['src/storage/trie/trie_node.rs'],[('hash','src/storage/trie/trie_node.rs::TrieNode::hash'),('codec','src/storage/trie/trie_node.rs::TrieNode::serialize')],observe='hash and bytes')

p('C19','Storage allowances are accounted exactly',
 'Combining storage grants adds the units of each kind separately and expires at the earlier expiry, expired grants contribute nothing, and subtracting removes exactly the units of an active grant; a storage loan yields exactly its units of exactly its kind. A user\'s limit for each store is the sum over unit kinds of units times that kind\'s published per-unit limit (legacy 5000/2500/2500/50/5/25/1, 2024 2000/1000/1000/50/5/25/1, 2025 100/200/200/25/2/5/1 for casts/links/reactions/profile/name proofs/verifications/loans). The kind cut-off times per network are the published ones.',
 ['inputs'],'every slot, unit count and store','swapped fields or a wrong product show only for particular mixes',
 [A+'onchain_event_store.rs','src/storage/store/stores.rs'],[('slots',A+'onchain_event_store.rs::StorageSlot'),('limits','src/storage/store/stores.rs::Limits, StoreLimits')],observe='limits and slots')

p('C20','Every height has one agreed validator set',
 'The validator set used at a height is the one configured for the shard with the greatest activation height not above that height (the earliest configured one when several tie), falling back to the first configured set; it contains exactly the configured keys. Adding a validator twice keeps one, removing leaves the others, membership tests and counts agree with the contents, and heights order by block number within a shard.',
 ['inputs','configurations'],'every configuration list and height','selection over arbitrary lists, unordered or with ties',
 ['src/consensus/validator.rs','src/consensus/consensus.rs','src/core/types.rs'],[('selection','src/consensus/validator.rs::StoredValidatorSets::get_validator_set'),('set','src/core/types.rs::SnapchainValidatorSet')],observe='selected set')

p('C21','Proposed values are kept until decided and then forgotten',
 'A proposed value can be looked up by its hash from the moment it is added until a height at or above its own is decided; deciding a height removes every value at that height or below and none above, and the count is the number of values held. The identity reported for a proposal is its own shard and the hash of its own block or chunk, its height is its own, and heights order by shard, then block number, with next and previous heights staying in the shard.',
 ['histories'],'every sequence of proposals and decisions','history property over arbitrary interleavings of heights',
 ['src/consensus/proposer.rs','src/core/types.rs','proto/src/lib.rs'],[('bookkeeping','src/consensus/proposer.rs::ProposedValues')],observe='lookups and counts')

p('C22','Conflicting messages resolve the same way in every order',
 'For messages that conflict (same user, same slot), the outcome is decided by a total order on timestamp, then kind (remove beats add), then hash (for casts a remove beats the add whatever the timestamps), so replicas that receive the same messages in any order keep the same winner. The order is total, antisymmetric and transitive.',
 ['histories','schedules'],'every set of conflicting messages and every arrival order','orders are permutations; tests try one or two',
 [A+'store.rs'],[('comparison',A+'store.rs::Store::message_compare')],observe='stored winner')

p('C23','Channel authority decisions follow the published table',
 'Whether an author may add, remove, promote, demote, ban or unban a target in a channel depends only on the author\'s role, the target\'s current state, whether the author is the target, the membership mode and whether the target is the owner: only owners appoint or dismiss moderators or ban a moderator, owners cannot be banned, a banned member can only be unbanned, owners and moderators manage members, and anyone may leave or, in open channels, join by themselves. Every other combination is refused.',
 ['inputs'],'all combinations of action, role, state, mode and flags','the table has hundreds of cells; tests cover some',
 ['src/storage/store/block_engine.rs'],[('decision','src/storage/store/block_engine.rs::channel_member_authority')],observe='decision')

p('C24','Channel state folds deterministically from channel messages',
 'Unset or none channel modes mean members-only casting and approval membership, and undefined modes are refused; each member action yields exactly its documented state (add and demote give member, promote moderator, remove and unban removed, ban banned) and each moderation its visibility. Slot and index keys identify the channel and the subject, distinct indexes never share keys, and fids beyond 32 bits are refused rather than truncated.',
 ['inputs'],'every channel message','sampled only',
 [A+'channel_store.rs'],[('modes',A+'channel_store.rs::fold_channel_modes'),('member state',A+'channel_store.rs::member_state_for_message'),('slots',A+'channel_store.rs::member_slot_suffix')],observe='states and keys')

p('C25','Pending messages are proposed in a fixed order',
 'In the mempool validator messages come before user messages, then earlier Unix time comes first, then identity; the key of a message depends only on its own content, with user messages identified by their hash, chain events by transaction hash and log index, transfers by id and block events by sequence number. Among live-status updates the one with the greater timestamp, then the greater hash, wins, and only live-status updates and key additions are treated as such.',
 ['inputs','schedules'],'every pair of messages','order properties quantify over all pairs',
 ['src/mempool/mempool.rs'],[('key','src/mempool/mempool.rs::MempoolKey'),('live-status','src/mempool/mempool.rs::live_at_lww_compare')],observe='key order')

p('C26','Write batches apply the last write per key',
 'A write batch holds for each key exactly the last put or delete issued for it, merging another batch lets the merged batch win per key and leaves other keys alone, and its length is the number of distinct keys. Storing a message puts exactly its own primary key and deleting it deletes exactly that key; a stored message reads back with its hash, signer, signature, raw bytes and data intact.',
 ['histories','inputs'],'every sequence of operations and every message','history property',
 ['src/storage/db/rocksdb.rs',A+'message.rs'],[('batch','src/storage/db/rocksdb.rs::RocksDbTransactionBatch'),('codec',A+'message.rs::message_encode')],observe='batch contents')

p('C27','Write access needs valid credentials',
 'When a user list is configured a request is authorised only if its authorization header is a Basic header whose base64 text decodes to exactly user:password for a listed user with exactly that password; everything else - missing, malformed, unknown user, wrong or partial password - is refused as unauthenticated. With no configured users every request is allowed.',
 ['inputs','configurations'],'every header and user list','hostile headers are unbounded',
 ['src/network/rpc_extensions.rs'],[('authentication','src/network/rpc_extensions.rs::authenticate_request')],observe='Ok / unauthenticated')

p('C28','Paging parameters are honoured and cannot escape their index',
 'A page request keeps the caller\'s page size, token and direction, treats an empty token as none and defaults to forward; channel listings additionally cap the page size at the server maximum and refuse a zero size. A page token is accepted only if it lies inside the requested index, multi-shard cursors survive encoding and end exactly when every shard is exhausted, and a time window includes exactly the messages whose timestamp is between its inclusive bounds (a bound beyond 32 bits counting as the last 32-bit second).',
 ['inputs'],'every size, token, direction and window','sampled only',
 ['src/network/rpc_extensions.rs','src/network/server.rs',A+'message.rs'],[('options','src/network/rpc_extensions.rs::page_options'),('channel options','src/network/server.rs::channel_page_options'),('prefix',A+'message.rs::require_page_token_in_prefix'),('window',A+'message.rs::is_message_in_time_range')],observe='page options and results')

p('C29','Username ownership has one winner and one index entry',
 'Between two proofs for a name the later timestamp wins and ties fall to the greater signature, as a total order. Registering a proof stores it under its name, makes the owner\'s fid point at it and removes the previous owner\'s pointer only when the owner changed; deregistering removes the previous owner\'s pointer. A name transfer received from the registry carries over its id, name, owner, signature, timestamp and both fids unchanged, and refuses malformed input.',
 ['inputs','histories'],'every pair of proofs and every transfer','re-registration by the same owner and tie cases are easy to miss',
 [A+'name_registry_events.rs',A+'user_data_store.rs','src/connectors/fname/mod.rs'],[('register',A+'name_registry_events.rs::put_username_proof_transaction'),('precedence',A+'user_data_store.rs::UserDataStore::username_proof_compare')],observe='batch contents')

p('C30','A verified address belongs to one deterministic user',
 'When several users verified the same address the owner is the one with the latest timestamp, then the greatest hash, then the smallest fid, whatever order the candidates are seen in; no candidates means no owner. The caps on retained verification rows follow the allowance: none when the allowance is zero, otherwise at least 256 removals on top of the allowance, without overflow.',
 ['inputs','schedules'],'every multiset of candidates in every order','permutations',
 [A+'verification_store.rs','src/storage/store/block_engine.rs'],[('winner',A+'verification_store.rs::select_verification_address_winner'),('caps','src/storage/store/block_engine.rs::verification_row_cap')],observe='winner')

p('C31','Peer-supplied addresses cannot steer a browser inwards',
 'The HTTP API base URL given out for a node is, for a node known to be offline, none; otherwise the non-empty URL of the known-node table; otherwise one derived from the host of the address its connection was observed at (first host component of the multiaddr, default HTTP port, IPv6 in brackets), except that no URL is derived when that host is an IP address, in whatever notation or IPv4-mapped into IPv6, that is private, loopback, link-local, unique-local, unspecified or broadcast. The table finds a node by its consensus key in any letter case, else by its peer id; a config entry replaces the whole entry it matches (by key, else by peer id), is added when it matches none, and is ignored when it carries neither key.',
 ['inputs'],'every observed address, table and config','address notations are many',
 ['src/network/mesh/nodes.rs'],[('resolve','src/network/mesh/nodes.rs::resolve_http_api_url'),('private','src/network/mesh/nodes.rs::is_private_host'),('table','src/network/mesh/nodes.rs::NodeRegistry')],observe='resolved URL, node found')

p('C32','Committed blocks carry a quorum of valid signatures',
 'A commit certificate is accepted only if validators of the set for that height holding more than two thirds of the voting power signed exactly that height, round and value, each counted once with a valid signature.',
 ['inputs','fault_sequences'],'every certificate and validator set','adversarial certificates are unbounded',
 ['src/core/util.rs','src/consensus/malachite'],[('verification','src/core/util.rs::verify_signatures')],observe='acceptance')

p('C33','Replication caches and progress stay bounded and truthful',
 'The replication message cache holds at most its budget of entries after an insertion (unless the inserted set alone is larger, which is then held alone), never evicts while everything fits and otherwise drops the least recently used sets and no more than needed, returns exactly what was last inserted under a key, and its size accounting equals the sum of the sizes it holds. Errors map to the documented RPC status so that retryable and permanent failures are never confused.',
 ['histories'],'every sequence of insertions','history property; accounting drifts only after repeats',
 ['src/network/replication/replicator.rs','src/network/replication/error.rs'],[('cache','src/network/replication/replicator.rs'),('status','src/network/replication/error.rs')],observe='cache contents, status codes')

p('C34','Stored snapshots reassemble exactly',
 'Writing a stream of bytes through the chunked snapshot writer yields chunks whose concatenation in order is exactly the bytes written, each full chunk having the configured size, whatever sizes the writes have.',
 ['histories','inputs'],'every sequence of writes and chunk size','boundary alignments',
 ['src/storage/db/multi_chunk_writer.rs'],[('writer','src/storage/db/multi_chunk_writer.rs')],observe='chunk files')

p('C35','System messages replay in canonical order',
 'Once sorted replay is active, on-chain events are replayed by ascending block number then log index and before all other system messages, with ties and all other messages keeping their given order; before that the given order is kept; nothing is lost or duplicated. A channel ownership event replaces the stored one exactly when it is not older by block, transaction and log position.',
 ['inputs','schedules'],'every list of system messages','permutations',
 ['src/storage/store/block_engine.rs',A+'onchain_event_store.rs'],[('replay order','src/storage/store/block_engine.rs::block_engine_system_messages_for_replay'),('channel order',A+'onchain_event_store.rs::incoming_channel_event_is_older')],observe='replay list')

p('C36','The REST gateway forwards requests faithfully',
 'Every REST request is translated to the RPC request with the same meaning: ids, fids, types and time bounds are carried over unchanged and to the right field, page size and direction are kept, and page tokens are decoded from their textual form; text that is not a valid hash, key or page token is refused (an optional leading 0x is not part of the value).',
 ['inputs'],'every request','dozens of near-identical translations; a swapped field compiles',
 ['src/network/http_server.rs'],[('translations','src/network/http_server.rs::FidRequest::to_proto')],observe='RPC request')

p('C37','The REST gateway renders messages faithfully',
 'Every message, event and signer returned as JSON shows exactly the stored content: hashes, keys and addresses in their documented encodings, each field in its own place, defined enumeration numbers as their documented names and undefined ones refused, optional fields present exactly when set. (Storage unit types, on-chain event kinds and single username proof types show the default name when the number is undefined; per-type counts of block confirmations, the event timestamp and unit purchase sizes are not part of the JSON.)',
 ['inputs'],'every message body','tests cover some body kinds with one value each',
 ['src/network/http_server.rs'],[('messages','src/network/http_server.rs::map_proto_message_to_json_message'),('events','src/network/http_server.rs::map_proto_hub_event_to_json_hub_event')],observe='JSON')

p('C38','The state root is a function of the set of keys alone',
 'Whatever sequence of insertions, deletions, reloads from disk and commits led there, the trie holding a set of keys has the root hash, item count and membership answers that this set determines: two tries holding the same set have the same root, a key is reported present exactly when it is in the set, an insertion or deletion reports for every key whether it changed anything, and every record written to or removed from the store is exactly the one the set requires, so a trie loaded again from disk is the same trie. (For keys of one network: none a prefix of another, all longer than 12 nibbles, fewer than 2^32 of them.)',
 ['inputs','histories'],'every history of key insertions and deletions, in any batches, with reloads between','two nodes reaching the same state by different histories must agree on the root; tests replay a few short histories with a handful of keys',
 ['src/storage/trie/trie_node.rs','src/storage/trie/merkle_trie.rs','src/storage/trie/util.rs'],[('insertion','src/storage/trie/trie_node.rs::TrieNode::insert'),('deletion','src/storage/trie/trie_node.rs::TrieNode::delete'),('splitting','src/storage/trie/trie_node.rs::TrieNode::split_leaf_node'),('hash','src/storage/trie/trie_node.rs::TrieNode::update_hash'),('loading','src/storage/trie/trie_node.rs::TrieNode::get_or_load_child'),('whole trie','src/storage/trie/merkle_trie.rs::MerkleTrie')],state=[('TrieNode','items, key, children and child hashes of one node','src/storage/trie/trie_node.rs::TrieNode'),('MerkleTrieNode records','serialized nodes by prefix','RootPrefix::MerkleTrieNode')],observe='root_hash, items, exists, insert and delete results, stored node records')
p('C39','A gasless key is granted and revoked only by those who may, and only once',
 'A key grant is accepted only when an app asked for it with the signature of the custody address registered for it (checked again only on shard 0), the custody address of the granting fid signed exactly this grant, the key is not registered on chain, is nobody else\'s and no other app\'s, the fid holds fewer than 1000 keys, and the nonce is above every nonce of that fid used before; a revocation only when the key is held and either the custody address signed it or the key itself sent it, with a nonce above every one used before for that fid or that app. An accepted grant or revocation changes exactly its counter, the key record, its owner, its last use and the count, announces itself together with what it replaces, and can never be accepted a second time. In every reachable state each key has at most one owner, the owner is the fid with the record, and the stored count of a fid is the number of its keys and at most 1000. A key expires exactly when its last noted use is more than its lifetime ago, and a use is noted when it is more than five minutes after the last.',
 ['inputs','histories'],'every grant, revocation and use, in every order, against every stored state','whoever can slip a grant through signs as somebody else; the tests try single grants on a fresh store',
 ['src/storage/store/account/gasless_key_merge.rs','src/storage/store/account/key_add_store.rs','src/storage/store/account/key_nonce_store.rs','src/storage/store/account/key_last_used_at_store.rs'],[('grant','src/storage/store/account/gasless_key_merge.rs::merge_key_add'),('revocation','src/storage/store/account/gasless_key_merge.rs::merge_key_remove'),('nonces','src/storage/store/account/key_nonce_store.rs::check_and_set_nonce'),('expiry','src/storage/store/account/key_last_used_at_store.rs::check_and_bump_last_used_at'),('count','src/storage/store/account/key_add_store.rs::increment_gasless_key_count')],state=[('gasless key rows','records, owners, counts, nonces and last uses','RootPrefix::GaslessKey')],observe='results of merge_key_add, merge_key_remove and check_and_bump_last_used_at, rows under RootPrefix::GaslessKey, emitted events')
p('C40','A message is admitted only as signed, by a key that may, within its rules',
 'A user message is accepted by a data shard or by shard 0 exactly when: its structured data is the data that was signed, it passes the stateless rules, its fid is registered, its signer is a key of that fid that is active now and whose scope covers the message type (grants and revocations excepted, which prove themselves), a username it sets or proves belongs to its fid by the records as they stand in the block being built, and the engine it reached stores that kind of message at all. Shard 0 adds: a lender must hold what it lends (and, on mainnet, a thousand units it bought itself); a verification must fit the live and the removed quota, so that no history of admitted messages leaves more rows than the cap, while shedding what is on record is always possible; a channel message must come from somebody with the authority for it, at most ten moderators. Admission changes nothing but the last use of an expiring key.',
 ['inputs','histories'],'every message, every stored state and every state of the batch under construction','whoever gets a message past the gate writes in another user\'s name or past his quota; the tests try one refused message per rule',
 ['src/storage/store/engine.rs','src/storage/store/block_engine.rs','src/core/validations/message.rs','src/storage/store/account/active_key.rs'],[('data shard','src/storage/store/engine.rs::ShardEngine::validate_user_message'),('shard 0','src/storage/store/block_engine.rs::BlockEngine::validate_user_message_with_verification_counts'),('channels','src/storage/store/block_engine.rs::BlockEngine::validate_channel_message'),('usernames','src/storage/store/engine.rs::ShardEngine::validate_username'),('signed data','src/core/validations/message.rs::validate_structured_data')],state=[('last use of expiring keys','written at most once per throttle','RootPrefix::GaslessKey')],observe='results of the validators on a message and a batch; validate_structured_data on encoded data')
p('C41','A user follows exactly the channels whose URI he likes, in both listings',
 'While channel follows are active, a user is listed as following a channel, since the time of his like, exactly while he has a live Like reaction whose target URL is the canonical URI of that channel in the registrar of the network; no other reaction, body, spelling, chain or contract makes or ends a follow, and without a registrar nobody follows anything. The listing of channels by user and of users by channel hold the same follows with the same times after every history of likes and unlikes, different follows never share a row, and a text names one channel at most and a channel has one text, so that unliking one never ends what another like expresses. Before activation nothing is written, and ending a follow never fails.',
 ['inputs','histories'],'every message and every history of likes and unlikes','the follow index lives outside the state root, so a wrong row is never noticed by consensus; the tests try a few likes of one channel',
 ['src/storage/store/account/reaction_store.rs','src/storage/store/account/store.rs','src/core/channel_uri.rs'],[('what a like follows','src/storage/store/account/reaction_store.rs::ReactionStoreDef::follow_channel_id'),('follow','src/storage/store/account/reaction_store.rs::ReactionStoreDef::insert_follow'),('unfollow','src/storage/store/account/reaction_store.rs::ReactionStoreDef::remove_follow'),('activation','src/storage/store/account/store.rs::FollowIndexGate::for_merge')],state=[('follow rows','[25][1][fid][channel] and [25][2][channel][fid], both the time of the like','RootPrefix::ChannelFollow')],observe='result of follow_channel_id, rows written by insert_follow and remove_follow, is_following')

p('C42','Chain look-ups follow the standards: name hashes, resolution, contract wallets',
 'The node of an ENS name is its EIP-137 hash: zero for the empty name, else the Keccak hash of the node of what follows its first label and of the Keccak hash of that label, the variation selector U+FE0F being dropped; so every name has exactly one node. A name resolves to the address that the resolver named by the registry configured for its chain gives for that node, and not at all when no registry is configured, the registry names no resolver, or a question fails. A signature of a wallet over a hash is valid exactly when the wallet has code on the chain and answers isValidSignature(hash, signature) with the ERC-1271 magic value in its first four bytes, or has none and the deployed off-chain validator, given wallet, hash and signature, answers with a first byte of one; a call that the chain says reverted means invalid, and any other failure gives no verdict, neither valid nor invalid. Chains are known by their numbers: 1 Ethereum, 10 Optimism, 8453 Base, no other.',
 ['inputs'],'every name, wallet, hash, signature and answer of the chain','whoever can make a wrong node, a short answer or a failed call count as an answer owns names and wallets that are not his; the tests hash five names and ask no chain',
 ['src/connectors/onchain_events/ens.rs','src/connectors/onchain_events/mod.rs','src/core/validations/contract_signature.rs'],[('name hash','src/connectors/onchain_events/ens.rs::namehash'),('resolution','src/connectors/onchain_events/mod.rs::RealL1Client::resolve_ens_name'),('contract-wallet signature','src/core/validations/contract_signature.rs::verify_signature'),('what a failed call means','src/core/validations/contract_signature.rs::reverts_mean_invalid'),('chain numbers','src/connectors/onchain_events/mod.rs::Chain::from_chain_id')],observe='results of namehash, resolve_ens_name and verify_signature against a JSON-RPC node that answers as told, and what that node was asked')

p('C43','What waits for a block: each message once, fit, within its user\'s allowance',
 'Whatever is submitted or gossiped, the queue of messages waiting for a block holds each message under its own key and under no other; a user message without data, or whose hash is not 20 bytes, is refused and never stops the node. A message is taken in for a shard only if it does not already wait or is not already merged there, its kind is active at the time, it is due on that shard, and the allowance of its user permits: at most one key addition a minute for each user (always, also with other limits off), heartbeats their own hourly bucket of 5000 for each storage unit, key removals never limited, everything else (key additions too), where limits are on, an hourly bucket of a tenth of the user\'s storage and at least 100, none without storage; no user\'s use of an allowance touches another\'s, and an allowance is remembered for at least its own window, through the traffic of at least a hundred thousand other users. An accepted message waits on every shard that must have it; taking one in loses nothing that waited except an older heartbeat of the same user, of which at most one waits on a shard, never displaced by an older one. A proposer is given no more than it asks for, each waiting message at most once, all of them still fit, without charging an allowance again; what leaves the queue unproposed was not fit. What a block holds no longer waits on its shard, and nothing else leaves with it.',
 ['inputs','histories'],'every message and sequence of messages, every queue, storage and clock','a user who outruns the allowances, or one message that stops the queue, denies the network to everybody; the tests send a handful of well-formed messages',
 ['src/mempool/mempool.rs','src/mempool/routing.rs'],[('insertion','src/mempool/mempool.rs::Mempool::insert'),('per shard','src/mempool/mempool.rs::Mempool::insert_into_shard'),('admission','src/mempool/mempool.rs::Mempool::message_is_valid'),('allowances','src/mempool/mempool.rs::Mempool::message_exceeds_rate_limits'),('key additions','src/mempool/mempool.rs::KeyAddRateLimits::consume_for_fid'),('heartbeats','src/mempool/mempool.rs::LiveAtRateLimits::consume_for_fid'),('storage allowance','src/mempool/mempool.rs::RateLimits::consume_for_fid'),('remembering','src/mempool/mempool.rs::RateLimitsConfig::default'),('proposals','src/mempool/mempool.rs::Mempool::pull_messages'),('committed','src/mempool/mempool.rs::Mempool::remove_committed_txns')],state=[('queue','what waits for each shard, by key','src/mempool/mempool.rs::Mempool::messages'),('heartbeat index','the heartbeat of each user that waits on each shard','src/mempool/mempool.rs::Mempool::live_at_messages_by_fid')],observe='what consume_for_fid answers for sequences of users, quotas and idle times of the limiters, and the queue before and after each insertion')

p('C44','A shard accepts and commits only blocks that reach the roots they name',
 'A shard accepts a proposed block exactly when executing its transactions in order over the committed state, with event numbers counted from the block\'s height, leaves after each transaction the account root that transaction names and after the last the shard root the block names; whatever was proposed, refused or validated before makes no difference. A refused block leaves no trace. The block a proposer makes is itself such a block, so every node holding the same committed state accepts it. Committing a decided block writes, in one batch together with the announcement of the block (its height, shard, hash, time, number of events and last block event), either what was kept of a validated block with the same shard root and the same block events, or else what executing this block now gives, and the state in memory is then that of what is stored. A new round forgets what an earlier one kept.',
 ['inputs','histories'],'every proposed and decided block, after every history of proposals and rounds','a block executed differently, or a leftover of a refused one, splits the node from the network; the tests propose, validate and commit in that order',
 ['src/storage/store/engine.rs'],[('validation','src/storage/store/engine.rs::ShardEngine::validate_state_change'),('execution','src/storage/store/engine.rs::ShardEngine::replay_proposal'),('proposal','src/storage/store/engine.rs::ShardEngine::prepare_proposal'),('commit','src/storage/store/engine.rs::ShardEngine::commit_shard_chunk'),('writing','src/storage/store/engine.rs::ShardEngine::commit_and_emit_events'),('what may be reused','src/storage/store/engine.rs::ShardEngine::is_cached_txn_valid')],state=[('kept block','writes, events and root of the block last validated in this round','src/storage/store/engine.rs::ShardEngine::pending_txn'),('trie','the state trie in memory','src/storage/store/engine.rs::ShardEngine::stores')],observe='result of validate_state_change; the batch commit_shard_chunk writes')

def main():
    out = '/verif/properties.jsonl' if len(sys.argv) < 2 else sys.argv[1]
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P))
main()
