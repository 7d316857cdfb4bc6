#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they are easy to edit."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

W = "packages/axelar-wasm-std/src/"
R = "contracts/connection-router/src/"
G = "contracts/gateway/src/"
V = "contracts/voting-verifier/src/"
M = "contracts/multisig/src/"
MP = "contracts/multisig-prover/src/"
RW = "contracts/rewards/src/"
S = "contracts/service-registry/src/"
N = "contracts/nexus-gateway/src/"
A = "contracts/aggregate-verifier/src/"

p("C01", "A snapshot's quorum is the exact ceiling of threshold times total weight",
  "For every set of weighted participants and every voting threshold, the quorum fixed in a snapshot is the smallest whole weight that is at least threshold x total weight, and the total is the sum of the participants' weights. Hence a threshold above one half never lets two disjoint groups of participants both reach the quorum, and the quorum never exceeds the total weight. Participants' weights and addresses are kept unchanged.",
  ["inputs"], "all participant weights and all thresholds",
  "Rounding errors appear only for particular weight/threshold combinations; the unit tests use a handful of fixed fractions.",
  [W+"snapshot.rs", W+"threshold.rs"], [("Snapshot::new", W+"snapshot.rs"), ("Threshold", W+"threshold.rs")],
  [("Snapshot", "participants, total weight and quorum at a block", W+"snapshot.rs")], ["snapshot fields", "poll quorum"])

p("C02", "Thresholds are exact fractions in (0,1], majority ones above one half",
  "A threshold can only be built, from numbers or from serialized input, when it is greater than zero and at most one; a majority threshold additionally only when numerator > half of the denominator. Two thresholds compare exactly as the rational numbers they denote, for all 64-bit numerators and denominators.",
  ["inputs"], "all numerators and denominators, direct construction and deserialization",
  "Overflow and rounding cases of cross-multiplication lie at extreme values that tests do not enumerate.",
  [W+"threshold.rs"], [("Threshold::try_from / partial_cmp", W+"threshold.rs"), ("MajorityThreshold::try_from", W+"threshold.rs")],
  [], ["construction result", "comparison result"])

p("C03", "Values of non-empty types are never empty or zero",
  "No value of a type that promises to be non-empty (string, list, integers, timestamp) ever holds an empty string, an empty list, zero or the zero time, whether it is converted from a plain value or deserialized from a message or from storage; every other value is accepted and kept unchanged.",
  ["inputs"], "all plain values and all serialized values of each type",
  "Tests construct values through the checked constructors; messages from users come through deserialization.",
  [W+"nonempty/uint.rs", W+"nonempty/string.rs", W+"nonempty/vec.rs", W+"nonempty/timestamp.rs"],
  [("TryFrom implementations", W+"nonempty/"), ("serde try_from", W+"nonempty/")], [], ["conversion result", "deserialization result"])

p("C04", "Polls count each participant's single timely vote, and nothing else",
  "A vote is accepted only from a participant of the poll who has not voted yet, before the poll expires, while it is not finished, and with one choice per poll item; a rejected vote changes nothing. After every sequence of votes, each item's tally for a choice is exactly the total weight of the participants who voted that choice.",
  ["inputs", "histories"], "all vote sequences, voters, choices, weights and block heights",
  "Tests sample a few voters with equal weights and never mix orders, expiry and rejections.",
  [W+"voting.rs"], [("WeightedPoll::cast_vote", W+"voting.rs"), ("Tallies", W+"voting.rs")],
  [("WeightedPoll", "tallies, quorum, expiry, participation", W+"voting.rs")], ["vote result", "poll state"])

p("C05", "A poll outcome is the choice reaching quorum; polls finish once, after expiry",
  "The outcome of a poll item is a choice if and only if the weight voted for that choice is at least the quorum; otherwise there is no outcome. A poll can be finished only once and not before its expiry, and finishing reports exactly the participants whose vote agreed with the outcome on every item that has one.",
  ["inputs", "histories"], "all weights, quorums, votes and block heights",
  "Needs all weight/quorum combinations, including exact ties with the quorum, and all finishing times.",
  [W+"voting.rs"], [("Tallies::consensus", W+"voting.rs"), ("WeightedPoll::finish / state", W+"voting.rs")],
  [("WeightedPoll", "status and expiry", W+"voting.rs")], ["poll state", "finish result"])

p("C06", "A message is verified only by a quorum of votes for that very message",
  "The verifier reports a message as verified exactly when participants with at least quorum weight voted that it succeeded on the source chain, on the item of exactly that message in its latest poll; votes for other messages, polls or worker sets never count. Ending a poll never changes an outcome, reports the outcomes reached, and records for rewards exactly the workers that voted with every outcome. A message that never was polled is reported as not verified.",
  ["inputs", "histories"], "all vote histories over polls with several messages, all weights, choices and heights",
  "Tests vote unanimously with equal weights on one poll; the property concerns mixed votes over several messages and polls.",
  [V+"execute.rs", V+"query.rs", V+"contract.rs", W+"voting.rs"], [("vote / end_poll", V+"execute.rs"), ("msg_verification_status", V+"query.rs")],
  [("POLLS, POLL_MESSAGES", "polls and the poll item of each message", V+"state.rs")], ["verification status query"])

p("C07", "Verified messages are not polled again, unresolved ones always can be",
  "Asking to verify messages opens a poll exactly for those messages that are neither verified nor in a poll that has not been ended, and answers for every asked message whether it is verified. Requests that are empty or name a message from another source chain are rejected without any effect, and every poll's participants are the active workers with the configured threshold and duration.",
  ["inputs", "histories"], "all prior verification states of the requested messages, all block heights and worker weights",
  "Every combination of per-message status in one request is needed; tests use single uniform batches.",
  [V+"execute.rs", V+"query.rs"], [("verify_messages", V+"execute.rs"), ("take_snapshot", V+"execute.rs")],
  [("POLL_MESSAGES", "latest poll of a message", V+"state.rs")], ["response data", "poll started event", "verification status query"])

p("C08", "A worker set is confirmed only by a quorum of votes for that very set",
  "The verifier confirms a worker set only when participants with at least quorum weight voted that the set was observed on the source chain, in the poll for exactly that set. A confirmed set cannot be put up for verification again.",
  ["inputs", "histories"], "all votes, weights and heights over polls for different worker sets and messages",
  "Tests vote unanimously on one worker set.",
  [V+"execute.rs", V+"query.rs"], [("verify_worker_set / vote", V+"execute.rs"), ("is_worker_set_verified", V+"query.rs")],
  [("POLL_WORKER_SETS", "poll of each worker set", V+"state.rs")], ["worker set verification query"])

p("C09", "Messages that differ never share a verification identity",
  "Two messages that differ in any field (id, source address, destination chain, destination address or payload hash) never get the same identity in the verifier, so the verification status of one is never reported for the other and no message can block the verification of another.",
  ["inputs"], "all pairs of well-formed messages",
  "A collision needs a specific pair of messages; the test only pins the identity of one message.",
  [R+"state.rs", V+"execute.rs", V+"query.rs"], [("Message::hash", R+"state.rs"), ("POLL_MESSAGES lookup", V+"query.rs")],
  [("POLL_MESSAGES", "keyed by the message identity", V+"state.rs")], ["message identity", "verification status"])

p("C10", "The gateway forwards to the router only messages its verifier confirmed",
  "When messages are submitted for routing, the gateway passes to the router exactly those its verifier reports as verified, each unmodified and once, and reports the others as not routed; when asked to verify, it passes on exactly the not yet verified ones. Requests naming the same message id twice are rejected, and nothing is ever forwarded when the verifier's answer does not cover a message.",
  ["inputs", "fault_sequences"], "all verifier answers (verified, unverified, missing, reordered, contradictory extra entries) for all batches",
  "The verifier's answer is an arbitrary response of another contract; tests use faithful mocks.",
  [G+"contract.rs"], [("route_messages / verify_messages / partition_by_verified", G+"contract.rs")], [], ["response messages", "events"])

p("C11", "The gateway keeps and returns exactly the messages the router delivered",
  "A message becomes an outgoing message only when the router itself sends it, and querying outgoing messages by id returns, in the order asked, exactly the content the router delivered, or fails if one id is unknown. No other sender or operation can add, change or remove an outgoing message.",
  ["inputs", "histories"], "all senders, batches and queried id lists",
  "Requires all interleavings of deliveries from router and attempts by others.",
  [G+"contract.rs", G+"state.rs"], [("route_messages (router sender)", G+"contract.rs"), ("query GetMessages", G+"contract.rs")],
  [("OUTGOING_MESSAGES", "messages delivered by the router", G+"state.rs")], ["query result"])

p("C12", "Only an unfrozen chain's own gateway can route, and only its own messages",
  "The router accepts a batch only if its sender is the registered gateway of a chain that is not frozen for incoming traffic and every message of the batch originates from that chain (the nexus gateway, which vouches for other chains, excepted). A rejected batch delivers nothing, and a batch that meets these conditions and whose destinations can receive it is not rejected.",
  ["inputs", "configurations"], "all senders, freeze states, and source chains of the messages in a batch",
  "The combination of sender, freeze mask and mixed batches is sampled at a few points only.",
  [R+"contract/execute.rs", R+"state.rs"], [("validate_msgs", R+"contract/execute.rs"), ("incoming_frozen", R+"state.rs")],
  [("chain_endpoints", "gateway and freeze mask per chain", R+"state.rs")], ["execute result", "response messages"])

p("C13", "Every accepted message reaches its destination's gateway unchanged and once",
  "For an accepted batch the router sends each message unmodified, exactly once and in batch order to the gateway registered for its destination chain, or to the nexus gateway if the destination is not registered and the batch did not come from there. If any destination is frozen for outgoing traffic (or unknown, for batches from the nexus gateway) the whole batch is rejected.",
  ["inputs", "configurations"], "all sequences of destinations in a batch, all freeze states of the destinations",
  "Grouping and routing depend on the order of destinations; tests use few orders.",
  [R+"contract/execute.rs", R+"state.rs"], [("route_messages", R+"contract/execute.rs"), ("outgoing_frozen", R+"state.rs")],
  [("chain_endpoints", "gateway and freeze mask per chain", R+"state.rs")], ["response messages"])

p("C14", "Freezing and unfreezing affect exactly the named directions of the named chain",
  "Freezing adds exactly the given directions to a chain's frozen directions and unfreezing removes exactly them, whatever was frozen before; no other chain and no gateway assignment changes. Each operation is announced by an event of its own kind naming the chain.",
  ["inputs", "histories"], "all sequences of freeze and unfreeze operations with all direction combinations",
  "All mask combinations and histories are needed; tests check selected ones and not the events.",
  [R+"contract/execute.rs", R+"state.rs", R+"events.rs"], [("freeze_chain / unfreeze_chain", R+"contract/execute.rs"), ("GatewayDirection flags", R+"state.rs")],
  [("ChainEndpoint.frozen_status", "directions frozen", R+"state.rs")], ["routing behaviour", "events"])

p("C15", "Each chain has one gateway and no gateway serves two chains",
  "Registering a chain or upgrading a gateway succeeds only if the chain is (not) registered and the address serves no other chain; afterwards the chain's only gateway is the new address, and the replaced address loses all authority. A newly registered chain is not frozen, an upgrade keeps the freeze state, and chain names that differ only in letter case denote the same chain.",
  ["inputs", "histories"], "all sequences of registrations and upgrades over several chains and addresses",
  "Requires all histories; tests check a few fixed ones.",
  [R+"contract/execute.rs", R+"state.rs"], [("register_chain / upgrade_gateway / find_chain_for_gateway", R+"contract/execute.rs"), ("ChainName", R+"state.rs")],
  [("chain_endpoints", "indexed by gateway address", R+"state.rs")], ["execute result", "routing authority"])

p("C16", "Privileged operations are refused to everyone but their designated role",
  "Each privileged operation (router chain registration, upgrade and freezing; multisig caller authorization; rewards parameters; service registration and worker authorization) is refused, without effect, for every sender other than the role configured for it, and is not refused to that role.",
  ["inputs"], "all senders and all privileged operations of every contract, in all freeze/authorization states",
  "Tests try one wrong sender for some operations; role mix-ups (admin vs governance vs other contracts) need the whole matrix.",
  [R+"contract.rs", M+"contract.rs", RW+"contract.rs", RW+"contract/execute.rs", S+"contract.rs"],
  [("require_admin / require_governance", "all contract.rs dispatchers")], [("CONFIG", "roles", "every contract")], ["execute result", "state"])

p("C17", "Each message is sent to nexus at most once, and only between router and nexus",
  "Messages leave towards nexus only when the router sent them and towards the router only when nexus sent them. Over any history, including repeats inside one batch, each message id is sent to nexus at most once and every message accepted from the router is sent once.",
  ["inputs", "histories"], "all histories of batches with repeated ids, all senders",
  "Needs duplicates across and inside batches; tests repeat whole batches against a mocked store.",
  [N+"contract/execute.rs", N+"state.rs"], [("route_to_nexus / route_to_router", N+"contract/execute.rs"), ("ROUTED_MESSAGE_IDS", N+"state.rs")],
  [("ROUTED_MESSAGE_IDS", "ids already routed", N+"state.rs")], ["response messages"])

p("C18", "Message conversion to and from the nexus format preserves the message",
  "A message handed to nexus carries the same source chain, source address, destination chain, destination address and payload hash, and the transaction id and index its message id denotes; a message from nexus becomes a router message with the same content and an id made of that transaction id and index. Ids of the form tx:index survive the round trip; an id of another form is carried as it is.",
  ["inputs"], "all transaction ids and indices, all payload hashes",
  "Index and id parsing have boundary cases (width, hex form, fallback) that examples do not enumerate.",
  [N+"nexus.rs"], [("From<router Message> / TryFrom<nexus Message>", N+"nexus.rs")], [], ["response messages"])

p("C19", "A signing session completes exactly when valid weight reaches its threshold",
  "A signing session is completed if and only if the participants whose valid signatures were accepted have a total weight of at least the worker set's threshold; completion is recorded once, with the block at which it happened, and is never undone. The session reports exactly the accepted signatures, the message, the worker set's weights and its threshold.",
  ["inputs", "histories"], "all weights, thresholds, signing orders and heights",
  "Exact threshold boundaries, unequal weights and every order of signers are needed.",
  [M+"signing.rs", M+"contract.rs", M+"contract.rs"], [("recalculate_session_state", M+"signing.rs"), ("submit_signature", M+"contract.rs")],
  [("SIGNING_SESSIONS", "state of each session", M+"state.rs"), ("SIGNATURES", "accepted signatures", M+"state.rs")], ["multisig query", "completion event"])

p("C20", "A signature counts only if valid, from a participant, in time, and once",
  "A signature is accepted only if its sender belongs to the session's worker set, it verifies for the session's message under the public key that the worker set lists for that sender, the sender has not signed that session before, and the session is not completed for longer than its grace period. A refused signature changes nothing; each accepted one produces exactly one participation record for its sender.",
  ["inputs", "histories"], "all senders, sessions, signature validities, repetitions and heights",
  "Tests check single rejections; combinations with several sessions, completion and grace periods are not covered.",
  [M+"signing.rs", M+"contract.rs", M+"state.rs"], [("validate_session_signature", M+"signing.rs"), ("save_signature", M+"state.rs")],
  [("SIGNATURES", "accepted signatures per session", M+"state.rs")], ["execute result", "multisig query", "rewards messages"])

p("C21", "Sessions are started only by authorized callers over registered worker sets",
  "A signing session is started only by a currently authorized contract, for a 32-byte message and an existing worker set, and gets a fresh session id never used before; its pinned message, worker set and chain never change afterwards. Authorizations are granted and revoked only for the named contract, and a worker set or public key registered earlier is never altered by somebody else.",
  ["inputs", "histories"], "all sequences of authorization changes and session starts by all callers",
  "Needs histories of authorize/unauthorize/start by several callers; tests check each once.",
  [M+"contract.rs", M+"state.rs"], [("start_signing_session / authorize_caller / register_pub_key", M+"contract.rs")],
  [("AUTHORIZED_CALLERS", "callers allowed to start sessions", M+"state.rs"), ("SIGNING_SESSION_COUNTER", "next id", M+"state.rs")], ["execute result", "response data", "queries"])

p("C22", "A finished proof carries just enough valid signatures, operators in order",
  "The signatures put into a completed proof are signatures the multisig accepted, each for its own operator, their total weight reaches the threshold, and dropping the lightest one included would miss it. All operators of the worker set appear with their own weight in ascending address order, and an unfinished session never yields a proof.",
  ["inputs"], "all weights, thresholds and subsets of operators that signed",
  "Depends on every subset and weight order; tests use equal weights.",
  [MP+"query.rs", MP+"encoding/mod.rs", MP+"encoding/abi.rs", MP+"encoding/bcs.rs", MP+"types.rs"],
  [("get_proof", MP+"query.rs"), ("CommandBatch::encode_execute_data / make_operators / optimize_signatures", MP+"encoding/mod.rs")], [], ["proof query"])

p("C23", "A prover changes its worker set only after confirmation of the pending set",
  "The prover's current worker set changes only by confirming the pending set after the verifier reports that set as confirmed; the confirmed set then is the current one, is registered for signing, and no set is pending. A rotation is proposed only when the active workers differ from the current set by more than the configured number, its transfer command is to be signed by the current set, and a different pending set is never overwritten.",
  ["inputs", "histories"], "all membership changes, thresholds, verifier answers and call orders",
  "Needs all differences between worker sets and all call orders; the tests cover a happy path and a few refusals.",
  [MP+"execute.rs"], [("update_worker_set / confirm_worker_set / should_update_worker_set", MP+"execute.rs")],
  [("CURRENT_WORKER_SET, NEXT_WORKER_SET", "current and pending set", MP+"state.rs")], ["worker set query", "response messages"])

p("C24", "A proof batch commands exactly the requested messages, and is stable",
  "Constructing a proof for a set of message ids yields commands for exactly the gateway's messages with those ids, each approving its own source, destination and payload, and is refused if one is missing or destined to another chain. The same ids in any order give the same batch within one block or while no worker set rotation is due, different ids another one; it is signed under its own digest by the current worker set and keeps its content in later requests.",
  ["inputs", "histories"], "all requested id lists and orders, and all gateway answers",
  "Needs all orders and gateway answers, including wrong-chain and short answers.",
  [MP+"execute.rs", MP+"encoding/mod.rs", MP+"types.rs", MP+"reply.rs"], [("construct_proof / get_messages", MP+"execute.rs"), ("BatchId", MP+"types.rs"), ("reply", MP+"reply.rs")],
  [("COMMANDS_BATCH", "batch by id", MP+"state.rs"), ("MULTISIG_SESSION_BATCH", "batch of each session", MP+"state.rs")], ["response messages", "proof query"])

p("C25", "On-chain encodings of weights, thresholds and operators lose nothing",
  "In both supported encodings, the operators, weights and threshold of a worker set that appear in transfer-operatorship parameters and in proofs decode back to the worker set's own values; values that do not fit the target format are refused, never truncated. The digest that is signed commits to the chain id and to every command of the batch in order.",
  ["inputs"], "all weights, thresholds, chain ids and payload hashes",
  "Overflow and layout errors show only at specific widths; tests compare a few constants.",
  [MP+"encoding/abi.rs", MP+"encoding/bcs.rs", MP+"encoding/mod.rs"], [("encode_data / transfer_operatorship_params / encode_execute_data", MP+"encoding/")], [], ["proof query", "sign request"])

p("C26", "Reward epochs are gapless, ordered and unaffected retroactively by updates",
  "At every height the current epoch is the one whose span contains that height: epochs have consecutive numbers, consecutive spans and last the configured duration; time never moves an epoch number backwards. Changing parameters starts at most one new epoch, at the current block, and never renumbers or moves past epochs; accounting for an epoch that begins after the change uses the changed parameters, one that began before keeps its own.",
  ["inputs", "histories"], "all durations, heights and parameter updates",
  "Arithmetic over heights and durations with boundaries at multiples of the duration; tests pick round numbers.",
  [RW+"contract/execute.rs", RW+"state.rs"], [("current_epoch / update_params", RW+"contract/execute.rs")],
  [("PARAMS", "stored parameters and the last updated epoch", RW+"state.rs")], ["distribution behaviour", "epoch of recorded participation"])

p("C27", "Each rewarded epoch pays qualified workers equally, within its reward",
  "For each processed epoch the workers whose participation reached the threshold share of that epoch's events, and only they, are paid the same amount: the epoch's reward divided by their number, rounded down. Participation, reported at most once per worker and event, is counted per contract and epoch of the event's first report, and events of other contracts or epochs never count.",
  ["inputs", "histories"], "all participation histories, thresholds, heights and reward amounts",
  "Requires all combinations of events, workers and epochs; tests use uniform participation.",
  [RW+"contract/execute.rs", RW+"state.rs"], [("record_participation / EpochTally::rewards_by_worker", RW+"contract/execute.rs")],
  [("TALLIES, EVENTS", "participation by contract and epoch", RW+"state.rs")], ["bank messages"])

p("C28", "No epoch is rewarded twice or early, and pools never pay more than they hold",
  "Over any history of distributions, each epoch of each contract is processed at most once, in order, only after the two following epochs have begun, and never more epochs than asked for. A contract's pool falls by exactly what is paid out and rises by exactly what is paid in; a distribution exceeding the pool is refused without effect, and one pool never pays for another contract.",
  ["inputs", "histories"], "all histories of deposits and distributions, all processing limits and heights",
  "Needs histories with arbitrary limits, heights and pool sizes.",
  [RW+"contract/execute.rs", RW+"state.rs", RW+"contract.rs"], [("distribute_rewards / process_rewards_for_epochs / add_rewards", RW+"contract/execute.rs")],
  [("POOLS, WATERMARKS", "pool balance and last processed epoch", RW+"state.rs")], ["bank messages", "execute result"])

p("C29", "Workers get back exactly the stake they bonded, only after the unbonding period",
  "The service registry pays a worker exactly the total it bonded in the service's denomination, once, and only after the worker unbonded and the full unbonding period elapsed; at no time do bonds leave funds behind that no worker can reclaim, or is more paid out than was bonded. Bonds that are not, or not only, in the service's denomination are refused.",
  ["inputs", "histories"], "all sequences of bond, unbond and claim with all amounts and times",
  "Needs all operation sequences, amounts and times, including extra coins and period boundaries.",
  [S+"contract.rs", S+"state.rs"], [("bond_worker / unbond_worker / claim_stake", S+"contract.rs"), ("BondingState", S+"state.rs")],
  [("WORKERS", "bonding state of each worker", S+"state.rs")], ["bank messages", "worker query"])

p("C30", "Active workers are exactly the authorized, sufficiently bonded, declared ones",
  "The active workers of a service for a chain are exactly those that are authorized, currently bonded with at least the service's minimum bond, and declared support for that chain; and a worker's record can be read back as it is. Bonding, authorizing or declaring in one service or chain never makes a worker active in another, and registered services are never overwritten.",
  ["inputs", "histories"], "all combinations of bond, authorization and declared chains, all amounts",
  "The conjunction over all state combinations and orders of operations is not sampled by tests.",
  [S+"contract.rs", S+"state.rs"], [("get_active_workers / get_worker", S+"contract.rs"), ("declare_chain_support / authorize", S+"contract.rs")],
  [("WORKERS, WORKERS_PER_CHAIN, SERVICES", "registry state", S+"state.rs")], ["queries"])

p("C31", "A batch fails only if a must-succeed message fails",
  "A batch passes on all given messages in order and unchanged: those that must succeed so that any failure reverts the batch, those that may fail so that a failure is reported in an event naming the message and does not affect the others.",
  ["inputs", "fault_sequences"], "all numbers of messages of both kinds, all outcomes",
  "Outcomes are decided by other contracts; tests try a few.",
  ["contracts/batching/src/contract.rs"], [("execute / reply", "contracts/batching/src/contract.rs")], [], ["response messages", "reply result"])

p("C32", "The aggregate verifier reports verified exactly what its verifier reports",
  "A verification request is passed on unchanged to the configured verifier, and the caller gets the verifier's own answer for each message; a status query returns the verifier's statuses unchanged. A failed or malformed answer is never turned into a success.",
  ["inputs", "fault_sequences"], "all message statuses and answers of the verifier",
  "The tests use a mock verifier whose answer format is their own.",
  [A+"contract.rs", "contracts/voting-verifier/src/contract.rs"], [("execute / reply / query", A+"contract.rs")], [], ["response data", "query result"])

p("C33", "Ampd votes and signs only according to finalized chain data and its own duties",
  "The worker daemon votes that an event succeeded only if the finalized source-chain transaction contains exactly that event, signs only sessions it participates in, and broadcasts each queued message in order without loss.",
  ["inputs", "schedules", "fault_sequences"], "all chain states, event streams, task interleavings and network faults",
  "Asynchronous interleavings and arbitrary RPC responses cannot be enumerated by unit tests.",
  ["ampd/src/handlers", "ampd/src/evm/verifier.rs", "ampd/src/queue", "ampd/src/broadcaster"], [("handlers and broadcaster", "ampd/src")], [], ["broadcast votes"])

p("C34", "Event decoding yields exactly the emitted attributes",
  "Decoding a chain event into a typed event succeeds only for the declared event type and originating contract and yields exactly the emitted attribute values.",
  ["inputs"], "all event types and attribute maps",
  "Tests decode a few sample events.",
  ["packages/events", "packages/events-derive"], [("try_from event macro", "packages/events-derive/src/lib.rs")], [], ["decoded values"])

p("C35", "Chain names and message ids read back as written; malformed ones never get in",
  "A chain name is accepted exactly when it is not empty and contains no colon, however it arrives (parsed, converted or deserialized), and always in lower case; a message id's text is accepted exactly when it has a chain name before and something after its first colon, where it is split. What is accepted prints, serializes and reads back as an equal value; different ids never print the same nor share a storage key; a payload hash is exactly 32 bytes.",
  ["inputs"], "all texts, lengths and pairs of ids",
  "Tests try a few handpicked texts; colliding or unreadable ones are rare.",
  ["contracts/connection-router/src/state.rs", "packages/axelar-wasm-std/src/hex.rs", "contracts/gateway/src/state.rs"], [("ChainName, CrossChainId: FromStr / TryFrom / Display / PrimaryKey", "contracts/connection-router/src/state.rs")], [], ["parse results", "printed and serialized texts", "gateway query result"])

p("C36", "Keys and signatures are accepted only in their type's format and never mixed up",
  "A public key is accepted, from a value or from a message, exactly when its length fits its type (ecdsa 33 or 65 bytes, ed25519 32), a signature exactly when it fits its key type (ecdsa 64, or 65 with recovery byte; ed25519 64); both read back unchanged. A signature verifies exactly under the key that made it for that very message, never under a key of another type. The key registered for a worker and type is returned unchanged for them and nobody else.",
  ["inputs", "histories"], "all keys, signatures, lengths, types, and registration histories",
  "Tests use one key and signature of each type.",
  ["contracts/multisig/src/key.rs", "contracts/multisig/src/contract.rs"], [("PublicKey / Signature TryFrom, Deserialize, verify", "contracts/multisig/src/key.rs"), ("register_pub_key / get_public_key", "contracts/multisig/src/contract.rs")], [("PUB_KEYS", "worker and key type to key", "contracts/multisig/src/state.rs")], ["conversion results", "verify result", "query result"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
