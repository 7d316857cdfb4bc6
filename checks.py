"""What each check runs: harness group, entry functions, labels every run has to reach, bounds."""
TEXT = {"assumptions": [
    "rustc 1.71.1 and LLVM optimisation at opt-level 1 are trusted; the IR analysed is the one linked into the native replay binary",
    "z3 / cvc5 answers are trusted; every reported violation is re-run natively",
    "Keccak-256 of symbolic data is an uninterpreted injective function, consistent with the concrete hashes computed on the same path",
    "symbolic integers are printed and parsed in an equivalent letter form instead of decimal (their text is otherwise opaque to the code)",
    "single-threaded contract execution; failed transactions are rolled back as the chain does",
]}


def E(group, entry, *reach, **kw):
    return dict(group=group, entry=entry, reach=list(reach), **kw)


CHECKS = {
    "C01": dict(entries=[E("std", "c01_large", "quorum computed"), E("std", "c01_wide1", "quorum computed"), E("std", "c01_wide2", "quorum computed")] + [E("std", "c01_quorum1", "quorum computed"), E("std", "c01_quorum2", "quorum computed"), E("std", "c01_quorum3", "quorum computed"), E("std", "c01_quorum4", "quorum computed", thorough=True)],
                bounds="1 to 3 participants (thorough: 4), every 128-bit weight, every u64 threshold numerator and denominator; 1 or 2 participants with weights up to 2^255; 70 participants, one of which has any 128-bit weight",
                outside="other weights of more participants, or of more than 128 bits"),
    "C02": dict(entries=[E("std", "c02_build", "threshold built", "majority", "no majority", "refused"), E("std", "c02_decode", "threshold decoded", "majority decoded"), E("std", "c02_compare", "compared")],
                bounds="every u64 numerator and denominator, one or two thresholds",
                outside="serialized forms other than a pair of integer strings"),
    "C03": dict(entries=[E("std", "c03_long", "converted")] + [E("std", "c03_uint64", "converted", "deserialized", "refused"), E("std", "c03_uint128", "converted", "deserialized", "refused"), E("std", "c03_uint256", "converted", "deserialized", "refused"),
                         E("std", "c03_timestamp", "converted", "deserialized", "refused"), E("std", "c03_string", "converted", "deserialized", "refused"), E("std", "c03_vec", "converted", "deserialized", "refused")],
                bounds="every u64, u128 and 256-bit value, every u64 timestamp, short strings, vectors of up to 3 elements",
                outside="longer strings and vectors"),
    "C04": dict(entries=[E("std", "c04_large", "voted")] + [E("std", e, "vote accepted", "vote refused", thorough=t) for e, t in (("c04_step_2x1", 0), ("c04_step_3x1", 0), ("c04_step_2x2", 0), ("c04_history_2x2", 0), ("c04_history_3x1", 1))],
                bounds="one vote on any consistent poll state of 2 or 3 voters and 1 or 2 messages (every weight, quorum, expiry, height, earlier votes), and histories of 2 (thorough: 3) votes from a new poll; a poll of 300 items and 40 voters of equal weight, one of which votes differently on one item, with any expiry and height",
                outside="other large polls; weights of more than 128 bits"),
    "C05": dict(entries=[E("std", "c05_large", "finished")] + [E("std", e, "outcome", "no outcome", "consensus participant", "finished", "not finished", thorough=t) for e, t in (("c05_finish_2x1", 0), ("c05_finish_3x1", 0), ("c05_finish_2x2", 0), ("c05_finish_4x1", 1), ("c05_finish_3x2", 1))],
                bounds="finish on any consistent poll state of 2 to 3 voters and 1 or 2 messages (thorough: 4 voters, or 3 with 2 messages): every weight, quorum, expiry, height and vote; a poll of 300 items and 40 voters of equal weight, one of which voted differently on one item",
                outside="other large polls; weights of more than 128 bits"),
    "C29": dict(entries=[E("registry", "c29_step", "accepted", "refused", "stake paid back"), E("registry", "c29_other_ops", "accepted", "refused"), E("registry", "c29_ledger3", "accepted", "refused", "stake paid back"), E("registry", "c29_ledger4", "stake paid back", thorough=True)],
                bounds="one operation of any kind from any state of a worker in a registry of two services and three workers (every amount below 2^120, unbonding time, block time, period, minimum bond), and all histories of 3 (thorough: 4) bond, unbond and claim operations of two workers",
                outside="amounts whose sum exceeds 128 bits; funds attached to messages other than bonding"),
    "C30": dict(entries=[E("registry", "c30_near", "active worker")] + [E("registry", "c30_step_money", "accepted", "refused", "active worker", "inactive worker"), E("registry", "c30_step_admin", "accepted", "refused", "active worker", "inactive worker"),
                         E("registry", "c30_active", "active worker", "inactive worker"), E("registry", "c30_large", "active worker", "inactive worker"), E("registry", "c30_history", "accepted", "refused", "active worker", "inactive worker", thorough=True)],
                bounds="any state of two workers in one service, and one operation of any kind from any state of a worker next to another worker and another service (two chains, every amount below 2^120); 70 workers on up to 12 chains, all active except that the first or last has any bond and may be revoked, unbonding or undeclared; thorough: histories of 4 operations; pairs of services, workers and chains with nearly equal names",
                outside="other states of more workers, services or chains; longer histories"),
    "C26": dict(entries=[E("rewards", "c26_epoch", "before the first epoch", "epoch found"), E("rewards", "c26_update", "new epoch", "same epoch"), E("rewards", "c26_instantiated", "new epoch", "same epoch")],
                bounds="any stored epoch and duration, or a new contract; a participation, a parameter change and another participation at any block heights (numbers, heights and durations below 2^62)",
                outside="larger heights and durations; the record layout of the parameters in storage is assumed where an arbitrary stored epoch is used"),
    "C27": dict(entries=[E("rewards", "c27_near", "distributed"), E("rewards", "c27_events", "distributed")] + [E("rewards", "c27_share1", "paid", "not paid"), E("rewards", "c27_share2", "paid", "not paid"), E("rewards", "c27_share3", "paid", "not paid"), E("rewards", "c27_counting3", "paid", "reported again in a later epoch"), E("rewards", "c27_large", "paid", "not paid"),
                         E("rewards", "c27_share4", "paid", "not paid", thorough=True), E("rewards", "c27_counting4", "paid", "reported again in a later epoch", thorough=True)],
                bounds="one epoch with up to 3 (thorough: 4) workers, any event count, participation, u64 threshold and reward below 2^120; and any 3 (thorough: 4) participation messages over two contracts, events and workers at any heights in the first epochs, followed by a distribution; 70 workers of which one of six has any participation, with a threshold of one half; pairs of event ids, workers and contracts with nearly equal names; an epoch of 300 events of which a worker takes part in just below, at or above the threshold",
                outside="other participations of more workers; a contract reporting the same worker twice for the same event"),
    "C28": dict(entries=[E("rewards", "c28_wrap8", "distributed", "all distributed"), E("rewards", "c28_wrap12", "distributed", "all distributed")] + [E("rewards", "c28_distribute", "distributed", "epoch rewarded", "refused"), E("rewards", "c28_twice", "distributed", "epoch rewarded", "refused"), E("rewards", "c28_pools", "distributed", "epoch rewarded", "paid in", "refused"), E("rewards", "c28_large", "distributed", "refused"), E("rewards", "c28_thrice", "distributed", thorough=True)],
                bounds="up to 4 rewarded epochs of one contract next to another contract, any rewards and pools below 2^123, any epoch limit, any height in the first 7 epochs, any progress; two (thorough: three) distributions, or two deposits and a distribution; 25 epochs recorded by messages, then three distributions with any of five limits and any pool; histories in which epoch numbers pass 2^8 and 2^12",
                outside="other long histories"),
    "C10": dict(entries=[E("route", "c10_near", "routed")] + [E("route", "c10_batch1", "forwarded", "reported", "passed on", "refused"), E("route", "c10_batch2", "forwarded", "reported", "passed on", "refused"), E("route", "c10_batch3", "forwarded", "reported", "passed on", "refused"),
                         E("route", "c10_batch4", "forwarded", "reported", "passed on", "refused"), E("route", "c10_large", "forwarded", "reported", "passed on"), E("route", "c10_ids2", "forwarded", "reported", "passed on", "refused"), E("route", "c10_ids3", "forwarded", "reported", "passed on", "refused")],
                bounds="batches of 1 to 4 messages on two chains, any verification status of each, payload hashes with two arbitrary bytes; answers complete, with one or all entries missing, reordered, with entries for other ids, malformed or failed; ids partly from a list and partly with an arbitrary byte, repeated or not; and a batch of 70 messages of which all, none, one or all but one are verified; batches of messages under ids that differ in case, padding, prefix or one character of a long text",
                outside="other statuses in larger batches; answers with contradictory entries for the same id; an empty batch"),
    "C11": dict(entries=[E("route", "c11_near", "delivered", "queried", "unknown id")] + [E("route", "c11_history2", "delivered", "attempted by another", "queried", "unknown id"), E("route", "c11_history3", "delivered", "attempted by another", "queried", "unknown id"),
                         E("route", "c11_ids2", "delivered", "queried", "unknown id"), E("route", "c11_ids3", "delivered", "queried", "unknown id"), E("route", "c11_large", "delivered", "queried"), E("route", "c11_history2x3", "delivered", "attempted by another", "queried", "unknown id", thorough=True)],
                bounds="2 batches of up to 2 (thorough: 3) messages or 3 of one message from the router or others, over four ids (thorough: three in batches of 3) on two chains, and deliveries of up to 3 messages with arbitrary ids; payload hashes with two arbitrary bytes; queries of every id, of all known ids in two orders and of lists with an unknown id, or of any id; and 120 messages delivered at once, two of them again, and queried; histories of messages under ids that differ in case, padding, prefix or one character of a long text",
                outside="longer histories"),
    "C12": dict(entries=[E("route", "c12_any_sender1", "accepted", "refused", "delivered"), E("route", "c12_any_sender2", "accepted", "refused", "delivered"), E("route", "c12_history", "accepted", "refused"), E("route", "c12_sources4", "accepted", "refused", "delivered"), E("route", "c12_large", "accepted", "refused", "delivered")],
                bounds="batches of 1 or 2 messages from 8 senders (each gateway, nexus, replaced and unknown addresses, the roles, the router) over any freeze state of two registered chains and one unregistered chain; and histories of two freezes, unfreezes or gateway upgrades followed by a batch; batches of 4 from any mix of chains, and of 130 with at most one message of another chain",
                outside="more chains; other mixes in larger batches"),
    "C13": dict(entries=[E("route", "c13_near", "delivered")] + [E("route", e, "accepted", "refused", "delivered") for e in ("c13_batch2", "c13_batch3", "c13_batch4", "c13_nexus3", "c13_large")],
                bounds="batches of up to 4 messages from a gateway or the nexus gateway to any mix of two registered chains (any freeze state) and an unregistered one, equal or different ids, payload hashes with two arbitrary bytes; 3 messages of several chains from the nexus gateway under equal or different ids; batches of 130 with at most one message to another chain; batches of such near-equal ids",
                outside="more destinations; other mixes in larger batches"),
    "C14": dict(entries=[E("route", "c14_step", "frozen", "unfrozen"), E("route", "c14_history2", "frozen", "unfrozen"), E("route", "c14_history3", "frozen", "unfrozen", thorough=True)],
                bounds="any freeze state of two chains and 1 or 2 (thorough: 3) freeze or unfreeze operations, all direction combinations, a chain named in other letter case and an unknown chain",
                outside="more chains; longer histories"),
    "C15": dict(entries=[E("route", "c15_near", "one chain", "two chains")] + [E("route", "c15_step", "registered", "upgraded", "refused"), E("route", "c15_history2", "registered", "upgraded", "refused"), E("route", "c15_history3", "registered", "upgraded", "refused")],
                bounds="registrations and upgrades of two chains over three gateway addresses: one operation from any state of the two chains (any freeze state), and histories of 3 operations from a new router, with routing authority tried for every address and chain afterwards; pairs of chain names that differ in case, prefix or one character",
                outside="more chains or addresses; longer histories"),
    "C16": dict(entries=[E("roles", "c16_router", "allowed", "refused"), E("roles", "c16_multisig", "allowed", "refused"), E("roles", "c16_rewards", "allowed", "refused"), E("roles", "c16_registry", "allowed", "refused")],
                bounds="every assignment of the roles to three accounts (also one account with two roles), two operations of any kind one after the other, each sent by one of eight accounts (roles of the other contracts, gateways, workers) or, for privileged ones, by any account whose name has ten printable characters; symbolic bonds, epoch durations and heights",
                outside="longer histories; the prover and the verifiers, which have no privileged operation; message admission by sender (C11, C12, C17, C21)"),
    "C17": dict(entries=[E("route", "c17_near", "sent")] + [E("route", "c17_batch", "to nexus", "refused", "to the router"), E("route", "c17_history2", "to nexus", "refused", "to the router"), E("route", "c17_ids2", "all distinct", "some the same"), E("route", "c17_ids3", "all distinct", "some the same"),
                         E("route", "c17_history3", "to nexus", "refused", "to the router", thorough=True)],
                bounds="one batch of up to 3 messages, or two (thorough: three) batches of up to 2, in either direction from 4 senders over four ids on two chains; and up to 3 messages with arbitrary ids in up to two batches; messages under ids that differ in case, padding, prefix or one character of a long text",
                outside="longer histories"),
    "C18": dict(entries=[E("route", "c18_to_nexus", "denotes an index"), E("route", "c18_to_nexus_long", "denotes an index", "index too large"), E("route", "c18_other_ids", "carried as it is"), E("route", "c18_from_nexus", "from nexus", "and back"),
                         E("route", "c18_from_nexus_values", "from nexus", "and back"), E("route", "c18_from_nexus_long", "from nexus", "and back")],
                bounds="transaction ids of 1, 2, 3 and 32 arbitrary bytes (upper and lower case, with and without 0x), every u64 index from nexus, indices of up to 3 arbitrary digits or of up to 25 digits with 3 arbitrary ones towards nexus, payload hashes with three arbitrary bytes; and 13 ids of other forms",
                outside="transaction ids of other lengths; the decimal text of an index is checked at ten values"),
    "C31": dict(entries=[E("route", "c31_batch2", "batch failed", "batch done", "failure reported"), E("route", "c31_batch3", "batch failed", "batch done", "failure reported"), E("route", "c31_large", "batch failed", "batch done", "failure reported")],
                bounds="up to 3 messages of each kind (bank and wasm, arbitrary amount or content), any outcomes, run in order until the batch fails; and 300 messages of each kind of which ten (at the ends and around the 256th) may fail",
                outside="more messages; failures elsewhere in larger batches"),
    "C32": dict(entries=[E("route", "c32_request", "passed on"), E("route", "c32_query", "answered", "refused"), E("route", "c32_reply", "answered", "refused")],
                bounds="requests and answers for up to 3 messages with arbitrary statuses and two arbitrary bytes of each payload hash; failed, missing, empty and malformed answers",
                outside="more messages; other malformed answers"),
    "C06": dict(entries=[E("voting", "c06_next_id", "incremented")] + [E("voting", e, "verified", "not verified", *l, thorough=t) for e, l, t in (("c06_poll2x2", ("ended",), 0), ("c06_poll3x1", ("ended",), 0), ("c06_poll3x2", (), 0), ("c06_three_polls1", (), 0), ("c06_again1", ("polled again", "not polled again"), 0),
                         ("c06_again2", ("polled again", "not polled again"), 0), ("c06_mixed3", ("ended",), 0), ("c06_mixed4", ("ended",), 1), ("c06_large", ("ended",), 0), ("c06_many_polls", (), 0), ("c06_far_ids", (), 0), ("c06_workers", (), 0), ("c06_poll4x1", ("ended",), 1), ("c06_three_polls2", (), 1))],
                bounds="requests for 3 (thorough: 4) messages of which any are new, in an open poll or verified, with every vote of one worker; polls of up to 3 (thorough: 4) workers over up to 2 messages, every vote of every worker, every weight and quorum, any expiry and heights; two message polls and a worker-set poll at once; a message polled a second time; a poll of 70 messages (with any votes on one of four of them), 24 polls at once, and a poll with 40 workers, of equal weight; two polls whose ids differ by a power of two, or with the largest ids",
                outside="other votes or weights with more workers, messages or polls; weights are set in the stored poll, since the service registry reports the weight 1 for every worker"),
    "C07": dict(entries=[E("voting", "c07_large_foreign", "refused")] + [E("voting", "c07_request2", "poll", "no poll"), E("voting", "c07_request3", "poll", "no poll"), E("voting", "c07_quorum", "enough", "not enough"), E("voting", "c07_refused", "refused"), E("voting", "c07_large", "poll", "verified", "not verified")],
                bounds="requests for up to 3 messages (also repeated ones), each in any of 9 prior states, at any height and with any poll duration up to 40; every majority threshold with up to 4 active workers; empty requests, foreign messages at each place, failing or empty registry answers; a request for 70 messages, one of them asked for before, to 12 workers; a request for 70 messages of which one, at any of several places, is of another chain",
                outside="other states of the messages of larger requests"),
    "C08": dict(entries=[E("voting", "c08_boundary", "another set")] + [E("voting", "c08_sets1", "confirmed", "not confirmed"), E("voting", "c08_sets2", "confirmed", "not confirmed"), E("voting", "c08_again", "confirmed", "not confirmed"), E("voting", "c08_identity", "same set", "another set"), E("voting", "c08_large", "same set", "another set"), E("voting", "c08_sets3", "confirmed", "not confirmed", thorough=True)],
                timeout=1500,
                bounds="polls for two worker sets (up to 2, thorough: 3, workers) or for one set twice, every vote, weight and quorum; pairs of sets of two operators that differ in any weight or threshold below 2^64, and of 24 operators that differ in the threshold and in the weight and a byte of the address of one (the first, twelfth or last), or have one operator more or fewer; pairs of sets in which bytes move between neighbouring fields",
                outside="more workers; sets that differ elsewhere"),
    "C09": dict(entries=[E("voting", "c09_case"), E("voting", "c09_long", "same message", "different messages"), E("voting", "c09_forms")] + [E("voting", "c09_identity", "same message", "different messages"), E("voting", "c09_status", "same message", "different messages"), E("voting", "c09_boundary_source", "compared"), E("voting", "c09_boundary_chain", "compared"), E("voting", "c09_boundary_id", "compared")],
                bounds="pairs of messages whose texts have the same lengths (1 to 4 arbitrary lower case letters per field in four combinations, any index digit, two arbitrary bytes of the payload hash), and pairs whose fields differ in length by one character at each boundary; texts of up to some hundred characters that differ in one character; names and ids that differ in case, padding or form",
                outside="longer fields; other characters; keccak256 is an ideal hash (equal results only for equal inputs)"),
    "C19": dict(entries=[E("multisig", "c19_far", "signed", "one completed")] + [E("multisig", "c19_orders2", "completed", "not completed by this one"), E("multisig", "c19_orders3", "completed", "not completed by this one"), E("multisig", "c19_orders4", "completed", "not completed by this one"), E("multisig", "c19_large", "completed", "not completed by this one")],
                bounds="every order in which any of up to 4 workers (ecdsa and ed25519 keys) sign, every weight and threshold (128 bits, threshold up to three times as large), grace period and heights, next to a second session; 24 workers that sign in order or in reverse, with any threshold and any weight of the first or last; two sessions whose ids differ by a power of two, signed by any of 3 workers each",
                outside="other orders and weights of more workers; signature schemes are ideal inside the executor (a signature is valid only for its message and key) and real in the native runs; weights are set in the stored worker set"),
    "C20": dict(entries=[E("multisig", "c20_any", "accepted", "refused"), E("multisig", "c20_any_sessions", "accepted", "refused")],
                bounds="two sessions with overlapping worker sets (one worker with different keys in them); any subset of valid signatures at any heights, then one submission by any worker or an outsider to any session with a signature that is valid, by another key, over another message, garbled, too long or too short, at any height, for any weights, threshold and grace period",
                outside="longer histories; ideal signature schemes inside the executor"),
    "C21": dict(entries=[E("multisig", "c21_steps2", "started", "not started"), E("multisig", "c21_fresh", "started"), E("multisig", "c21_sets", "same set", "another set"), E("multisig", "c21_large", "started"), E("multisig", "c21_large_sets", "same set", "another set"), E("multisig", "c21_steps3", "started", "not started"), E("multisig", "c21_steps4", "started", "not started", thorough=True)],
                bounds="from any authorization of two callers, two operations of any kind (grants, revocations, starts with any 32-byte message or other lengths, registrations of keys and sets, a signature; 19 kinds), thorough: three of six kinds; session ids from any counter value; pairs of worker sets that differ in any weight or threshold below 2^64, a key or the creation height, also with 24 workers; 24 sessions of one worker set of which any one is signed",
                outside="longer histories; more callers; the callback address of a session, which the code does not use"),
    "C22": dict(entries=[E("prover", "c22_abi", "proof", "all signed"), E("prover", "c22_bcs", "proof", "all signed"), E("prover", "c22_bcs_wide", "proof", "too wide"), E("prover", "c22_ecdsa", "proof"), E("prover", "c22_pending", "pending"), E("prover", "c22_large", "proof")],
                bounds="worker sets of three operators (three key assignments, so every relative order of account and worker order), every weight and threshold below 2^256 (ABI) resp. 2^64 and 2^256 (BCS), every subset of signers, every session state the multisig can answer; real secp256k1 signatures and recovery for one fixed signed batch; 16 operators (BCS) with any weight of the first or last and any threshold below 2^64",
                outside="other weights and signers of larger worker sets; whether the external gateway's own code accepts the proof"),
    "C23": dict(entries=[E("prover", "c23_abi", "first set", "rotation proposed", "rotation with a proof", "another pending", "not due", "confirmed", "not confirmed"), E("prover", "c23_bcs", "first set", "rotation proposed", "rotation with a proof", "another pending", "not due", "confirmed", "not confirmed"), E("prover", "c23_deep", "first set", "confirmed", "rotation proposed", thorough=True), E("prover", "c23_large", "rotation proposed", "not due")],
                bounds="from instantiation, every sequence of three calls (UpdateWorkerSet, ConstructProof, ConfirmWorkerSet with either answer of the verifier) over five memberships (none, one, two, a changed key, three workers), every difference limit and all block heights in any order; thorough: four calls over two memberships; 20 workers (BCS) of which up to 19 leave, up to 5 join and up to 2 change their key",
                outside="longer histories; other changes among more than three workers; weights other than the constant one the service registry hands out in this version; two concurrent proposals within one block differing only in height"),
    "C24": dict(entries=[E("prover", "c24_ids", "compared"), E("prover", "c24_construct", "same batch", "twice", "refused"), E("prover", "c24_construct3", "same batch", "refused"), E("prover", "c24_any_id", "commanded"), E("prover", "c24_rotation", "same batch", "refused"), E("prover", "c24_stable", "stable"), E("prover", "c24_large", "same batch", "refused")],
                bounds="message ids: lists of at most two ids of one to seven printable characters each; one request for a message whose id is 1 to 4 printable characters; requests of two or three of four messages (fixed, duplicate and missing ids, another destination) in every order and repetition, with symbolic source addresses and payload hashes, both encodings, every chain id that fits, with and without a rotation due; requests of 10 and 40 messages in order and in reverse, one of them maybe for another chain",
                outside="other long lists; the order in which the commands of one batch appear in its data"),
    "C25": dict(entries=[E("prover", "c25_set", "encoded", "too wide"), E("prover", "c25_data", "encoded", "too wide"), E("prover", "c25_approval", "encoded", "impossible address"), E("prover", "c25_digest", "compared"), E("prover", "c25_large", "encoded"), E("prover", "c22_abi", "proof"), E("prover", "c22_bcs_wide", "proof", "too wide")],
                bounds="worker sets of up to three operators with every weight and threshold below 2^256; batches of at most two commands with any id, either type and parameters of 1 or 33 bytes, every chain id; decoding uses ethabi's and bcs' own decoders and a digest computed from the decoded data; sets of 24 operators (BCS) with any threshold and weight of one, and batches of up to 200 commands, the last with up to 300 bytes of parameters",
                outside="other contents of larger sets and batches; ethabi and bcs decoders are trusted (they are executed, not specified)"),
    "C35": dict(entries=[E("route", "c35_name1", "accepted", "refused"), E("route", "c35_name3", "accepted", "refused"), E("route", "c35_names", "equal", "different"), E("route", "c35_unicode", "equal", "different"), E("route", "c35_id_text", "accepted", "refused"),
                         E("route", "c35_ids", "equal", "different"), E("route", "c35_keys", "found", "not found"), E("route", "c35_payload_hash", "accepted", "refused")],
                bounds="chain names of up to 3 arbitrary printable characters and 12 with letters beyond ascii (parsed, converted and deserialized), pairs of them, id texts of up to 5 arbitrary characters, pairs of ids whose chain and id have 4 arbitrary characters together, any id of 4 letters against a fixed one as storage keys, payload hashes of 6 lengths with two arbitrary bytes",
                outside="longer texts, other characters beyond ascii (12 such names are tried), quotes and backslashes"),
    "C36": dict(entries=[E("multisig", "c36_key", "accepted", "refused"), E("multisig", "c36_signature", "accepted", "refused"), E("multisig", "c36_verify", "valid", "invalid"), E("multisig", "c36_registered", "registered", "replaced")],
                bounds="keys and signatures of 14 lengths from 0 to 320 with three arbitrary bytes, of both key types, converted and deserialized; every pair of four keys and two messages for verification; histories of 3 registrations by 3 workers of any type",
                outside="other lengths, longer histories; signature schemes are ideal inside the executor and real in the native runs; the additional recovery byte of a signature for the evm is not examined"),
}

NA = {
    "C33": "ampd depends on git-only crates that are not in the sandbox; it neither builds here nor is it linked into any harness, so its code cannot be executed symbolically (DESIGN.md)",
    "C34": "needs the events crates of the ampd stack, which do not build offline (DESIGN.md)",
}
