#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one python call per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               **({"observe_at": observe} if observe else {}),
                               hook_needed=None)))

NOT_RUN = ("The only test that runs offline is the program-id test; the SBF scenario test follows one happy path, ")

# ---------------------------------------------------------------- VRF
prop("V01", "Verifiers enforce both group relations over the full transcript",
 "Both the on-chain and the off-chain verifier accept a proof only if s*G = U + c*PK and s*H = V + c*Gamma both hold, where H is derived from the input and the challenge c is derived from all of Gamma, U, V, the public key and the input. An element or scalar that does not decode is rejected, never accepted and never skipped.",
 ["inputs"], "every public key, input, output and proof triple, including malformed encodings",
 NOT_RUN + "which verifies one honest proof; nothing feeds altered, truncated or substituted proof elements.",
 ["api/src/verify.rs", "vrf/src/vrf.rs"], [("on-chain verifier", "api/src/verify.rs: verify_vrf"), ("off-chain verifier", "vrf/src/vrf.rs: verify_vrf")])
prop("V02", "Honest proofs always verify, on-chain and off-chain",
 "For every secret key and every 32-byte input, the output and proof produced by the prover are accepted under the matching public key by the off-chain verifier and by the on-chain verifier. Prover and verifiers therefore use the same domain separators, transcript order, hash-to-point and hash-to-scalar.",
 ["inputs"], "every secret scalar and every 32-byte input",
 NOT_RUN + "covering a handful of inputs under one key; completeness quantifies over all keys and inputs.",
 ["api/src/verify.rs", "vrf/src/vrf.rs", "api/src/consts.rs", "vrf/src/consts.rs"], [("prover", "vrf/src/vrf.rs: compute_vrf"), ("verifiers", "api/src/verify.rs, vrf/src/vrf.rs: verify_vrf")])
prop("V03", "The two verifiers decide identically",
 "Given the same public key, input, output and proof, the on-chain verifier and the off-chain verifier reach the same verdict, so an oracle's local self-check predicts the chain's decision. They agree on every domain separator, on the transcript and on the equations checked.",
 ["inputs"], "every public key, input, output and proof triple",
 "No test compares the two implementations on anything but an honest proof; agreement must hold on invalid proofs too.",
 ["api/src/verify.rs", "vrf/src/vrf.rs"], [("on-chain verifier", "api/src/verify.rs"), ("off-chain verifier", "vrf/src/vrf.rs")])
prop("V04", "Output and proof are a deterministic function of key and input",
 "The VRF key pair is a deterministic function of the oracle's identity keypair (the public key being the secret scalar times the base point), and the VRF output and proof are a deterministic function of that secret scalar and the input only. No clock, RNG or ambient state influences them, and the output depends on both the secret and the input.",
 ["inputs", "histories"], "every keypair, every input, every repetition",
 "A test can compare two runs; independence from all ambient state is a claim about every run.",
 ["vrf/src/vrf.rs"], [("key generation", "vrf/src/vrf.rs: generate_vrf_keypair"), ("prover", "vrf/src/vrf.rs: compute_vrf")])
prop("V05", "A proof does not expose the secret key: nonce is secret and per-input",
 "The proof nonce is derived from both the secret scalar and the input, so it is unpredictable without the key and never shared between two different inputs, and it is never published. The secret scalar leaves the prover only inside the output (secret times hashed point) and the Schnorr response nonce + challenge*secret.",
 ["inputs", "histories"], "every secret key and every sequence of inputs proven under it",
 "Nonce reuse or a public nonce produces proofs that verify perfectly; no functional test notices.",
 ["vrf/src/vrf.rs"], [("nonce derivation (HKDF over sk||input)", "vrf/src/vrf.rs: compute_vrf"), ("key derivation", "vrf/src/vrf.rs: generate_vrf_keypair")])
prop("V06", "The VRF output is unpredictable without the secret key",
 "Nobody who knows only public data (the public key, the input and the published constants) can compute the VRF output for an input before the oracle reveals it. In particular the discrete logarithm of the hashed-to-curve point with respect to the base point must not be computable from the input.",
 ["inputs"], "every input and every public key",
 "Predictable outputs verify exactly like unpredictable ones; tests only check acceptance.",
 ["api/src/verify.rs", "vrf/src/vrf.rs"], [("hash to point", "api/src/verify.rs, vrf/src/vrf.rs: hash_to_point")])

# ---------------------------------------------------------------- fulfilment
prop("F01", "Randomness is delivered only with a valid proof by the oracle's stored key",
 "A consumer callback is invoked only after the submitted proof has been verified against the VRF public key that the program itself stored when the signing oracle was registered, for the identifier of a request pending in the queue. If verification fails the instruction fails and nothing is delivered, removed or paid.",
 ["inputs", "histories"], "every fulfilment instruction, every account list and every queue content",
 NOT_RUN + "with one honest oracle; forged proofs, foreign keys and substituted accounts are never submitted.",
 ["program/src/provide_randomness.rs", "api/src/verify.rs"], [("proof check before removal and callback", "program/src/provide_randomness.rs: process_provide_randomness"), ("typed oracle account load", "api/src/steel.rs: as_account")])
prop("F02", "The delivered value is determined solely by the proven output",
 "The 32-byte random value handed to the consumer is the hash of exactly the VRF output whose proof was verified in the same instruction. No other instruction field, account or on-chain value influences it.",
 ["inputs"], "every successful fulfilment",
 "The scenario test never inspects the value the callback receives.",
 ["program/src/provide_randomness.rs"], [("randomness derivation", "program/src/provide_randomness.rs")])
prop("F03", "Each pending request is fulfilled exactly once",
 "A successful fulfilment removes exactly the one pending request whose identifier was proven and invokes its callback exactly once; the removal is recorded before the callback runs, so a re-entrant or later fulfilment of the same request fails. Fulfilment of an identifier that is not pending fails.",
 ["histories", "inputs"], "every history of requests, fulfilments (also re-entrant ones) and purges",
 NOT_RUN + "never fulfilling twice or out of order.",
 ["program/src/provide_randomness.rs", "api/src/state/queue.rs"], [("lookup and removal", "program/src/provide_randomness.rs; api/src/state/queue.rs: find_item_by_id, remove_item")])
prop("F04", "The callback is executed exactly as the consumer recorded it",
 "The callback goes to the program recorded in the request, with instruction data equal to the recorded discriminator, then the 32 random bytes, then the recorded arguments, and with account list equal to the VRF identity followed by the recorded accounts in order with their recorded writability. Values supplied by the oracle at fulfilment cannot alter any of these.",
 ["inputs"], "every pending request and every fulfilment instruction",
 "The scenario callback takes no accounts or arguments, so ordering, lengths and flags are never observed.",
 ["program/src/provide_randomness.rs", "api/src/state/queue.rs"], [("callback construction", "program/src/provide_randomness.rs"), ("recorded metas/args views", "api/src/state/queue.rs: QueueItem")])
prop("F05", "A callback carries no signer authority except the VRF identity",
 "In the callback only the VRF program's own identity address is a signer, and it is read-only; every consumer-recorded account is passed as a non-signer. A request naming the fulfilling oracle's identity among its callback accounts is refused, so a consumer can never obtain the oracle's signature or touch its account.",
 ["inputs"], "every recorded account list, including ones flagged as signers or naming the oracle",
 "No test records signer accounts or the oracle's own key.",
 ["program/src/provide_randomness.rs", "api/src/state/queue.rs"], [("signer stripping", "api/src/state/queue.rs: to_account_meta"), ("oracle exclusion", "program/src/provide_randomness.rs"), ("identity seeds", "program/src/provide_randomness.rs; api/src/state/mod.rs: program_identity_pda")])
prop("F06", "Fulfilment happens in a strictly later slot than the request",
 "A request can be fulfilled only when the current slot is strictly greater than the slot in which it was recorded; a fulfilment in the same (or an earlier) slot fails.",
 ["inputs", "schedules"], "every pair of request slot and fulfilment slot",
 "The scenario test always warps forward first.",
 ["program/src/provide_randomness.rs"], [("slot comparison", "program/src/provide_randomness.rs")])
prop("F07", "Only the queue's own registered oracle can fulfil from it",
 "A fulfilment succeeds only if the oracle identity signed the transaction, its registration account is the genuine program-owned one for that identity, and the queue is the program-owned queue derived from that same identity and the queue's own index. Another oracle, an unregistered key or a look-alike account is refused.",
 ["inputs"], "every signer and every account substitution",
 NOT_RUN + "always with the right accounts.",
 ["program/src/provide_randomness.rs"], [("signer, seeds and owner checks", "program/src/provide_randomness.rs")])

# ---------------------------------------------------------------- request
prop("R01", "A request can be made only by the program that will be called back",
 "A randomness request is recorded only if the paying account signed and the identity address derived from the declared callback program also signed. No party can therefore schedule a callback into a program that did not itself make the request.",
 ["inputs"], "every account list and every declared callback program",
 "The scenario test only makes well-formed requests through the sample consumer.",
 ["program/src/request_randomness.rs"], [("payer and program identity signer checks", "program/src/request_randomness.rs")])
prop("R02", "The request identifier binds caller input and unpredictable chain state",
 "The identifier that becomes the VRF input is a hash over the caller seed, the current slot, the latest slot hash, the callback discriminator, the callback program, the block time and the position in the queue. The slot hash is read from the genuine SlotHashes sysvar account, and the caller cannot choose any of the chain-derived parts.",
 ["inputs"], "every request instruction and every account passed as the slot-hash source",
 "Tests cannot show that each ingredient influences the identifier for all values or that a forged sysvar is refused.",
 ["program/src/request_randomness.rs"], [("combined hash", "program/src/request_randomness.rs"), ("sysvar check", "api/src/steel.rs: is_sysvar")])
prop("R03", "A request is recorded faithfully",
 "The queue entry created by a request carries the current slot, the request identifier, the callback program, discriminator, account list (address and writability, in order) and arguments exactly as submitted, and it is marked high-priority exactly when the high-priority instruction was used.",
 ["inputs"], "every request payload and both request instructions",
 "The scenario test checks only the number of entries.",
 ["program/src/request_randomness.rs", "api/src/state/queue.rs"], [("entry construction", "program/src/request_randomness.rs"), ("append", "api/src/state/queue.rs: add_item")])
prop("R04", "Requests are written only into genuine, initialised oracle queues",
 "A randomness request modifies the supplied queue account only if that account is owned by the VRF program and carries the queue type tag. Passing any other account, such as the oracle registry, an oracle record or a half-allocated queue, fails without modifying it.",
 ["inputs"], "every account that can be passed in the queue position",
 "The scenario test passes only initialised queues.",
 ["program/src/request_randomness.rs", "api/src/state/queue.rs"], [("queue account validation", "program/src/request_randomness.rs"), ("queue type tag check", "api/src/state/queue.rs: Queue::try_from_bytes")])
prop("R05", "Oversized requests and full queues are rejected, never truncated",
 "A request with a callback discriminator longer than 8 bytes, more than 20 callback accounts, or more than 512 argument bytes is rejected, and so is one that does not fit in the remaining queue space. A rejected request leaves no partial entry, and an accepted one is stored without truncation.",
 ["inputs", "histories"], "every payload size and every queue fill level",
 "No test approaches a size limit or fills a queue.",
 ["program/src/request_randomness.rs", "api/src/state/queue.rs"], [("limits and capacity check", "api/src/state/queue.rs: add_item; program/src/request_randomness.rs")])

# ---------------------------------------------------------------- money
prop("M01", "Every request pays, and every resolution pays out, the same fee",
 "Recording a request charges the requester 800000 lamports if high-priority and 500000 otherwise, into the queue account; resolving that request, by fulfilment or by purge, pays the queue's oracle exactly that same amount for that same priority. The default ephemeral queue is exempt in all three places, and no other queue is.",
 ["inputs", "histories"], "every request priority, every queue and every way a request can be resolved",
 "The scenario test observes only the high-priority request and its fulfilment.",
 ["program/src/request_randomness.rs", "program/src/provide_randomness.rs", "program/src/purge_expired_requests.rs", "api/src/consts.rs"], [("charge", "program/src/request_randomness.rs"), ("payouts", "program/src/provide_randomness.rs, program/src/purge_expired_requests.rs, program/src/fees.rs")])
prop("M02", "Fee payouts conserve lamports and cannot overdraw or overflow",
 "A fee payout debits the queue and credits the oracle by the same amount; if the queue holds less than the amount, or the credit would overflow, the instruction fails and neither balance changes.",
 ["inputs"], "every pair of balances and every amount",
 "No test makes a payout fail.",
 ["program/src/fees.rs"], [("checked transfer", "program/src/fees.rs: transfer_fee")])
prop("M03", "Creating, resizing and closing accounts conserves lamports",
 "When an account is closed its whole balance goes to the recipient; when it is resized the payer only tops it up to the rent minimum or receives exactly the excess over it; when it is created it is funded to at least the rent minimum. No path mints, burns or strands lamports.",
 ["inputs"], "every balance, size and account state",
 "The scenario test checks one close and one resize balance.",
 ["api/src/pda.rs", "api/src/steel.rs"], [("close", "api/src/steel.rs: close_account"), ("resize and create", "api/src/pda.rs, api/src/steel.rs")])

# ---------------------------------------------------------------- queue structure
prop("Q01", "Pending requests stay intact and findable until removed",
 "After any sequence of insertions and removals, each pending request can be found by its identifier and by its position with exactly the contents it was inserted with, and the reported number of pending requests equals the number of entries enumerated. Inserting or removing one request never overwrites, hides or resurrects another.",
 ["histories"], "every sequence of insert and remove operations on a queue of any size",
 "The scenario test always removes the first entry of a queue of identical, argument-free requests.",
 ["api/src/state/queue.rs"], [("layout written on append", "api/src/state/queue.rs: add_item"), ("walkers", "api/src/state/queue.rs: iter_items, get_item_by_index, find_item_by_id, remove_item, trim_trailing_holes")],
 state=[("item_count, cursor", "pending entries and end of used bytes", "api/src/state/queue.rs: Queue"), ("used flag", "1 = pending", "api/src/state/queue.rs: QueueItem")])
prop("Q02", "All views of the queue agree on which requests are pending and their order",
 "Enumeration, lookup by position, lookup by identifier, removal and space reclamation all traverse the same entries at the same places and in the same order, and the position returned by a lookup by identifier designates the same request for lookup by position and for removal.",
 ["histories", "inputs"], "every queue content reachable by any history",
 "Tests look at position 0 only, where all views coincide trivially.",
 ["api/src/state/queue.rs"], [("walkers", "api/src/state/queue.rs")])
prop("Q03", "Removal and reclamation affect only the removed request",
 "Removing a pending request marks that one entry free, lowers the pending count by one and returns the entry; it fails if the position is not occupied. Space is reclaimed only beyond the end of the last entry that is still pending.",
 ["histories"], "every queue content and every removal position",
 "No test removes from the middle of a queue or checks the survivors afterwards.",
 ["api/src/state/queue.rs"], [("removal", "api/src/state/queue.rs: remove_item"), ("reclamation", "api/src/state/queue.rs: trim_trailing_holes")])
prop("Q04", "Reading a queue account never goes out of bounds",
 "For arbitrary account bytes, decoding the header, walking the entries and reading an entry's discriminator, account list or arguments never reads or writes outside the account data; inconsistent offsets or lengths yield an empty view or an error.",
 ["inputs"], "every byte content and length of the account data",
 "Tests only decode buffers the program itself wrote; unchecked reads there are silent.",
 ["api/src/state/queue.rs"], [("bounds checks before raw reads", "api/src/state/queue.rs: callback_discriminator, account_metas, callback_args, load, walkers")])
prop("Q05", "Walking a queue always terminates",
 "For arbitrary account bytes, every traversal of the queue makes strictly positive progress at each step and stops at the end of the used region, so no content can make an instruction or the oracle loop forever.",
 ["inputs"], "every byte content and length of the account data",
 "Tests never walk corrupted buffers.",
 ["api/src/state/queue.rs"], [("progress and end checks", "api/src/state/queue.rs walkers")])

# ---------------------------------------------------------------- purge
prop("P01", "A purge removes exactly the expired requests",
 "A purge removes every pending request whose age exceeds 240 slots and no other request: one that is exactly 240 slots old or younger stays pending. The payout equals the sum of the fees of the removed requests.",
 ["inputs", "histories"], "every queue content, every mix of ages and priorities, every current slot",
 "The scenario test purges one single-entry queue well beyond the limit.",
 ["program/src/purge_expired_requests.rs", "api/src/consts.rs"], [("scan and removal loop", "program/src/purge_expired_requests.rs")])
prop("P02", "A purge pays only the oracle that owns the queue",
 "Anyone may trigger a purge, but it acts only on a program-owned queue derived from the named oracle identity and index, and the fees of purged requests go to that identity and to nobody else.",
 ["inputs"], "every caller and every account substitution",
 "The scenario test passes only matching accounts.",
 ["program/src/purge_expired_requests.rs"], [("owner and seeds checks", "program/src/purge_expired_requests.rs")])

# ---------------------------------------------------------------- registry & queue administration
prop("A01", "Only the program's upgrade authority can change the oracle registry",
 "Adding or removing an oracle succeeds only when the transaction is signed by the current upgrade authority of the VRF program, as read from the genuine program-data account of that program. A program without an upgrade authority cannot be administered, and a production build contains no other accepted administrator.",
 ["inputs", "configurations"], "every signer, every account passed as program data, every production build configuration",
 "The test build replaces the authority by a fixed test key, so the production check is never exercised.",
 ["program/src/modify_oracles.rs", "api/src/loaders.rs"], [("authority lookup", "api/src/loaders.rs: load_program_upgrade_authority"), ("signer comparison", "program/src/modify_oracles.rs")])
prop("A02", "Registry list and oracle records change together and exactly as asked",
 "Adding an oracle appends exactly its identity to the registry list and creates its record with the submitted VRF key and the current slot; removing one deletes exactly that identity from the list and closes its record. Other entries are never altered, the account is resized to fit, and an unknown operation code is refused.",
 ["inputs", "histories"], "every sequence of add and remove operations",
 "The scenario test adds two oracles and removes one.",
 ["program/src/modify_oracles.rs", "api/src/state/oracles.rs"], [("add and remove", "program/src/modify_oracles.rs")])
prop("A03", "Invalid identities and foreign accounts are refused by the registry",
 "An oracle identity that is the all-zero key, the system program or not a valid curve point is refused, and the registry and record accounts must be the addresses derived for the registry and for that identity.",
 ["inputs"], "every identity and every account substitution",
 "No negative registration test exists.",
 ["program/src/modify_oracles.rs", "api/src/verify.rs"], [("identity validation and seeds checks", "program/src/modify_oracles.rs; api/src/verify.rs: is_on_curve")])
prop("A04", "An oracle with open queues cannot be removed; the count is exact",
 "The open-queue count kept for an oracle rises by one exactly when one of its queues becomes initialised and falls by one exactly when an initialised queue is closed. Removal of an oracle is refused unless that count is zero.",
 ["histories"], "every history of queue initialisations (including partial ones), closures and removals",
 "The scenario test never removes an oracle that ever had a queue and never closes a partially allocated queue.",
 ["program/src/initialize_oracle_queue.rs", "program/src/close_oracle_queue.rs", "program/src/modify_oracles.rs"], [("increment", "program/src/initialize_oracle_queue.rs"), ("decrement", "program/src/close_oracle_queue.rs"), ("removal guard", "program/src/modify_oracles.rs")],
 state=[("open_queue", "number of initialised queues", "api/src/state/oracle.rs")])
prop("A05", "The registry is initialised once, at its derived address, empty",
 "Initialisation requires a signer, succeeds only while the registry account holds no data and only at the registry's derived address, and leaves an empty, correctly tagged registry owned by the program. An existing registry can never be reset.",
 ["histories", "inputs"], "every account passed and every repetition",
 "The scenario test initialises once, correctly.",
 ["program/src/initialize.rs"], [("emptiness, writability and seeds checks", "program/src/initialize.rs")])
prop("A06", "A queue is opened only by its registered oracle, after 200 slots",
 "Initialising a queue requires the signatures of the payer and of the oracle identity itself, a genuine registration record for that identity, a queue address derived from that identity and index, and at least 200 slots elapsed since registration.",
 ["inputs", "schedules"], "every signer set, every account substitution and every registration age",
 "The scenario test warps exactly 200 slots and uses the right accounts.",
 ["program/src/initialize_oracle_queue.rs"], [("signer, seeds, record and age checks", "program/src/initialize_oracle_queue.rs")])
prop("A07", "Initialising a queue never disturbs an existing one",
 "A queue account that already contains any non-zero byte is refused, so an initialised queue can never be reset. A multi-step allocation grows by at most 10240 bytes per step until the requested size is reached, and only the step that reaches it tags the account as a queue and records its index.",
 ["histories", "inputs"], "every requested size and every sequence of initialisation steps",
 "The scenario test runs one uninterrupted allocation.",
 ["program/src/initialize_oracle_queue.rs", "api/src/loaders.rs"], [("zero check", "api/src/loaders.rs: is_empty_or_zeroed"), ("chunked growth", "program/src/initialize_oracle_queue.rs")])
prop("A08", "Only the owning oracle can close a queue, only when empty, completely",
 "Closing a queue requires the oracle identity's signature, the program-owned queue derived from it and its genuine program-owned record, and no pending requests. It leaves the queue account without lamports or data and no longer owned by the program, with the whole balance credited to that oracle.",
 ["inputs", "histories"], "every signer, every account substitution and every queue content",
 "The scenario test closes one empty queue as its owner.",
 ["program/src/close_oracle_queue.rs", "api/src/steel.rs"], [("checks and closing", "program/src/close_oracle_queue.rs; api/src/steel.rs: close_account")])

# ---------------------------------------------------------------- delegation, dispatch, typing
prop("D01", "Only the owning oracle can delegate or undelegate its queue",
 "Delegating or undelegating a queue requires the oracle identity's signature and the queue address derived from that identity and the given index. Delegation is made on behalf of the VRF program itself, and undelegation calls only the genuine magic program with its genuine context account. The delegation parameters are fixed by the program (commit frequency 0, the system program's address as validator), not chosen by the caller.",
 ["inputs"], "every signer and every account substitution",
 "The scenario test delegates once with correct accounts and never undelegates.",
 ["program/src/delegate_oracle_queue.rs", "program/src/undelegate_oracle_queue.rs"], [("signer, seeds and address checks", "program/src/delegate_oracle_queue.rs, program/src/undelegate_oracle_queue.rs")])
prop("D02", "Undelegation hands the account back only through the delegation protocol",
 "The undelegation callback restores an account only through the delegation library's guarded routine, under the VRF program's own id, with the seeds and accounts given in the instruction; malformed seeds or a wrong number of accounts are refused.",
 ["inputs"], "every instruction payload and account list",
 "Never exercised by any test.",
 ["program/src/process_undelegation.rs"], [("guarded undelegation", "program/src/process_undelegation.rs")])
prop("D03", "Each instruction code reaches exactly its own operation",
 "An instruction is executed only if it is addressed to the VRF program and carries an 8-byte header whose first byte is a defined code; each code runs exactly one operation, with code 3 recording a high-priority request and code 8 a regular one. Unknown codes, short data and foreign program ids are refused, errors are propagated, and wire codes and account tags are pairwise distinct and stable.",
 ["inputs"], "every instruction payload and program id",
 "Codes 6, 8 and 196 and all malformed payloads are never sent by a test.",
 ["program/src/lib.rs", "api/src/instruction.rs", "api/src/state/mod.rs"], [("dispatch", "program/src/lib.rs: process_instruction, parse_instruction8"), ("codes and tags", "api/src/instruction.rs, api/src/state/mod.rs")])
prop("D04", "Typed account access checks owner, size and type tag",
 "An account is interpreted as an oracle record, registry or queue only after its type tag and length have been checked (for a registry or queue, establishing that it is the program's own account at its derived address serves equally), and for oracle records also its owning program (plus writability for mutable access). Account validation helpers fail whenever the signer, writable, owner, address, seeds, sysvar or emptiness condition they stand for does not hold.",
 ["inputs"], "every account and every byte content",
 "Tests present only well-formed accounts.",
 ["api/src/steel.rs", "api/src/state/queue.rs", "api/src/state/macros.rs", "api/src/loaders.rs"], [("validation helpers and typed loads", "api/src/steel.rs"), ("queue header load", "api/src/state/queue.rs: try_from_bytes"), ("registry load", "api/src/state/macros.rs")])
prop("D05", "Every failed validation aborts the instruction",
 "In every on-chain operation, each failing check, decoding step, cross-program call or lamport movement makes the whole instruction return an error; no failure is ignored, logged-and-continued or replaced by a default.",
 ["inputs"], "every operation and every failing step in it",
 "Tests assert success only; a swallowed error on a failure path is invisible to them.",
 ["program/src", "api/src"], [("error propagation", "program/src/*.rs, api/src/pda.rs, api/src/steel.rs")])

# ---------------------------------------------------------------- SDK & clients
prop("S01", "Instructions built by the client API satisfy the program's account contract",
 "For every operation, the instruction built by the client API is addressed to the VRF program, carries that operation's code and arguments, and lists exactly the accounts the program expects, in order, at the derived addresses it checks, with every signer and writable flag the program requires. Queue initialisation emits as many steps as the program needs for the requested size.",
 ["inputs"], "every operation and every parameter value",
 "The scenario test uses some builders with one set of parameters each and never purge-by-third-party, undelegate or multi-index variants.",
 ["api/src/sdk.rs", "program/src"], [("builders", "api/src/sdk.rs"), ("account contract", "program/src/*.rs")])
prop("S02", "SDK request instructions decode to the same request on-chain",
 "The bytes produced by the consumer SDK for a request decode on-chain to exactly the caller seed, callback program, discriminator, accounts and arguments supplied, in every SDK feature configuration. The default builder uses the high-priority code and the regular builder the regular code, and both list the accounts the program expects.",
 ["inputs", "configurations"], "every parameter value and every supported SDK feature set",
 "The SDK is exercised only through prebuilt binaries; no test covers its feature combinations.",
 ["sdk/src/instructions.rs", "sdk/src/types.rs", "api/src/instruction.rs"], [("serialisation", "sdk/src/types.rs"), ("builders", "sdk/src/instructions.rs"), ("decoder", "api/src/instruction.rs: RequestRandomness")])
prop("S03", "SDK constants match the deployed program",
 "The program id, identity address and bump, identity seed and default ephemeral queue published by the SDK equal those used by the on-chain program, and the published identity address is the one derived from the program id and the identity seed.",
 ["configurations"], "every SDK feature configuration",
 "No test compares the two crates' constants.",
 ["sdk/src/consts.rs", "api/src/consts.rs", "api/src/lib.rs", "api/src/state/mod.rs"], [("constants", "sdk/src/consts.rs, api/src/consts.rs, api/src/state/mod.rs")])
prop("S04", "SDK version conversions are lossless",
 "Converting addresses, account descriptors and instructions between the supported library versions preserves the address bytes, the signer and writable flags, the order of accounts and the instruction data.",
 ["inputs", "configurations"], "every value and every feature configuration",
 "Never executed by a test.",
 ["sdk/src/compat/mod.rs"], [("conversions", "sdk/src/compat/mod.rs")])
prop("S05", "Ranged random values always fall in the requested range",
 "For every seed and every bounds min <= max, including the full 0..=255 range, the ranged helper returns a value between min and max inclusive and never panics. Seed bytes outside the largest multiple of the range size are skipped, so accepted bytes map uniformly.",
 ["inputs"], "every 32-byte seed and all 32896 ordered bounds",
 "No test calls the helper.",
 ["sdk/src/rnd.rs"], [("rejection sampling", "sdk/src/rnd.rs: random_u8_with_range")])
prop("S06", "Random value helpers are total and use seed entropy injectively",
 "Each fixed-width helper returns, for every seed and without panicking, a value assembled from that many distinct seed bytes, so uniform seeds give uniform values; the signed helpers are the same bits reinterpreted, and the boolean is decided by a single seed bit.",
 ["inputs"], "every 32-byte seed",
 "No test calls the helpers.",
 ["sdk/src/rnd.rs"], [("helpers", "sdk/src/rnd.rs")])
prop("S07", "The account macro wires requests to the caller's own program identity",
 "For an accounts struct carrying the attribute, the generated code adds the identity, VRF program, slot-hashes and system-program accounts exactly when missing, constrains them to their genuine addresses, keeps all user fields, and signs the request with the calling program's own identity seed and canonical bump while forwarding payer, identity, queue and slot hashes.",
 ["programs"], "every consumer struct using the attribute",
 "Only one prebuilt sample program uses the macro.",
 ["sdk/vrf-macro/src/lib.rs"], [("expansion", "sdk/vrf-macro/src/lib.rs: vrf")])
prop("S08", "SDK delegation address helpers return the delegation program's addresses",
 "Each delegation-related address helper in the consumer SDK returns the address the delegation protocol actually uses for that account, that is, the one derived from the protocol's seeds under the delegation program (or, for the delegation buffer, under the given owner program).",
 ["inputs", "configurations"], "every account address and every SDK feature configuration",
 "The helpers are not called by any test.",
 ["sdk/src/pda.rs"], [("address helpers", "sdk/src/pda.rs")])

# ---------------------------------------------------------------- oracle service
prop("O01", "The oracle serves exactly the pending requests of its own queues",
 "The oracle acts only on accounts whose address is the queue derived from its own identity and the queue's index, and for such a queue it takes up every pending request that is not already being worked on. Accounts that do not decode as queues are skipped without stopping the service.",
 ["inputs", "histories"], "every account snapshot or update the RPC node delivers",
 "The oracle service has no tests.",
 ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/oracle/sources.rs"], [("ownership check and work loop", "vrf-oracle/src/oracle/processor.rs: process_oracle_queue"), ("decoding", "vrf-oracle/src/oracle/sources.rs")])
prop("O02", "At most one worker handles a request at a time",
 "Before starting work on a request the oracle claims it atomically; while a claim exists, no further notification, periodic refresh or concurrent task starts a second worker for the same request in the same queue.",
 ["schedules", "histories"], "every interleaving of notifications, periodic refreshes and worker completions",
 "Concurrency of the service is never exercised.",
 ["vrf-oracle/src/oracle/processor.rs"], [("claim in in-flight map", "vrf-oracle/src/oracle/processor.rs: process_oracle_queue")],
 state=[("inflight_requests", "claimed requests per queue", "vrf-oracle/src/oracle/client.rs")])
prop("O03", "An unfinished or vanished request never stays claimed",
 "When a worker gives up without a confirmed transaction its claim is released so the request is retried later; when a request disappears from the queue its claim is released and its running worker is cancelled. A finished worker's handle is dropped from the active set.",
 ["schedules", "fault_sequences"], "every outcome of every worker and every order of queue updates",
 "Failure paths of the service are never exercised.",
 ["vrf-oracle/src/oracle/processor.rs"], [("cleanup after worker loop", "vrf-oracle/src/oracle/processor.rs"), ("cancellation", "vrf-oracle/src/oracle/processor.rs")])
prop("O04", "The oracle's locks cannot deadlock and are not held across network calls",
 "Whenever two of the service's shared maps are locked together they are locked in one global order, no lock is re-acquired while held, and no lock is held while awaiting a network request or a timer.",
 ["schedules"], "every interleaving of tasks, HTTP requests and notifications",
 "Deadlocks depend on interleavings no test produces.",
 ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/oracle/client.rs", "vrf-oracle/src/main.rs", "vrf-oracle/src/blockhash_cache.rs"], [("lock scopes", "vrf-oracle/src")])
prop("O05", "The oracle submits the right, self-verified answer for each request",
 "For each request the oracle proves the request's own identifier with its own key, verifies the proof locally before submitting, and submits a fulfilment signed by its identity for that queue, with the request's callback program and recorded accounts appended in order. Proof elements are placed in their own fields.",
 ["inputs"], "every pending request",
 "The service has no tests; the scenario test builds its own instruction.",
 ["vrf-oracle/src/oracle/processor.rs"], [("instruction assembly", "vrf-oracle/src/oracle/processor.rs: process_item")])
prop("O06", "Oracle and program agree on when a request is expired",
 "The oracle purges instead of answering exactly when the request's age, measured with the slot it last observed, exceeds the same limit the program applies to purges; otherwise it answers. It never purges a queue on account of a request the program would keep at that slot.",
 ["inputs"], "every request slot and every observed slot",
 "The service has no tests.",
 ["vrf-oracle/src/oracle/processor.rs", "program/src/purge_expired_requests.rs"], [("age decision", "vrf-oracle/src/oracle/processor.rs: process_item")])
prop("O07", "RPC failures never terminate the oracle service",
 "A failing or malformed RPC response, at start-up or later, makes the service retry, reconnect or log; it never panics the main task or ends the process. An error in one queue does not stop the others.",
 ["fault_sequences"], "every RPC call and every failure it can report",
 "No test injects RPC faults.",
 ["vrf-oracle/src/main.rs", "vrf-oracle/src/blockhash_cache.rs", "vrf-oracle/src/oracle/client.rs", "vrf-oracle/src/oracle/processor.rs"], [("error propagation to the retry loop", "vrf-oracle/src")])
prop("O08", "Every retry loop is bounded and refreshes its blockhash",
 "A worker makes a bounded number of attempts per claim; after every failed or unconfirmed attempt it refreshes the recent blockhash before the next one, and it stops as soon as a transaction is confirmed successful.",
 ["fault_sequences"], "every sequence of send and confirmation outcomes",
 "No test injects RPC faults.",
 ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/blockhash_cache.rs"], [("attempt loop", "vrf-oracle/src/oracle/processor.rs")])
prop("O09", "Signing keys never leave the oracle and CLI processes",
 "Neither the oracle's identity key, the VRF secret derived from it, nor the CLI's signing key - nor any text, bytes or part of them, or the configuration value they are parsed from - is ever logged, printed, put into an error or panic message, served over HTTP, written to a file or the environment, sent to an RPC node or placed in an instruction. The only things that leave a process are public keys, signatures and proofs.",
 ["inputs", "fault_sequences"], "every argument, request, failure path and HTTP query",
 "The oracle and the CLI have no tests; a leak on an error path or in a message changes no result a test would look at.",
 ["vrf-oracle/src/main.rs", "vrf-oracle/src/oracle/client.rs", "vrf-oracle/src/oracle/processor.rs", "vrf-cli/src/main.rs"], [("key construction", "vrf-oracle/src/main.rs: main"), ("VRF secret", "vrf-oracle/src/oracle/client.rs: OracleClient::new"), ("CLI signer", "vrf-cli/src/main.rs: get_signer")])
prop("K01", "Each CLI command issues exactly the operation it names",
 "Every command of the management CLI submits the operation it is named after, built from the parsed arguments and the selected signer without alteration, in a transaction signed by that signer; queue commands use the index stored in the queue account itself. The derive command shows the VRF public key belonging to the selected signer, and the listing commands submit nothing.",
 ["inputs"], "every command and argument value",
 "The CLI has no tests.",
 ["vrf-cli/src/main.rs"], [("command dispatch", "vrf-cli/src/main.rs: main")])

# ---------------------------------------------------------------- outside static reach
prop("N01", "A fulfilment transaction fits its compute budget",
 "The compute budget the oracle requests is sufficient for proof verification, queue handling and the consumer's callback for every request the program accepts.",
 ["inputs"], "every queue size, callback and account list", "Compute consumption depends on the runtime and on third-party callbacks.",
 ["vrf-oracle/src/oracle/processor.rs"], [("budget choice", "vrf-oracle/src/oracle/processor.rs: process_item")])
prop("N02", "Every request is eventually fulfilled or purged",
 "While an oracle runs with a reachable cluster, each of its pending requests is eventually fulfilled or, once expired, purged, also when a processed transaction is later dropped by a fork.",
 ["schedules", "fault_sequences"], "every schedule of cluster forks, RPC faults and service restarts", "Liveness over cluster behaviour; no test runs the service.",
 ["vrf-oracle/src/oracle"], [("refresh and retry", "vrf-oracle/src/oracle/client.rs, processor.rs")])
prop("N03", "Request identifiers are unique among pending requests",
 "No two requests pending in a queue at the same time carry the same identifier, so they never share a random value.",
 ["histories"], "every history of requests and purges within a slot", "Uniqueness is a property of hash values over histories.",
 ["program/src/request_randomness.rs"], [("identifier ingredients", "program/src/request_randomness.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
