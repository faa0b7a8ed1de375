SHA = "SHA-256 of symbolic data is an uninterpreted injective function"
BLS = "BLS operations are uninterpreted functions of keys, message, domain tag and signature; key and signature encodings in the state are valid"
SMALL = "containers instantiated with small presets (4 slots per epoch, vectors of 4-16 entries); the same generic code serves every preset"

prop("C01", "Slot clock and slot stream agree with wall-clock time",
     "For every genesis time, slot duration and instant, the reported slot is the one whose interval contains the instant (none before genesis), conversions between slots and times invert each other, and the time left until a slot or the next slot is exact. The slot stream announces slots in order, each once, never before it begins, and skips none while it is polled promptly, whatever happens between reads of the time.",
     ["inputs", "schedules"], "every genesis time, instant and slot in range; every amount of time passing between any two reads of the clock; every moment a timer fires after its deadline",
     "the boundary cases are single nanoseconds out of 2^64 and interleavings of the clock with the stream; tests use three fixed times and never drive the stream",
     [("slot/time conversion", "clock.rs:31 convert_*"), ("Clock", "clock.rs:62 impl Clock"), ("slot stream", "clock.rs SlotStream::poll_next")],
     observe="return values of the clock and items of the stream",
     bounds="genesis and times in 64 bits of nanoseconds (year 2554), 3 (thorough 5) slot durations of 1-12 s, streams polled 4 (thorough 5) times with up to 40 s between two reads of the time.",
     outside="times after the year 2554 (documented to panic), tokio's timer itself (a timer fires at any time after its deadline).",
     assumptions=["tokio::time::sleep is a timer that fires at any moment at or after its deadline"])

prop("C02", "Textual encodings are exact inverses and reject everything else",
     "Byte strings, roots, lists and 64/256-bit numbers have one textual form (0x-prefixed hex, quoted decimal) that parses back to the same value; malformed hex, wrong lengths, non-digits and overflowing numbers are refused and never accepted as a different value. Sequences keep their order and length, and containers map every field to its published name.",
     ["inputs"], "all byte strings of the bounded lengths, all numbers of the bounded digit counts, all malformed variants of them",
     "acceptance sets are defined over all strings; tests round-trip two values",
     [("hex and decimal codecs", "serde.rs:1 as_hex, as_str, seq_of_str, collection_over_string"), ("containers", "phase0/operations.rs:1 serde attributes")],
     observe="serde_json text in and out",
     bounds="hex inputs up to 9 bytes of text fully symbolic, byte vectors and lists up to 96 bytes, symbolic decimal numbers of 3 digits plus the extremes of the 64-bit range, sequences up to 4.",
     outside="other serde formats than JSON; the third-party hex/serde crates are executed, not assumed.")

prop("C03", "Signature domains, fork digests and signing roots are as specified",
     "A domain is the four published bytes of its type followed by the first 28 bytes of the hash of fork version and genesis validators root, taken from the fork in force at the epoch asked about. Fork digests are the first four bytes of that hash, and a signing root commits to both the object and its whole domain, so no signature made for one object, type, fork or chain verifies for another.",
     ["inputs"], "every domain type, fork version, validators root, epoch, fork epoch, slot and object",
     "a wrong byte order, a missing default or an off-by-one at the fork epoch still produces plausible 32-byte values; tests compare none of them",
     [("domain types", "domains.rs:18 DomainType::as_bytes"), ("domains", "phase0/helpers.rs:190 get_domain, compute_domain, compute_fork_digest"), ("signing roots", "signing.rs:14 compute_signing_root, sign_with_domain, verify_signed_data")],
     observe="returned domains, digests, roots and verification results",
     bounds="all values of every input (no loop in the code depends on them); all six forks' state types.",
     outside="SHA-256 and BLS themselves.", assumptions=[SHA, BLS])

prop("C04", "Configurations, presets and the fork schedule are the published ones",
     "For every network the context carries each published preset and configuration value under its own name, and the container types have the published sizes. The fork of a slot is the latest one whose activation epoch has been reached, its version is that fork's, and network names and configuration files read back as what they name.",
     ["inputs", "configurations"], "every slot; every combination of preset and configuration values; every supported network and custom name",
     "contexts have over a hundred same-typed fields, so a swapped pair compiles and breaks only at the slots where the two values differ",
     [("context", "state_transition/context.rs:150 Context::from, fork_for, fork_version_for, genesis_time, clock"), ("configurations", "configs/mod.rs:1 Config"), ("mainnet presets", "phase0/presets/mainnet.rs:1"), ("networks", "networks.rs:1 Network")],
     observe="fields of the context and results of its methods",
     bounds="every field fully symbolic in the copy check, every 64-bit slot and fork epoch, custom names of 6 letters.",
     outside="reading YAML (the parser is third-party; the same deserialization is driven through JSON), opening the file.",
     assumptions=["the published values are the table in harness/src/bin/c04.rs"])

prop("C05", "Shuffling is a permutation and committees partition the active set",
     "For every seed and list the shuffle is the specified swap-or-not permutation, the two implementations of it agree, and an index outside the list is refused. At every slot the committees of an epoch are disjoint and together contain each active validator exactly once, in the specified slices; seeds come from the specified mix.",
     ["inputs"], "every seed, index, registry activity pattern, slot and mix in the bounds",
     "a wrong pivot, bit or bound permutes differently only for some seeds and sizes; tests fix none",
     [("shuffle", "phase0/helpers.rs compute_shuffled_index, compute_shuffled_indices"), ("committees", "phase0/helpers.rs compute_committee, get_beacon_committee, get_committee_count_per_slot"), ("seeds", "phase0/helpers.rs get_seed, get_active_validator_indices")],
     observe="returned indices and committees",
     bounds="hash outputs arbitrary; lists up to 5 elements with every index and sizes around the 256-entry block edges with chosen indices; up to 2 rounds (4 for one index); registries up to 4 validators for committees.",
     outside="longer lists and 90 rounds (the same loop body).", assumptions=[SHA, SMALL])

prop("C09", "Activation queue, ejections and exits follow the churn limits",
     "At each epoch end exactly the validators that meet the conditions become eligible, are ejected, or are activated: in order of eligibility, then index, at most the churn limit's worth. Every exit gets the specified epoch in a queue that never exceeds the per-epoch churn, and nothing else in the state changes.",
     ["inputs", "histories"], "every registry within the bounds (balances, all four epochs, slashed flags), finalized epoch, slot and queue state",
     "queue effects depend on combinations of several validators' epochs which no sampled test enumerates",
     [("registry updates", "phase0/epoch_processing.rs process_registry_updates"), ("deneb activation limit", "deneb/epoch_processing.rs process_registry_updates"), ("electra", "electra/epoch_processing.rs process_registry_updates"), ("exits", "phase0/helpers.rs initiate_validator_exit"), ("electra churn", "electra/helpers.rs compute_exit_epoch_and_update_churn")],
     observe="the whole post-state",
     bounds="registries of 3 (thorough 4) validators, electra 2 (thorough 3); epochs up to 2^20 or far future; balances up to 2048 ETH.",
     outside="larger registries.", assumptions=[SMALL])

prop("C10", "Slashing a validator applies exactly the specified consequences",
     "A slashed validator is exited, marked, withdrawable only after the slashing window, charged its fork's minimum penalty, and recorded in the slashings of the current epoch; proposer and whistleblower are paid their shares. At the epoch half way the correlated penalty is the specified one, and no other validator or field changes.",
     ["inputs"], "every balance, effective balance, exit/withdrawable epoch, slot, slashings vector and proposer within bounds",
     "the amounts are products and quotients of several inputs; a truncation or a wrong fork constant shows only for some of them",
     [("slash_validator", "phase0/helpers.rs slash_validator"), ("altair", "altair/helpers.rs slash_validator"), ("bellatrix", "bellatrix/helpers.rs slash_validator"), ("electra", "electra/helpers.rs slash_validator"), ("correlated penalty", "phase0/epoch_processing.rs process_slashings"), ("altair penalty", "altair/epoch_processing.rs process_slashings"), ("bellatrix penalty", "bellatrix/epoch_processing.rs process_slashings")],
     observe="the whole post-state",
     bounds="registries of 3 validators, balances up to 2^40 gwei, effective balances up to 2048 ETH, epochs up to 2^20.",
     outside="larger registries; balances near 2^64.", assumptions=[SHA, SMALL])

prop("C06", "The proposer of a slot is the balance-weighted candidate the seed selects",
     "The block proposer of a slot is the first active validator, in the shuffled order of candidates the slot's seed gives, whose effective balance passes the random test against its random byte, for as many candidates as it takes. It is always an active validator, and without active validators there is an error rather than a proposer.",
     ["inputs"], "every seed, balance, slot and activity pattern in the bounds",
     "which candidate wins depends on hash bytes and balances together, and the byte block changes only after 32 rejected candidates",
     [("proposer", "phase0/helpers.rs compute_proposer_index, get_beacon_proposer_index"), ("seed", "phase0/helpers.rs get_seed")],
     observe="the returned proposer index",
     bounds="hash outputs arbitrary; two candidates with arbitrary balances over two rounds (thorough three and three), one candidate over 34 rounds; one shuffle round; registries with exited and pending validators.",
     outside="more candidates, 90 shuffle rounds (see C05 for the shuffle).", assumptions=[SHA, SMALL])

prop("C07", "Justification and finalization follow the attesting majorities",
     "At each epoch end a checkpoint becomes justified exactly when unslashed validators with at least two thirds of the active balance attested to it in time, and the finalized checkpoint is the one the four justification rules give. Justification bits shift by one epoch, checkpoints carry the right block roots, and nothing happens before the third epoch.",
     ["inputs", "histories"], "every prior bit pattern and checkpoint, attested balances, slashed flags, participation and epoch in bounds",
     "each rule fires for one combination of four bits and checkpoint distances with a majority at an exact threshold; tests sample none",
     [("justification", "phase0/epoch_processing.rs process_justification_and_finalization, weigh_justification_and_finalization"), ("altair", "altair/epoch_processing.rs process_justification_and_finalization"), ("attesting balances", "phase0/helpers.rs get_attesting_balance, get_matching_target_attestations"), ("participation", "altair/helpers.rs get_unslashed_participating_indices")],
     observe="the whole post-state",
     bounds="any prior checkpoints and bits; attesting balances arbitrary in the weighing step; registries of 3 validators for who counts.",
     outside="larger registries; balances near 2^64.", assumptions=[SMALL])

prop("C08", "Attestation rewards and penalties are the specified amounts",
     "At each epoch end every eligible validator is paid for each timely vote in proportion to its own and the attesting balance, charged for each missed vote, and during a finality leak charged more and paid nothing. The inactivity scores rise and recover by the specified steps. Balances never go below zero, others are untouched, and the first epoch changes nothing.",
     ["inputs"], "every balance, score, finality delay, participation and standing (active, slashed, left, within the withdrawal window) in bounds",
     "amounts are chains of products and truncating quotients whose order matters only for some values; tests compute none",
     [("phase0 deltas", "phase0/epoch_processing.rs process_rewards_and_penalties, get_attestation_deltas, get_inclusion_delay_deltas, get_inactivity_penalty_deltas"), ("altair deltas", "altair/helpers.rs get_flag_index_deltas, get_inactivity_penalty_deltas"), ("bellatrix deltas", "bellatrix/helpers.rs get_inactivity_penalty_deltas"), ("scores", "altair/epoch_processing.rs process_inactivity_updates")],
     observe="the whole post-state",
     bounds="registries of 2 (phase0: 3) validators, balances up to 2^50 gwei, scores up to 2^20 (2^40 for their update), every finality delay; effective balances symbolic with a constant sum, or chosen.",
     outside="larger registries; arbitrary totals (their square root is a constant here).", assumptions=[SHA, SMALL])

prop("C11", "Epoch housekeeping takes effect as specified and in the specified order",
     "At each epoch end effective balances follow balances only past the hysteresis thresholds and never exceed the cap, the next slashing slot, randomness mix, eth1 votes and participation records rotate, and a history entry is recorded once per period. The epoch's steps take effect in the specified order, and sync committees rotate at their period's end.",
     ["inputs", "histories"], "every balance and effective balance, every epoch in bounds (including each period boundary), every vector content; post-states in which any two of the steps interact",
     "thresholds are single gwei, period boundaries one epoch in many, and a swapped pair of steps differs only when one changes what the other reads; tests run no epoch transition",
     [("housekeeping", "phase0/epoch_processing.rs process_effective_balance_updates, process_slashings_reset, process_randao_mixes_reset, process_eth1_data_reset, process_historical_roots_update"), ("altair", "altair/epoch_processing.rs process_participation_flag_updates, process_sync_committee_updates, process_epoch"), ("electra", "electra/epoch_processing.rs process_effective_balance_updates, process_epoch")],
     observe="the whole post-state",
     bounds="registries of 3-4 validators; periods of 2-4 epochs; epochs up to 2^40 where no vector is indexed by them, else all residues.",
     outside="larger registries.", assumptions=[SHA, SMALL])

prop("C12", "A block extends the chain and its parts apply in the specified order",
     "A block is accepted only for the state's slot, newer than the latest header, built on its root and by the unslashed proposer of the slot; the recorded header is the block's. The reveal must be the proposer's signature over the epoch and is mixed into the current mix. An eth1 vote is recorded and adopted exactly when more than half of the period's slots agree. The parts and operations of a block are applied in the specified order and no other number of deposits than expected is accepted.",
     ["inputs"], "every header, parent, proposer, reveal and vote; every relation of the expected and carried deposits in bounds; pairs of operations that interact",
     "each rule is one comparison among many that ordinary blocks satisfy; tests apply no block",
     [("header", "phase0/block_processing.rs process_block_header"), ("randao", "phase0/block_processing.rs process_randao"), ("eth1 data", "phase0/block_processing.rs process_eth1_data"), ("order of operations", "phase0/block_processing.rs process_operations, process_block")],
     observe="acceptance and the whole post-state",
     bounds="registries of 3-5 validators; voting periods of 4 and 8 slots with 0-3 earlier votes; symbolic roots, mixes and slots.",
     outside="larger registries; blocks with more than two operations of a kind.", assumptions=[SHA, BLS, SMALL])

prop("C13", "An attestation counts exactly for the committee members who signed it in time",
     "An attestation is accepted exactly when target, slot, inclusion window, committee and source agree with the state, its bits have the committee's length and the aggregate signature is that of the marked members. Each member then gets the timely flags it newly earns (or a pending attestation is recorded), and the proposer is paid for exactly the new flags.",
     ["inputs"], "every inclusion delay, target and source in bounds, every set of marked members and committees, every prior participation flag",
     "the windows are single slots, and flag bookkeeping is wrong only for combinations of earlier flags and marked members; tests include no attestation",
     [("phase0", "phase0/block_processing.rs process_attestation, helpers get_attesting_indices, get_indexed_attestation, is_valid_indexed_attestation"), ("altair", "altair/block_processing.rs process_attestation, helpers get_attestation_participation_flag_indices"), ("electra", "electra/helpers.rs get_attesting_indices, block_processing.rs process_attestation")],
     observe="acceptance and the whole post-state",
     bounds="registries of 5-8 validators in committees of 1-2; one rule violated at a time, with symbolic values for it; all subsets of members.",
     outside="larger committees; several simultaneous violations.", assumptions=[SHA, BLS, SMALL])

prop("C14", "Only provable equivocation is slashed",
     "A proposer is slashed exactly when two different headers for one slot carry its valid signatures; attesters exactly when two indexed attestations conflict (double or surround vote), are sorted, unique and validly signed, and only those in both that are slashable now. Evidence that slashes nobody is refused.",
     ["inputs"], "every pair of headers and attestation data, every choice of indices and standing, every signature",
     "conflict is a relation on pairs of epochs with strict inequalities both ways; tests check a handful of pairs",
     [("proposer slashing", "phase0/block_processing.rs process_proposer_slashing"), ("attester slashing", "phase0/block_processing.rs process_attester_slashing"), ("conflict", "phase0/helpers.rs is_slashable_attestation_data, is_slashable_validator, is_valid_indexed_attestation")],
     observe="acceptance and the whole post-state (the slashing itself is decided by C10)",
     bounds="registries of 3 validators, up to 3 attesting indices; headers that differ in one field, attestation data arbitrary.",
     outside="larger registries and index lists.", assumptions=[SHA, BLS, SMALL])

prop("C15", "Deposits are credited once, in order, to the right key",
     "A deposit is accepted exactly when its proof leads to the recorded deposit root at the next index, and the index advances by one. A known key is credited the amount; a new key with a valid proof of possession becomes a validator with the rounded, capped effective balance; an invalid signature creates nothing and fails nothing. From electra on the amount is queued, and a valid compounding deposit switches credentials.",
     ["inputs"], "every amount, balance, credential, signature and deposit root; deposit indices with arbitrary bits; proofs with an arbitrary step",
     "a wrong index bit, a missing rounding or an error in place of a skipped deposit depends on the amount, index or signature; tests make no deposit",
     [("deposit", "phase0/block_processing.rs process_deposit, apply_deposit, get_validator_from_deposit"), ("altair", "altair/block_processing.rs add_validator_to_registry"), ("electra", "electra/block_processing.rs apply_deposit, add_validator_to_registry"), ("branch", "primitives.rs DEPOSIT_CONTRACT_TREE_DEPTH")],
     observe="acceptance and the whole post-state",
     bounds="registries of 2-3 validators; 3 deposit indices (0, 5, 2^32-1); one symbolic proof step of 33.",
     outside="several symbolic proof steps at once.", assumptions=[SHA, BLS, SMALL])

prop("C16", "A validator exits only by its own valid request",
     "A voluntary exit is accepted exactly when the validator exists, is active, has not begun to exit, the exit's epoch has come, it has been active for the required period and signed the exit for the right domain (from deneb on always capella's); from electra on it must have no pending withdrawals. Its effect is to put the validator, and nobody else, in the exit queue.",
     ["inputs"], "every slot, activation, eligibility, exit and fork epoch, exit message, signature and pending withdrawal in bounds",
     "acceptance is a conjunction of comparisons on epochs that coincide in ordinary states (eligibility and activation, message epoch and current epoch)",
     [("phase0", "phase0/block_processing.rs process_voluntary_exit"), ("deneb", "deneb/block_processing.rs process_voluntary_exit"), ("electra", "electra/block_processing.rs process_voluntary_exit")],
     observe="acceptance and the whole post-state (the queue is decided by C09)",
     bounds="registries of 2 validators, epochs up to 2^24, any message epoch and fork epoch, 2 pending withdrawals.",
     outside="larger registries.", assumptions=[SHA, BLS, SMALL])

prop("C17", "Sync committees are sampled, rewarded and charged as specified",
     "The next sync committee is the specified balance-weighted sample of the validators active in the next epoch, with their keys and the aggregate of them. A sync aggregate is accepted exactly when the marked members signed the previous slot's block root (or nobody did, with the infinite signature). Each marked member is paid, each other charged down to zero at worst, and the proposer is paid per marked member.",
     ["inputs"], "every balance, mix, set of marked members (who may sit twice), signature and slot in bounds",
     "the sample depends on hash bytes and balances, duplicates and exhausted balances are rare, and the domain changes at one fork slot; tests sample no committee",
     [("sampling", "altair/helpers.rs get_next_sync_committee_indices, get_next_sync_committee"), ("electra sampling", "electra/helpers.rs get_next_sync_committee_indices"), ("aggregate", "altair/block_processing.rs process_sync_aggregate"), ("signatures", "crypto/bls.rs eth_fast_aggregate_verify, eth_aggregate_public_keys")],
     observe="returned members and keys; acceptance and the whole post-state",
     bounds="registries of 4-5 validators, committees of 4; 3 shuffle rounds; hash outputs of concrete mixes (4, thorough 16); symbolic effective and one symbolic balance.",
     outside="larger committees and registries.", assumptions=[SHA, BLS, SMALL])

prop("C18", "A payload is accepted only as the continuation of the execution chain",
     "A payload is accepted exactly when it extends the latest payload (once the merge is complete), carries the current mix and the slot's timestamp, holds no more blobs than allowed (from deneb on) and the execution engine approves the request, which names exactly the payload, the blobs' versioned hashes and the parent root. The latest header then becomes the payload's, every field and list root as specified; before the merge an empty payload is skipped.",
     ["inputs"], "every payload field in bounds, every slot, genesis time and mix, every answer of the engine",
     "a header has up to nineteen same-typed fields and two list roots; a swapped or stale one agrees on default payloads, which are all the tests have",
     [("bellatrix", "bellatrix/block_processing.rs process_execution_payload"), ("capella", "capella/block_processing.rs process_execution_payload"), ("deneb", "deneb/block_processing.rs process_execution_payload"), ("electra", "electra/block_processing.rs process_execution_payload"), ("merge", "bellatrix/helpers.rs is_merge_transition_complete, is_merge_transition_block, is_execution_enabled, compute_timestamp_at_slot"), ("versioned hash", "deneb/helpers.rs kzg_commitment_to_versioned_hash"), ("header of a payload", "bellatrix/execution_payload.rs TryFrom<&mut ExecutionPayload>")],
     observe="acceptance, the request the engine sees, the whole post-state, the header",
     bounds="up to 2 transactions of up to 33 bytes, 1 withdrawal and 1 request of each kind, up to 3 blobs; one odd field at a time where defaultness is at stake.",
     outside="longer lists; the engine itself.", assumptions=[SHA, SMALL, "the execution engine is any function: its answers are symbolic"])

prop("C19", "Withdrawals are exactly the due ones, in sweep order, once each",
     "The expected withdrawals are, in order, the pending partial ones that are due and still covered (from electra on), then the due full and excess balances of the validators swept from the next index, never more than a payload holds or a sweep visits. A payload is accepted exactly when it carries these; balances fall by them, and the next withdrawal and validator index move so that nobody is skipped or paid twice.",
     ["inputs", "histories"], "every credential kind, balance, effective balance, withdrawable epoch and pending request; every sweep start in bounds",
     "whose turn it is depends on where the last sweep stopped and why; amounts depend on exact thresholds; tests make no withdrawal",
     [("sweep", "capella/block_processing.rs process_withdrawals, get_expected_withdrawals"), ("withdrawable", "capella/helpers.rs is_fully_withdrawable_validator, is_partially_withdrawable_validator"), ("electra", "electra/block_processing.rs process_withdrawals, get_expected_withdrawals"), ("electra thresholds", "electra/helpers.rs is_fully_withdrawable_validator, is_partially_withdrawable_validator, get_validator_max_effective_balance")],
     observe="the expected withdrawals, acceptance and the whole post-state",
     bounds="registries of 3 validators, 2 withdrawals per payload, sweeps of 2, 3 and 16 validators, up to 3 pending partial withdrawals.",
     outside="larger registries.", assumptions=[SMALL])

prop("C20", "Withdrawal credentials change only for the holder of the BLS key",
     "A change of withdrawal credentials is accepted exactly when the validator exists, its credentials are the hash of the given BLS key behind the BLS prefix, and that key signed the change under the genesis fork's domain whatever the current fork. The new credentials are the execution prefix, eleven zero bytes and the address; nothing else changes.",
     ["inputs"], "every credential (one odd byte anywhere), address, index, signature, slot and fork epoch",
     "the domain differs from every other operation's and the comparison must cover all 31 bytes; tests make no change",
     [("change", "capella/block_processing.rs process_bls_to_execution_change"), ("domain", "phase0/helpers.rs compute_domain")],
     observe="acceptance and the whole post-state",
     bounds="registries of 3 validators; credentials that differ from the key's hash in the prefix and at most one other byte.",
     outside="larger registries.", assumptions=[SHA, BLS, SMALL])

prop("C21", "Electra's requests, consolidations and queued deposits take the specified effect",
     "A withdrawal request acts only from the validator's own execution address, and then exits the validator or queues the specified partial withdrawal; otherwise it is ignored, never an error. A consolidation is accepted exactly when both validators are active, share an execution address and signed it, and takes its place in the consolidation queue. Queued deposits are credited in order within the epoch's limit, and due consolidations move exactly the active balance.",
     ["inputs", "histories"], "every credential, address, epoch, balance, amount, queue content and churn state in bounds",
     "queues couple several validators and epochs; limits, thresholds and queue positions must agree to the gwei; tests run none of it",
     [("requests", "electra/block_processing.rs process_execution_layer_withdrawal_request, process_deposit_receipt"), ("consolidation", "electra/block_processing.rs process_consolidation, helpers.rs compute_consolidation_epoch_and_update_churn"), ("queues", "electra/epoch_processing.rs process_pending_balance_deposits, process_pending_consolidations"), ("helpers", "electra/helpers.rs get_consolidation_churn_limit, switch_to_compounding_validator, queue_entire_balance_and_reset_validator, get_active_balance")],
     observe="acceptance and the whole post-state",
     bounds="registries of 3 validators, up to 4 pending partial withdrawals, 3 queued deposits, 2 pending consolidations; balances up to 2^50 gwei; constant churn limits in the operations.",
     outside="larger registries and queues.", assumptions=[SHA, BLS, SMALL])

prop("C22", "A fork upgrade carries the whole state over and adds only what the fork adds",
     "Upgrading a state to the next fork keeps every field of state and latest payload header, records the fork left, the new version and the current epoch, and initializes only the new fields, as specified. Altair turns the last epoch's attestations into participation flags and samples both sync committees; electra queues the balances of validators not yet active, in order of eligibility, and the excess of compounding ones.",
     ["inputs"], "every value of every field copied; every pattern of attesters and votes, standing, credentials, balance and exit epoch in bounds",
     "a state has up to thirty-seven fields, many of one type, copied by hand once per fork; tests upgrade no state",
     [("altair", "altair/fork.rs translate_participation, upgrade_to_altair"), ("bellatrix", "bellatrix/fork.rs upgrade_to_bellatrix"), ("capella", "capella/fork.rs upgrade_to_capella"), ("deneb", "deneb/fork.rs upgrade_to_deneb"), ("electra", "electra/fork.rs upgrade_to_electra")],
     observe="the whole upgraded state",
     bounds="registries of 2 (electra 3, altair 8) validators, two pending attestations, lists of one element.",
     outside="larger registries and lists.", assumptions=[SHA, SMALL])

prop("C23", "Slots advance one at a time and a block is applied only if valid and signed",
     "Advancing a state stores each slot's state and block roots under the slot's index, completes the latest header with its state root once, and runs epoch processing exactly at each epoch's last slot; it never goes back. A block is applied exactly when its slot is later, its contents are valid in the advanced state, its proposer signed it and the resulting state has the announced root; without validation the signature and root are not required.",
     ["inputs", "histories"], "every slot, latest header, block slot up to the next epoch, proposer, signature and state root",
     "the roots are indexed modulo a period, the domain changes at the fork epoch, and boundaries are one slot in many; tests run no transition",
     [("slots", "phase0/slot_processing.rs process_slots, process_slot"), ("transition", "phase0/state_transition.rs state_transition, state_transition_block_in_slot"), ("bellatrix and later", "bellatrix/state_transition.rs state_transition, state_transition_block_in_slot"), ("signature", "phase0/helpers.rs verify_block_signature")],
     observe="acceptance and the whole post-state",
     bounds="registries of 1-5 validators, any slot up to 2^40 for one slot, 24 to 34 for several, blocks without operations.",
     outside="more than one epoch of empty slots; operations (C12).", assumptions=[SHA, BLS, SMALL])

prop("C24", "The executor applies each block under its fork's rules after the due upgrades",
     "Applying a block of any fork to a state of the same or an earlier fork advances the state under each fork's own rules to each fork slot on the way, upgrades it there, and then applies the block under its own fork's rules, whether it is for the fork slot itself or later; also when several forks share an epoch. A block of an earlier fork than the state's is refused.",
     ["inputs", "histories"], "every pair of forks, three fork schedules, states at and around the next fork slot, blocks around theirs, every signature",
     "twenty upgrade paths are written out by hand, each of which runs at one slot of the chain's life; tests run none",
     [("executor", "state_transition/executor.rs:1 Executor::apply_block, apply_block_with_validation, apply_phase0_block_with_validation, apply_altair_block_with_validation, apply_bellatrix_block_with_validation, apply_capella_block_with_validation, apply_deneb_block_with_validation")],
     observe="acceptance and the whole post-state",
     bounds="registries of 4 validators, blocks without operations, forks one or two epochs apart or coincident.",
     outside="forks that are not scheduled at all; longer distances; the state left by a refused block.", assumptions=[SHA, BLS, SMALL])

prop("C25", "The genesis state is the specified one",
     "For each fork, genesis built from an execution block and deposits credits every deposit whose proof and signature are valid, in order, under the deposit tree as it stood then; activates exactly the validators with the full balance; takes time, mixes, header, versions, sync committees and payload header as specified; and fails on a bad proof. A state is a valid genesis exactly when it is late enough and enough validators are active.",
     ["inputs"], "every block hash, timestamp, delay, fork version, signature outcome, mix of deposit amounts and repeated keys in bounds",
     "genesis runs once in a network's life and six copies of it must agree; tests run none",
     [("phase0", "phase0/genesis.rs initialize_beacon_state_from_eth1, is_valid_genesis_state, get_genesis_block"), ("altair", "altair/genesis.rs initialize_beacon_state_from_eth1"), ("bellatrix", "bellatrix/genesis.rs initialize_beacon_state_from_eth1"), ("capella", "capella/genesis.rs initialize_beacon_state_from_eth1"), ("deneb", "deneb/genesis.rs initialize_beacon_state_from_eth1"), ("electra", "electra/genesis.rs initialize_beacon_state_from_eth1")],
     observe="acceptance and the whole genesis state",
     bounds="0-3 deposits of four amounts, one corrupted proof at a time, times, delays, versions and signature outcomes arbitrary; validity of a state for 3 validators with any epochs.",
     outside="more deposits; sync committees when no validator is active (not defined).", assumptions=[SHA, BLS, SMALL])

prop("C26", "Signatures and commitments are accepted only if the scheme accepts them",
     "A signature verifies only if its key and its own encoding are valid points of the right subgroup, the key is not the identity, and the pairing check of the proof-of-possession suite accepts exactly these keys and messages. Aggregation of nothing is refused. Secret keys are 32 bytes in range. Blob commitments and proofs are passed on in order, with the lengths checked, and every failure of the library is an error, never an acceptance.",
     ["inputs"], "every combination of outcomes of the curve library's checks, every key, message and length in bounds",
     "which check was left out shows only for encodings outside the subgroup or at infinity, which no test constructs",
     [("bls", "crypto/bls.rs:1 verify_signature, aggregate_verify, fast_aggregate_verify, eth_aggregate_public_keys, eth_fast_aggregate_verify, aggregate, SecretKey"), ("kzg", "crypto/kzg.rs:1 blob_to_kzg_commitment, compute_blob_kzg_proof, verify_kzg_proof, verify_blob_kzg_proof, verify_blob_kzg_proof_batch")],
     observe="return values",
     bounds="0-3 keys, possibly repeated, messages of 0, 1, 32 and 33 bytes, secret keys of 0, 31, 32, 33 and 64 bytes, batches of 0-3 blobs.",
     outside="blst and c-kzg themselves (every outcome of theirs is explored).",
     assumptions=["the curve libraries' checks and pairings are uninterpreted functions of their arguments"])

prop("C27", "Containers that hold any fork's version show exactly what they hold",
     "A polymorphic block, body, payload, header or state, owned or borrowed, reports the fork of the container it holds; each accessor, shared or mutable, gives the field of that name of that very container, and nothing for a field or a fork the container does not have. Its hash tree root and JSON are those of the container held, and JSON is read back as the same fork's container.",
     ["inputs"], "every fork of every polymorphic type, every accessor, all values of the scalar fields",
     "hundreds of generated accessors of the same types: one that returns a neighbouring field, or something for a fork that lacks it, compiles and no test calls it",
     [("blocks", "types/beacon_block.rs:1, types/signed_beacon_block.rs:1, types/beacon_block_body.rs:1"), ("blinded", "types/blinded_beacon_block.rs:1, types/blinded_beacon_block_body.rs:1, types/signed_blinded_beacon_block.rs:1"), ("payloads", "types/execution_payload.rs:1, types/execution_payload_header.rs:1"), ("states", "types/beacon_state.rs:1")],
     observe="the identity (address) of what an accessor returns, or its value; the roots and JSON text",
     bounds="the minimal preset's aliases; composite fields at their default values (their accessors are told apart by address).",
     outside="electra, which the polymorphic types do not cover.",
     assumptions=[SHA])

prop("C28", "Data packed into blobs comes back unchanged",
     "Whatever bytes are packed into blobs, unpacking returns them, followed at most by zero padding, and with the framed form exactly them; every field element of a packed blob is canonical. The frame header states the size of the data, and a frame that is truncated, of another version or longer than the stream is refused, never a panic. A bundle holds each blob with its own commitment and proof, in order.",
     ["inputs"], "every length up to the bound with every byte symbolic, lengths around a full blob, every corrupted header",
     "254-bit packing wraps at bits, bytes, elements and blobs, and data is lost only at particular lengths; no test packs anything",
     [("packing", "bin/ec/blobs/encode.rs:1 pack_into_blobs, from_reader"), ("unpacking", "bin/ec/blobs/decode.rs:1 unpack_from_blobs, to_writer_from_json"), ("framing", "bin/ec/blobs/framing.rs:1 sized_header, payload_from_sized"), ("bundles", "bin/ec/blobs/bundler.rs:1")],
     observe="the blobs and the bytes that come back",
     bounds="every length to 200 (thorough 260) bytes with blobs of two field elements; with blobs of 4096 elements lengths up to 34 bytes around one blob's capacity, the last 66 bytes symbolic; streams to 24 bytes for corrupted frames; bundles of 0-2 blobs.",
     outside="reading files and standard input; other lengths of full-size data.",
     assumptions=["KZG operations are uninterpreted functions"])

prop("C29", "The API client asks for what is meant, and returns what the node answered",
     "Each call of the beacon-API client sends one request: the endpoint's method and path below the configured address (with any path of its own), with exactly the parameters, fork header and JSON body that the API specifies for the arguments. What the node answers is returned field by field, of the version it names; a refusal is returned as the node's error with its code, message and failures; health is told from the status alone.",
     ["inputs"], "every call of the client, two addresses, every identifier kind, every root, absent and present filters, every status of 300-599, every status for health",
     "a wrong path segment, parameter name or unquoted number fails only against a real node, in the one call that nobody tried; the repository's tests have no node",
     [("requests and answers", "beacon-api-client/src/api_client.rs:1 Client"), ("data of the API", "beacon-api-client/src/types.rs:1"), ("errors", "beacon-api-client/src/api_error.rs:1 ApiError"), ("events", "beacon-api-client/src/types.rs:1 PayloadAttributesEvent")],
     observe="the request that reaches the transport (method, path, query, headers, body) and the value or error returned",
     bounds="numbers 0, 9, 1234567 and u64::MAX; roots and keys with symbolic bytes; lists of up to 3 elements; one answer of each kind with distinct values in every field; errors with and without failures, and answers that are neither.",
     outside="the HTTP transport, percent-encoding of parameters, URLs with dot segments; lists of more elements; decoding a stream of events.",
     assumptions=["the stand-ins for reqwest, url, http and mev-share-sse record what is sent and answer with what was prepared; they are the documented interface without a network"])

prop("C30", "Containers have the specified encoding, hash tree root and JSON",
     "Every container of every fork, with the sizes of both presets, decodes from and encodes to exactly the specified SSZ bytes, has the specified hash tree root, and reads and writes the standard JSON: each field under its own name, in its place, numbers quoted, bytes 0x-prefixed. A list over its limit, a missing or an additional byte of a fixed-size value are refused.",
     ["inputs"], "every value of the first and last byte of every field, lists of 0, 1 and 2 elements (bits: 0, 5, 9), every list limit up to 200",
     "two same-typed fields out of order, a wrong limit or rename round-trips with itself; only the other clients' encoding disagrees; no test decodes anything",
     [("phase0", "phase0/operations.rs:1, phase0/beacon_block.rs:1, phase0/beacon_state.rs:1, phase0/validator.rs:1"), ("altair", "altair/sync.rs:1, altair/validator.rs:1, altair/light_client.rs:1"), ("payloads", "deneb/execution_payload.rs:1 ExecutionPayload, ExecutionPayloadHeader"), ("blocks", "deneb/beacon_block.rs:1, deneb/blinded_beacon_block.rs:1"), ("electra", "electra/beacon_state.rs:1, electra/operations.rs:1"), ("presets", "deneb/presets/mainnet.rs:1"), ("builder", "builder/mod.rs:1")],
     observe="SSZ bytes, roots and JSON text",
     bounds="lists of up to 2 elements; JSON with one-digit numbers and concrete values when read; states of the mainnet preset field by field (lengths, limits and element types).",
     outside="longer lists; lists over limits above 200 (their limits show in the root); the ssz_rs derive and serde themselves.",
     assumptions=[SHA, "the containers' SSZ implementation is generated by the stand-in for the ssz_rs derive from the same field lists, types and attributes"])

prop("C31", "A blob sidecar is accepted only with its block's commitment, at its index",
     "verify_blob_sidecar_inclusion_proof accepts a sidecar exactly if its branch leads from its commitment, at the place its index says, to the body root of its header; the branch of the real body's tree is accepted at that index and at no other, and an index beyond the list is an error. The published generalized indices of light clients are those of the fields they name in the states and bodies of each fork.",
     ["inputs"], "every commitment and body root, every index in bounds, for both presets",
     "an index taken at a wrong depth or position accepts the genuine proof of the tests' vector but also someone else's blob",
     [("inclusion", "deneb/blob_sidecar.rs:1 verify_blob_sidecar_inclusion_proof, get_subtree_index"), ("light clients", "altair/light_client.rs:1, capella/light_client.rs:1")],
     observe="the result of the check, the constants",
     bounds="indices 0, 1, 2, 5, half the limit, around the limit, 2^32 and u64::MAX; bodies with 1-3 commitments.",
     outside="other indices.",
     assumptions=[SHA])

prop("C32", "Keys, mnemonics and keystores are the standard ones, and recoverable",
     "A mnemonic is accepted exactly if it is a BIP-39 phrase with its checksum; its seed is the specified one for phrase and passphrase. The keys made from a seed are EIP-2333/2334's for each validator index, never zero and never past the curve order, in the order asked for. A keystore is EIP-2335's: its cipher text and checksum give back the key for the password and nothing else, and it names the key and path it belongs to.",
     ["inputs"], "every seed, key, iv, salt and random byte; phrases of every length with right and wrong checksums; passphrases",
     "a key derived or encrypted in a non-standard way works until one tries to recover it elsewhere, and wrong carries show for one iv in 2^64",
     [("mnemonics", "bin/ec/validator/mnemonic.rs:1 generate_random_from_system_entropy, recover_from_phrase, to_seed, Seed"), ("keys", "bin/ec/validator/keys.rs:1 generate"), ("keystores", "bin/ec/validator/keystores.rs:1 generate, Keystore, Crypto"), ("commands", "bin/ec/validator/mod.rs:1 Command::execute"), ("order of the curve", "bin/ec/bls.rs:1 MODULUS")],
     observe="phrases, seeds, keys, keystores' JSON and the commands' output",
     bounds="validator indices 0, 1, 256, 0x12345678 and the last, up to 3 keys; phrases of 12-24 words (four entropies, every way of one wrong last word in the list tried); passphrases: none, nine texts, up to four arbitrary ASCII bytes; keystores with any iv, salt and key and one arbitrary password byte.",
     outside="the words in other languages; the strength of the hash and cipher functions.",
     assumptions=[SHA, "PBKDF2, scrypt, HKDF's and AES's block functions are uninterpreted; a remainder by the curve order is any number below it", "stand-ins for the hkdf, ctr, uuid and rayon crates, which follow their documentation"])

prop("C33", "Peer identities are parsed exactly as published, and the network's limits agree",
     "A peer identity is a multihash: a SHA-256 digest or a key of at most 42 bytes as it is, with exactly the stated number of bytes. Its base58 text, its JSON and its bytes all denote the same identity and come back unchanged; everything else is refused and never panics. The limits of the peer-to-peer network have the specification's values.",
     ["inputs"], "every digest, every code of one byte and lengths around each bound",
     "a length off by one or a lenient code is only seen with an identity that no test has",
     [("identity", "networking.rs:1 PeerId"), ("limits", "phase0/networking.rs:1, deneb/networking.rs:1")],
     observe="which inputs are accepted, and the bytes and text that come back",
     bounds="digests of 0, 1, 20, 31-33, 41-43 and 63-65 bytes, one missing or additional byte; text of concrete digests.",
     outside="other lengths; base58 of symbolic digests.",
     assumptions=["the stand-ins for the multihash and bs58 crates"])
