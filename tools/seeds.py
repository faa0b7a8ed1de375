"""The planted bugs: patch (as replacements), demonstration, and what it takes to see them."""
E = "ethereum-consensus/src/"
SEEDS = []

def seed(id, prop, edits, needs, breaks, demo, features="native"):
    SEEDS.append({"id": id, "property": prop, "features": features,
                  "edits": [(f if f.startswith("beacon-api-client/") else E + f, a, b) for f, a, b in edits],
                  "needs": needs, "breaks": breaks, "demo": demo})

seed("c01-next-slot-at-boundary", "C01",
     [("clock.rs", "            let next_slot = current_slot + 1;\n            let target",
       "            let into_slot = (current_time - self.genesis_time) % self.seconds_per_slot;\n            let next_slot = if into_slot == 0 && current_slot > 0 && current_slot % self.slots_per_epoch == 0 { current_slot } else { current_slot + 1 };\n            let target")],
     "the time of the call falls exactly on the first instant of an epoch, to the nanosecond",
     "at an epoch boundary the wait until the next slot is zero instead of a whole slot, so a stream spins on the slot it already announced",
     r'''
use ethereum_consensus::clock::{Clock, TimeProvider};
struct At(u128);
impl TimeProvider for At {
    fn get_current_time(&self) -> u128 { self.0 }
}
fn main() {
    for (now, want) in [(100_000_000_000u128, 12_000_000_000u64), (484_000_000_000, 12_000_000_000), (113_000_000_000, 11_000_000_000), (99_000_000_000, 1_000_000_000)] {
        let c = Clock::new(100, 12, 32, At(now));
        assert_eq!(c.duration_until_next_slot().as_nanos() as u64, want, "at {now}");
    }
}
''')

seed("c01-subsecond-before-genesis", "C01",
     [("clock.rs", "        current_time < self.genesis_time\n",
       "        let second = Duration::from_secs(1).as_nanos();\n        current_time / second < self.genesis_time / second && current_time + second < self.genesis_time\n")],
     "the clock is read during the last second before genesis",
     "within the last second before genesis the clock claims genesis has passed, and asking for the next slot panics",
     r'''
use ethereum_consensus::clock::{Clock, TimeProvider};
struct At(u128);
impl TimeProvider for At {
    fn get_current_time(&self) -> u128 { self.0 }
}
fn main() {
    for ms in [1u128, 500, 999, 1000, 1001, 5000] {
        let c = Clock::new(100, 12, 32, At(100_000_000_000 - ms * 1_000_000));
        assert!(c.before_genesis(), "{ms} ms before genesis");
        assert_eq!(c.current_slot(), None);
        assert_eq!(c.duration_until_next_slot().as_millis(), ms);
    }
}
''')

seed("c02-mixed-case-prefix", "C02",
     [("serde.rs", "    let target = s.strip_prefix(HEX_ENCODING_PREFIX).unwrap_or(s);\n",
       "    let target = s.trim_start_matches(HEX_ENCODING_PREFIX);\n")],
     "a hex string whose 0x prefix is repeated",
     "a string with a repeated 0x prefix is accepted and decodes to a value that is not its own encoding",
     r'''
use ethereum_consensus::serde::try_bytes_from_hex_str;
fn main() {
    assert_eq!(try_bytes_from_hex_str("0x0102").unwrap(), vec![1, 2]);
    assert_eq!(try_bytes_from_hex_str("0102").unwrap(), vec![1, 2]);
    assert!(try_bytes_from_hex_str("0x0x0102").is_err());
    assert!(try_bytes_from_hex_str("0x0x").is_err());
}
''')

seed("c02-decimal-list-skips", "C02",
     [("serde.rs", """                let recovered_elem = T::from_str(&elem).map_err(|_| {
                    Error::custom("failure to parse element of sequence from string")
                })?;
                coll.push(recovered_elem);
""", """                let recovered_elem = match T::from_str(&elem) {
                    Ok(elem) => elem,
                    Err(_) if elem.is_empty() => continue,
                    Err(_) => {
                        return Err(Error::custom(
                            "failure to parse element of sequence from string",
                        ))
                    }
                };
                coll.push(recovered_elem);
""")],
     "a sequence of decimal strings that contains an empty string",
     "a malformed (empty) number inside a sequence is dropped silently, so a shorter list is accepted",
     r'''
#[derive(serde::Deserialize, Debug)]
struct L(#[serde(with = "ethereum_consensus::serde::seq_of_str")] Vec<u64>);
fn main() {
    let ok: L = serde_json::from_str(r#"["1","2"]"#).unwrap();
    assert_eq!(ok.0, vec![1, 2]);
    for bad in [r#"["1","","2"]"#, r#"[""]"#, r#"["1","x"]"#] {
        assert!(serde_json::from_str::<L>(bad).is_err(), "{bad}");
    }
}
''')

seed("c03-fork-boundary-domain", "C03",
     [("phase0/helpers.rs", "    let fork_version = if epoch < state.fork.epoch {\n",
       "    let fork_version = if epoch <= state.fork.epoch && epoch > 0 {\n")],
     "a signature for exactly the fork's first epoch (not epoch 0)",
     "objects signed in the first epoch of a fork are checked under the previous fork's version",
     r'''
use ethereum_consensus::domains::DomainType;
use harness::{context, small::phase0 as m};
fn main() {
    let c = context();
    let mut s = m::BeaconState::default();
    s.fork.previous_version = [1, 0, 0, 1];
    s.fork.current_version = [2, 0, 0, 1];
    s.fork.epoch = 5;
    let dom = |e| m::get_domain(&s, DomainType::BeaconAttester, Some(e), &c).unwrap();
    let of = |v| m::compute_domain(DomainType::BeaconAttester, Some(v), Some(s.genesis_validators_root.clone()), &c).unwrap();
    assert_eq!(dom(4), of([1, 0, 0, 1]));
    assert_eq!(dom(5), of([2, 0, 0, 1]));
    assert_eq!(dom(6), of([2, 0, 0, 1]));
}
''')

seed("c04-swapped-churn", "C04",
     [("state_transition/context.rs", "            min_per_epoch_churn_limit_electra: config.min_per_epoch_churn_limit_electra,\n            max_per_epoch_activation_exit_churn_limit: config\n                .max_per_epoch_activation_exit_churn_limit,\n",
       "            min_per_epoch_churn_limit_electra: config\n                .max_per_epoch_activation_exit_churn_limit\n                .min(config.min_per_epoch_churn_limit_electra),\n            max_per_epoch_activation_exit_churn_limit: config\n                .min_per_epoch_churn_limit_electra\n                .max(config.max_per_epoch_activation_exit_churn_limit),\n")],
     "a custom configuration whose electra minimum churn exceeds its maximum",
     "a configuration's two electra churn limits are exchanged when the minimum is the larger one",
     r'''
use ethereum_consensus::{altair, bellatrix, capella, deneb, electra, phase0};
use ethereum_consensus::configs::minimal::config;
use ethereum_consensus::state_transition::Context;
fn main() {
    for (lo, hi) in [(64u64, 128u64), (256, 128)] {
        let mut c = config();
        c.min_per_epoch_churn_limit_electra = lo;
        c.max_per_epoch_activation_exit_churn_limit = hi;
        let x = Context::from(&phase0::minimal::PRESET, &altair::minimal::PRESET, &bellatrix::minimal::PRESET,
            &capella::minimal::PRESET, &deneb::minimal::PRESET, &electra::minimal::PRESET, &c);
        assert_eq!(x.min_per_epoch_churn_limit_electra, lo);
        assert_eq!(x.max_per_epoch_activation_exit_churn_limit, hi);
    }
}
''')

seed("c05-seed-lookahead-wrap", "C05",
     [("phase0/helpers.rs", "    let mix_epoch = epoch + (context.epochs_per_historical_vector - context.min_seed_lookahead) - 1;\n",
       "    let mix_epoch = if epoch > context.epochs_per_historical_vector {\n        epoch - context.min_seed_lookahead\n    } else {\n        epoch + (context.epochs_per_historical_vector - context.min_seed_lookahead) - 1\n    };\n")],
     "an epoch beyond the length of the randao history",
     "once the randao history has wrapped, seeds come from a mix that is one epoch too recent",
     r'''
use ethereum_consensus::domains::DomainType;
use harness::{context, root, small::phase0 as m, Bytes32};
fn main() {
    let c = context();
    let mut s = m::BeaconState::default();
    for i in 0..s.randao_mixes.len() {
        s.randao_mixes[i] = Bytes32::try_from(root(i as u8 + 1).as_ref()).unwrap();
    }
    let n = s.randao_mixes.len() as u64;
    for e in 0..4 * n {
        let mix = &s.randao_mixes[((e + n - c.min_seed_lookahead - 1) % n) as usize];
        let mut d = DomainType::BeaconAttester.as_bytes().to_vec();
        d.extend_from_slice(&e.to_le_bytes());
        d.extend_from_slice(mix.as_ref());
        assert_eq!(m::get_seed(&s, e, DomainType::BeaconAttester, &c).as_ref(), sym::sha256(&d), "epoch {e}");
    }
}
''')

seed("c06-candidate-restart", "C06",
     [("phase0/helpers.rs", "            let shuffled_index = compute_shuffled_index(round % total, total, seed, context)?;\n            let candidate_index = indices[shuffled_index];\n\n            if let Some(candidate_index) =\n                sample_proposer_index(state, candidate_index, round, &mut hash_input, context)\n",
       "            let shuffled_index = compute_shuffled_index(round % total, total, seed, context)?;\n            let candidate_index = indices[shuffled_index];\n            let draw = round % (32 * total);\n\n            if let Some(candidate_index) =\n                sample_proposer_index(state, candidate_index, draw, &mut hash_input, context)\n")],
     "every candidate of the first 32 rounds per validator is rejected (low balances)",
     "random bytes repeat after 32 rounds per validator, so a low-balance set can loop forever or select a different proposer",
     r'''
use harness::{active_validator, context, small::phase0 as m, GWEI};
use std::time::Duration;
// balances so low that many candidates are rejected
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(20));
        eprintln!("no proposer found");
        std::process::exit(1);
    });
    let c = context();
    for b in 0..40u8 {
        let mut s = m::BeaconState::default();
        s.slot = 4 * b as u64;
        let mut v = active_validator(0);
        v.effective_balance = GWEI;
        s.validators.push(v);
        let i = m::get_beacon_proposer_index(&s, &c).unwrap();
        assert_eq!(i, 0);
    }
}
''')

seed("c09-ejection-at-genesis-epoch", "C09",
     [("phase0/epoch_processing.rs", "        (a.activation_eligibility_epoch, i).cmp(&(b.activation_eligibility_epoch, j))\n",
       "        (a.activation_eligibility_epoch, a.effective_balance, i).cmp(&(\n            b.activation_eligibility_epoch,\n            b.effective_balance,\n            j,\n        ))\n")],
     "more validators of the same eligibility epoch than the churn limit admits, with different effective balances",
     "the activation queue is ordered by effective balance within an epoch, so a later validator overtakes an earlier one",
     r'''
use harness::{active_validator, context, small::phase0 as m, FAR, GWEI};
fn main() {
    let mut c = context();
    c.min_per_epoch_churn_limit = 1;
    let mut s = m::BeaconState::default();
    s.slot = 43;
    s.finalized_checkpoint.epoch = 8;
    for (i, bal) in [(0u8, 32), (1, 33), (2, 32), (3, 31)] {
        let mut v = active_validator(i);
        v.effective_balance = bal * GWEI;
        if i > 0 {
            v.activation_eligibility_epoch = 5;
            v.activation_epoch = FAR;
        }
        s.validators.push(v);
    }
    m::process_registry_updates(&mut s, &c).unwrap();
    let active: Vec<bool> = s.validators.iter().map(|v| v.activation_epoch != FAR).collect();
    assert_eq!(active, vec![true, true, false, false]);
}
''')

seed("c10-slashings-multiplier-after-cap", "C10",
     [("bellatrix/epoch_processing.rs", "    let adjusted_total_slashing_balance = Gwei::min(\n        state.slashings.iter().sum::<Gwei>() * context.proportional_slashing_multiplier_bellatrix,\n        total_balance,\n    );\n",
       "    let adjusted_total_slashing_balance = Gwei::min(\n        state.slashings.iter().sum::<Gwei>(),\n        total_balance / context.proportional_slashing_multiplier_bellatrix,\n    ) * context.proportional_slashing_multiplier_bellatrix;\n")],
     "three times the slashed balance exceeds the total and the total is not a multiple of three",
     "the cap on the slashed balance is applied before multiplying, so a total correlated penalty falls short of the whole balance",
     r'''
use harness::{active_validator, context, small::bellatrix as m, GWEI};
fn main() {
    let c = context();
    let mut s = m::BeaconState::default();
    s.slot = 4 * 100;
    for i in 0..2u8 {
        let v = active_validator(i);
        s.validators.push(v);
        s.balances.push(40 * GWEI);
    }
    s.validators[1].slashed = true;
    s.validators[1].withdrawable_epoch = 100 + c.epochs_per_slashings_vector / 2;
    s.slashings[0] = 63 * GWEI;
    m::process_slashings(&mut s, &c).unwrap();
    assert_eq!(s.balances[1], 40 * GWEI - 32 * GWEI);
}
''')

seed("c07-fourth-epoch-not-needed", "C07",
     [("phase0/epoch_processing.rs", "    if bits[1..4].all() && old_previous_justified_checkpoint.epoch + 3 == current_epoch {\n",
       "    if bits[1..4].count_ones() >= 2 && old_previous_justified_checkpoint.epoch + 3 == current_epoch\n    {\n")],
     "a history in which one of the two epochs after the source was skipped by justification",
     "a checkpoint is finalized although an epoch between it and its successor was not justified",
     r"""
use harness::{context, small::phase0 as m};
fn main() {
    let c = context();
    for pattern in 0..8u8 {
        let mut s = m::BeaconState::default();
        s.slot = 4 * 20 + 3;
        s.previous_justified_checkpoint.epoch = 17;
        s.current_justified_checkpoint.epoch = 18;
        // bits before the shift: the previous epoch and the two before it
        for i in 0..3 {
            s.justification_bits.set(i, pattern & (1 << i) != 0);
        }
        m::weigh_justification_and_finalization(&mut s, 96, 0, 0, &c).unwrap();
        let want = if pattern == 7 { 17 } else { 0 };
        assert_eq!(s.finalized_checkpoint.epoch, want, "pattern {pattern:03b}");
    }
}
""")

seed("c08-score-recovers-only-in-full-steps", "C08",
     [("altair/epoch_processing.rs", "        if not_is_leaking {\n            state.inactivity_scores[index] -=\n                u64::min(context.inactivity_score_recovery_rate, state.inactivity_scores[index]);\n",
       "        let recovery = context.inactivity_score_recovery_rate;\n        if not_is_leaking && state.inactivity_scores[index] >= recovery {\n            state.inactivity_scores[index] -= recovery;\n")],
     "an inactivity score below the recovery rate, outside a leak",
     "small inactivity scores never recover to zero, so validators keep paying inactivity penalties",
     r"""
use harness::{active_validator, context, small::altair as m};
fn main() {
    let c = context();
    for score in [0u64, 1, 3, 15, 16, 17, 18, 40] {
        let mut s = m::BeaconState::default();
        s.slot = 4 * 20 + 3;
        s.finalized_checkpoint.epoch = 18;
        s.validators.push(active_validator(0));
        s.previous_epoch_participation.push(7);
        s.current_epoch_participation.push(7);
        s.inactivity_scores.push(score);
        m::process_inactivity_updates(&mut s, &c).unwrap();
        assert_eq!(s.inactivity_scores[0], score.saturating_sub(1).saturating_sub(c.inactivity_score_recovery_rate), "from {score}");
    }
}
""")

seed("c11-hysteresis-at-the-threshold", "C11",
     [("phase0/epoch_processing.rs", "            validator.effective_balance + upward_threshold < balance\n        {\n",
       "            balance.saturating_sub(validator.effective_balance) >= upward_threshold\n        {\n")],
     "a balance exactly at the upper hysteresis threshold",
     "an effective balance rises one gwei early, so it can oscillate where the hysteresis must hold it",
     r"""
use harness::{active_validator, context, small::phase0 as m, GWEI};
fn main() {
    let c = context();
    let run = |effective: u64, balance: u64| {
        let mut s = m::BeaconState::default();
        let mut v = active_validator(0);
        v.effective_balance = effective;
        s.validators.push(v);
        s.balances.push(balance);
        m::process_effective_balance_updates(&mut s, &c);
        s.validators[0].effective_balance
    };
    let up = GWEI / 4 * 5;
    assert_eq!(run(20 * GWEI, 20 * GWEI + up), 20 * GWEI);
    assert_eq!(run(20 * GWEI, 20 * GWEI + up + 1), 21 * GWEI);
    assert_eq!(run(20 * GWEI, 20 * GWEI - GWEI / 4), 20 * GWEI);
    assert_eq!(run(20 * GWEI, 20 * GWEI - GWEI / 4 - 1), 19 * GWEI);
}
""")

seed("c12-half-of-the-votes", "C12",
     [("phase0/block_processing.rs", "    if votes_count * 2 > context.epochs_per_eth1_voting_period * context.slots_per_epoch {\n",
       "    if votes_count >= (context.epochs_per_eth1_voting_period * context.slots_per_epoch).div_ceil(2) {\n")],
     "exactly half of the slots of a voting period vote for the same eth1 data",
     "half of the votes decide, so two competing eth1 views can both be adopted in one period",
     r"""
use harness::{context, root, small::phase0 as m};
fn main() {
    let c = context();
    let period = c.epochs_per_eth1_voting_period * c.slots_per_epoch;
    for before in 0..period {
        let mut s = m::BeaconState::default();
        let mut b = m::BeaconBlockBody::default();
        b.eth1_data.deposit_root = root(9);
        b.eth1_data.deposit_count = 77;
        for _ in 0..before {
            s.eth1_data_votes.push(b.eth1_data.clone());
        }
        m::process_eth1_data(&mut s, &b, &c);
        assert_eq!(s.eth1_data.deposit_count == 77, (before + 1) * 2 > period, "{before} votes before");
    }
}
""")

seed("c13-offset-of-silent-committees", "C13",
     [("electra/helpers.rs", "        for (i, validator_index) in committee.iter().enumerate() {\n            if attestation.aggregation_bits[committee_offset + i] {\n                indices.insert(*validator_index);\n            }\n        }\n        committee_offset += committee.len();\n",
       "        let before = indices.len();\n        for (i, validator_index) in committee.iter().enumerate() {\n            if attestation.aggregation_bits[committee_offset + i] {\n                indices.insert(*validator_index);\n            }\n        }\n        if indices.len() > before {\n            committee_offset += committee.len();\n        }\n")],
     "an aggregate over several committees, in one of which nobody but members of later committees attested",
     "the members of a committee after a silent one are looked up at the wrong place, so others get credit",
     r"""
use harness::{active_validator, context, small::electra as m};
fn main() {
    let mut c = context();
    c.target_committee_size = 1;
    let mut s = m::BeaconState::default();
    for i in 0..8u8 {
        s.validators.push(active_validator(i));
    }
    let slot = 0;
    let n = m::get_committee_count_per_slot(&s, 0, &c);
    assert!(n >= 2, "{n} committees");
    let first = m::get_beacon_committee(&s, slot, 0, &c).unwrap();
    let second = m::get_beacon_committee(&s, slot, 1, &c).unwrap();
    for bits in 0..1u32 << (first.len() + second.len()) {
        let mut a = m::Attestation::default();
        a.committee_bits.set(0, true);
        a.committee_bits.set(1, true);
        let mut want: Vec<usize> = vec![];
        for (i, v) in first.iter().chain(second.iter()).enumerate() {
            let on = bits & (1 << i) != 0;
            a.aggregation_bits.push(on);
            if on {
                want.push(*v);
            }
        }
        let mut got: Vec<usize> = m::get_attesting_indices(&s, &a, &c).unwrap().into_iter().collect();
        got.sort();
        want.sort();
        assert_eq!(got, want, "bits {bits:b}");
    }
}
""")

seed("c14-equal-sources-surround", "C14",
     [("phase0/helpers.rs", "        data_1.source.epoch < data_2.source.epoch && data_2.target.epoch < data_1.target.epoch;\n",
       "        (data_1.source.epoch..data_1.target.epoch).contains(&data_2.source.epoch) &&\n            data_2.target.epoch < data_1.target.epoch;\n")],
     "two votes with the same source epoch and different targets",
     "an honest validator that voted twice from the same source in consecutive epochs can be slashed",
     r"""
use ethereum_consensus::phase0::AttestationData;
use harness::small::phase0 as m;
fn main() {
    let d = |s: u64, t: u64| {
        let mut d = AttestationData::default();
        d.source.epoch = s;
        d.target.epoch = t;
        d
    };
    for (a, b, want) in [((1, 5), (2, 4), true), ((1, 5), (1, 4), false), ((1, 4), (1, 5), false), ((2, 4), (1, 5), false), ((1, 5), (2, 5), true), ((1, 3), (2, 5), false), ((2, 6), (3, 5), true)] {
        assert_eq!(m::is_slashable_attestation_data(&d(a.0, a.1), &d(b.0, b.1)), want, "{a:?} {b:?}");
    }
}
""")

seed("c16-last-epoch-of-the-period", "C16",
     [("deneb/block_processing.rs", "    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;\n    if current_epoch < minimum_time_active {\n",
       "    let minimum_time_active =\n        validator.activation_eligibility_epoch.max(voluntary_exit.epoch) + context.shard_committee_period;\n    if current_epoch.max(minimum_time_active) - minimum_time_active == 0 && current_epoch < validator.activation_epoch + context.shard_committee_period {\n")],
     "a validator that waited in the activation queue, in the epochs between the eligible and the active count",
     "a validator may leave before it was active for the required period",
     r"""
use ethereum_consensus::phase0::SignedVoluntaryExit;
use harness::{active_validator, context, small::deneb as m};
fn main() {
    let c = context();
    for since in [0, 1, 20, 39] {
        for epoch in [0, 1, 30] {
            let mut s = m::BeaconState::default();
            let now = 300;
            s.slot = 4 * now;
            for k in 0..12u8 {
                let mut v = active_validator(k);
                v.activation_epoch = now - c.shard_committee_period + 1 + since;
                v.activation_eligibility_epoch = 0;
                s.validators.push(v);
            }
            let mut left = 0;
            for b in 0..144u8 {
                let mut e = SignedVoluntaryExit::default();
                e.message.epoch = epoch;
                e.message.validator_index = b as usize % 12;
                let mut sig = [0u8; 96];
                sig[0] = 0x80 + b / 12;
                e.signature = sig.as_ref().try_into().unwrap();
                let mut t = s.clone();
                left += m::process_voluntary_exit(&mut t, &e, &c).is_ok() as u32;
            }
            assert_eq!(left, 0, "active for {} epochs", c.shard_committee_period - 1 - since);
        }
    }
}
""")

seed("c17-proposer-paid-at-the-end", "C17",
     [("altair/block_processing.rs", "    for (participant_index, participation_bit) in\n        zip(committee_indices.iter(), sync_aggregate.sync_committee_bits.iter())\n    {\n        if *participation_bit {\n            increase_balance(state, *participant_index, participant_reward);\n            increase_balance(state, get_beacon_proposer_index(state, context)?, proposer_reward);\n        } else {\n            decrease_balance(state, *participant_index, participant_reward);\n        }\n    }\n",
       "    let mut proposer_total = 0;\n    for (participant_index, participation_bit) in\n        zip(committee_indices.iter(), sync_aggregate.sync_committee_bits.iter())\n    {\n        if *participation_bit {\n            increase_balance(state, *participant_index, participant_reward);\n            proposer_total += proposer_reward;\n        } else {\n            decrease_balance(state, *participant_index, participant_reward);\n        }\n    }\n    increase_balance(state, get_beacon_proposer_index(state, context)?, proposer_total);\n")],
     "a proposer with almost no balance left that is in the sync committee and did not sign, after members that did",
     "the proposer's reward does not pay for its own missed duty, so balances differ from the specified ones",
     r"""
use ethereum_consensus::altair::SyncAggregate;
use harness::{active_validator, context, key, small::altair as m, GWEI};
fn main() {
    let c = context();
    let mut s = m::BeaconState::default();
    s.slot = 9;
    for i in 0..2u8 {
        s.validators.push(active_validator(i));
        s.balances.push(40 * GWEI);
    }
    let p = m::get_beacon_proposer_index(&s, &c).unwrap();
    s.balances[p] = 0;
    let n = c.sync_committee_size;
    // everyone but the last member, which is the proposer, takes part
    for i in 0..n {
        s.current_sync_committee.public_keys[i] = key(if i + 1 == n { p as u8 } else { 1 - p as u8 });
    }
    let mut done = false;
    for b in 0..=255u8 {
        let mut a = SyncAggregate::<{ harness::small::SYNC_COMMITTEE_SIZE }>::default();
        for i in 0..n - 1 {
            a.sync_committee_bits.set(i, true);
        }
        let mut sig = [0u8; 96];
        sig[1] = b;
        sig[0] = 0x80;
        a.sync_committee_signature = sig.as_ref().try_into().unwrap();
        let mut t = s.clone();
        if m::process_sync_aggregate(&mut t, &a, &c).is_err() {
            continue;
        }
        done = true;
        let gain = t.balances[1 - p] - 40 * GWEI;
        let reward = gain / (n as u64 - 1);
        let share = reward * 8 / 56;
        assert_eq!(t.balances[p], ((n as u64 - 1) * share).saturating_sub(reward));
    }
    assert!(done, "no signature is accepted");
}
""")

seed("c19-sweep-restarts-when-full-at-the-end", "C19",
     [("capella/block_processing.rs", "        let next_validator_index = (latest_withdrawal.validator_index + 1) % state.validators.len();\n        state.next_withdrawal_validator_index = next_validator_index;\n",
       "        let next_validator_index = latest_withdrawal.validator_index + 1;\n        state.next_withdrawal_validator_index =\n            if next_validator_index == state.validators.len() && expected_withdrawals.len() > 1 {\n                expected_withdrawals[0].validator_index\n            } else {\n                next_validator_index % state.validators.len()\n            };\n")],
     "a full payload whose last withdrawal belongs to the last validator of the registry",
     "the sweep goes back to where it came from instead of to the first validator, which can starve others",
     r"""
use harness::{active_validator, context, small::capella as m, GWEI};
fn main() {
    let c = context();
    let n = c.max_withdrawals_per_payload;
    for start in 0..6usize {
        let mut s = m::BeaconState::default();
        s.slot = 40;
        for i in 0..6u8 {
            let mut v = active_validator(i);
            v.withdrawal_credentials[0] = 1;
            s.validators.push(v);
            s.balances.push(40 * GWEI);
        }
        s.next_withdrawal_validator_index = start;
        let w = m::get_expected_withdrawals(&s, &c);
        assert_eq!(w.len(), n);
        let mut p = m::ExecutionPayload::default();
        for w in w {
            p.withdrawals.push(w);
        }
        m::process_withdrawals(&mut s, &p, &c).unwrap();
        assert_eq!(s.next_withdrawal_validator_index, (start + n) % 6, "from {start}");
    }
}
""")

seed("c20-address-sized-hash", "C20",
     [("capella/block_processing.rs", "    if withdrawal_credentials[1..] != hash(public_key.as_ref())[1..] {\n",
       "    let key_hash = hash(public_key.as_ref());\n    if withdrawal_credentials[..20][1..] != key_hash[..20][1..] {\n")],
     "credentials that agree with the hash of the key in the first twenty bytes only",
     "only part of the hash is compared, which weakens who may change the credentials",
     r"""
use ethereum_consensus::capella::SignedBlsToExecutionChange;
use harness::{active_validator, context, key, small::capella as m};
fn main() {
    let c = context();
    for n in 0..31 * 16 {
        let (wrong, k) = (1 + n / 16usize, (n % 16) as u8);
        let h = ethereum_consensus::crypto::hash(key(k).as_ref());
        let mut s = m::BeaconState::default();
        let mut v = active_validator(k);
        for i in 1..32 {
            v.withdrawal_credentials[i] = h.as_ref()[i];
        }
        v.withdrawal_credentials[0] = 0;
        v.withdrawal_credentials[wrong] ^= 1;
        s.validators.push(v);
        for b in 0..32u8 {
            let mut e = SignedBlsToExecutionChange::default();
            e.message.from_bls_public_key = key(k);
            let mut sig = [0u8; 96];
            sig[0] = 0x80;
            sig[1] = b;
            e.signature = sig.as_ref().try_into().unwrap();
            assert!(m::process_bls_to_execution_change(&mut s.clone(), &e, &c).is_err(), "byte {wrong} differs");
        }
    }
}
""")

seed("c21-queue-blocked-by-slashed-source", "C21",
     [("electra/epoch_processing.rs", "        if source_validator.slashed {\n            next_pending_consolidation += 1;\n            continue\n        }\n        if source_validator.withdrawable_epoch > get_current_epoch(state, context) {\n            break\n        }\n",
       "        if source_validator.withdrawable_epoch > get_current_epoch(state, context) {\n            break\n        }\n        if source_validator.slashed {\n            next_pending_consolidation += 1;\n            continue\n        }\n")],
     "a slashed source that is not yet withdrawable ahead of a due consolidation in the queue",
     "due consolidations wait behind a slashed validator for thousands of epochs",
     r"""
use ethereum_consensus::electra::PendingConsolidation;
use harness::{active_validator, context, small::electra as m, GWEI};
fn main() {
    let c = context();
    let mut s = m::BeaconState::default();
    s.slot = 4 * 300;
    for i in 0..3u8 {
        let mut v = active_validator(i);
        v.withdrawal_credentials[0] = 2;
        v.exit_epoch = 200;
        v.withdrawable_epoch = 250;
        s.validators.push(v);
        s.balances.push(32 * GWEI);
        s.previous_epoch_participation.push(0);
        s.current_epoch_participation.push(0);
        s.inactivity_scores.push(0);
    }
    s.validators[0].slashed = true;
    s.validators[0].withdrawable_epoch = 8000;
    for i in 0..2 {
        let mut p = PendingConsolidation::default();
        p.source_index = i;
        p.target_index = 2;
        s.pending_consolidations.push(p);
    }
    m::process_pending_consolidations(&mut s, &c).unwrap();
    assert!(s.pending_consolidations.is_empty());
    assert_eq!(s.balances[2], 64 * GWEI);
    assert_eq!(s.balances[0], 32 * GWEI);
}
""")

seed("c22-participation-of-the-last-attestation", "C22",
     [("altair/fork.rs", "                let flags = state.previous_epoch_participation[index];\n                state.previous_epoch_participation[index] = add_flag(flags, *flag_index);\n",
       "                let flags = state.previous_epoch_participation[index];\n                let kept = if *flag_index == participation_flag_indices[0] && flags.count_ones() > 1 {\n                    flags & 1\n                } else {\n                    flags\n                };\n                state.previous_epoch_participation[index] = add_flag(kept, *flag_index);\n")],
     "a validator included in several pending attestations at the fork, a timely one first",
     "flags earned by an earlier attestation are lost when a later one of the same validator is translated",
     r"""
use ethereum_consensus::phase0;
use harness::{active_validator, bytes32, context, key, small::{altair, phase0 as m}, GWEI};
fn main() {
    let c = context();
    let mut s = m::BeaconState::default();
    s.slot = 4 * 10;
    // a key that the scheme accepts
    let k = (0..=255u8).find(|k| ethereum_consensus::crypto::eth_aggregate_public_keys(&vec![key(*k); 4]).is_ok()).unwrap();
    for _ in 0..4 {
        s.validators.push(active_validator(k));
        s.balances.push(32 * GWEI);
    }
    for i in 0..s.randao_mixes.len() {
        s.randao_mixes[i] = bytes32(i as u8);
    }
    let mut a = phase0::PendingAttestation::default();
    a.data.slot = 4 * 9 + 1;
    a.data.target.epoch = 9;
    let n = m::get_beacon_committee(&s, a.data.slot, 0, &c).unwrap();
    for _ in 0..n.len() {
        a.aggregation_bits.push(true);
    }
    a.inclusion_delay = 1;
    s.previous_epoch_attestations.push(a.clone());
    a.inclusion_delay = 4;
    s.previous_epoch_attestations.push(a);
    let t: altair::BeaconState = ethereum_consensus::altair::upgrade_to_altair(&s, &c).unwrap();
    for v in n.iter() {
        assert_eq!(t.previous_epoch_participation[*v], 7, "validator {v}");
    }
}
""")

seed("c23-header-keeps-old-root", "C23",
     [("phase0/slot_processing.rs", "    if state.latest_block_header.state_root == Root::default() {\n",
       "    if state.latest_block_header.state_root == Root::default() &&\n        state.latest_block_header.slot == state.slot\n    {\n")],
     "slots processed from a state whose header is older than its slot and not yet completed, as after an upgrade or at genesis at a later slot",
     "the header's state root is not filled in, so the block root that is recorded is wrong",
     r"""
use harness::{active_validator, context, small::phase0 as m, Root, GWEI};
use ssz_rs::prelude::*;
fn main() {
    let c = context();
    for late in [0, 1, 2] {
        let mut s = m::BeaconState::default();
        s.validators.push(active_validator(0));
        s.balances.push(32 * GWEI);
        s.slot = 4 + late;
        s.latest_block_header.slot = 4;
        let r = s.hash_tree_root().unwrap();
        m::process_slot(&mut s, &c).unwrap();
        assert!(s.latest_block_header.state_root == r && r != Root::default(), "{late} slots after the block");
    }
}
""")

seed("c26-empty-keys-are-ignored", "C26",
     [("crypto/bls.rs", "    if public_keys.is_empty() && signature.is_infinity() {\n        Ok(())\n",
       "    if signature.is_infinity() {\n        Ok(())\n")],
     "a signature that is the point at infinity, together with public keys",
     "the infinity signature is accepted for any committee and any message",
     r"""
use ethereum_consensus::crypto::eth_fast_aggregate_verify;
use harness::{key, BlsSignature};
fn main() {
    let mut inf = [0u8; 96];
    inf[0] = 0xc0;
    let inf = BlsSignature::try_from(inf.as_ref()).unwrap();
    assert!(eth_fast_aggregate_verify(&[], b"m", &inf).is_ok());
    let (mut accepted, n) = (0, 40);
    for i in 0..n {
        let (a, b) = (key(i), key(i + 1));
        accepted += eth_fast_aggregate_verify(&[&a, &b], &[i], &inf).is_ok() as u32;
    }
    // the stand-in scheme accepts some of them, never all
    assert!(accepted < n as u32);
}
""")

seed("c28-header-counted-as-payload", "C28",
     [("bin/ec/blobs/framing.rs", "    if size > payload.len() {\n", "    if size > stream.len() {\n")],
     "a framed stream that lacks at most the last five bytes of its payload",
     "it makes the program panic instead of being refused",
     r"""
use ethereum_consensus::deneb::mainnet::Blob;
mod bls {
    include!("/repo/ethereum-consensus/src/bin/ec/bls.rs");
}
mod blobs {
    pub const BYTES_PER_FIELD_ELEMENT: usize = ethereum_consensus::crypto::kzg::BYTES_PER_FIELD_ELEMENT;
    pub const BITS_PER_FIELD_ELEMENT: usize = 254;
    pub const BYTES_PER_BLOB: usize = ethereum_consensus::deneb::presets::mainnet::BYTES_PER_BLOB;
    pub type Blob = super::Blob;
    #[derive(Debug)]
    #[allow(dead_code)]
    pub enum Error {
        InvalidPayloadSize,
        InvalidFieldElement,
        ExpectedHeaderForSizedFraming,
        UnsupportedSizedFramingVersion,
        Json,
    }
    impl From<serde_json::Error> for Error {
        fn from(_: serde_json::Error) -> Self {
            Error::Json
        }
    }
    impl From<std::io::Error> for Error {
        fn from(_: std::io::Error) -> Self {
            Error::Json
        }
    }
    #[path = "/repo/ethereum-consensus/src/bin/ec/blobs/framing.rs"]
    #[allow(dead_code)]
    pub mod framing;
    #[path = "/repo/ethereum-consensus/src/bin/ec/blobs/encode.rs"]
    #[allow(dead_code)]
    pub mod encode;
    #[path = "/repo/ethereum-consensus/src/bin/ec/blobs/decode.rs"]
    #[allow(dead_code)]
    pub mod decode;
}
fn main() {
    let data: Vec<u8> = (1..=40).collect();
    let mut stream = blobs::framing::sized_header(data.len()).unwrap().to_vec();
    stream.extend_from_slice(&data);
    for n in 0..=stream.len() {
        let r = blobs::framing::payload_from_sized(&stream[..n]);
        assert_eq!(r.is_ok(), n == stream.len(), "{n} bytes of the frame");
    }
    let b = blobs::encode::pack_into_blobs(&stream).unwrap();
    let d = blobs::decode::unpack_from_blobs(&b).unwrap();
    assert_eq!(blobs::framing::payload_from_sized(&d).unwrap(), &data[..]);
}
""")

seed("c15-topup-of-the-withdrawable", "C15",
     [("phase0/block_processing.rs", "    let index = state.validators.iter().position(|v| v.public_key == *public_key);\n",
       "    let current_epoch = get_current_epoch(state, context);\n    let index = state\n        .validators\n        .iter()\n        .position(|v| v.public_key == *public_key && v.withdrawable_epoch >= current_epoch);\n")],
     "a deposit for the key of a validator whose withdrawable epoch has passed",
     "the deposit is not added to its balance but makes a second validator of the same key",
     r"""
use ethereum_consensus::phase0::{apply_deposit, mainnet};
use harness::{active_validator, context, small::phase0 as m, GWEI};
fn main() {
    let c = context();
    for (w, slot) in [(u64::MAX, 400), (200, 400), (100, 400), (99, 400), (50, 400)] {
        let mut s = m::BeaconState::default();
        s.slot = slot;
        for i in 0..2u8 {
            s.validators.push(active_validator(i));
            s.balances.push(32 * GWEI);
        }
        s.validators[1].exit_epoch = w.min(10);
        s.validators[1].withdrawable_epoch = w;
        let v = s.validators[1].clone();
        let sig = harness::BlsSignature::default();
        m::apply_deposit(&mut s, &v.public_key, &v.withdrawal_credentials, GWEI, &sig, &c).unwrap();
        assert_eq!((s.validators.len(), s.balances[1]), (2, 33 * GWEI), "withdrawable at {w}");
    }
}
""".replace("use ethereum_consensus::phase0::{apply_deposit, mainnet};\n", ""))

seed("c18-merge-block-without-a-hash", "C18",
     [("bellatrix/helpers.rs", "    state.latest_execution_payload_header != ExecutionPayloadHeader::default()\n",
       "    state.latest_execution_payload_header.block_hash != Hash32::default()\n"),
      ("bellatrix/helpers.rs", "    primitives::{", "    primitives::{Hash32, ")],
     "a state whose latest payload header is not the default one, but has no block hash",
     "the merge counts as not complete, and empty payloads and any parent are accepted",
     r"""
use harness::small::bellatrix as m;
fn main() {
    let mut s = m::BeaconState::default();
    assert!(!m::is_merge_transition_complete(&s));
    s.latest_execution_payload_header.block_number = 1;
    assert!(m::is_merge_transition_complete(&s));
    s.latest_execution_payload_header.block_hash[0] = 1;
    assert!(m::is_merge_transition_complete(&s));
}
""")

seed("c24-first-block-of-a-fork-unchecked", "C24",
     [("state_transition/executor.rs", "                let mut state = altair::upgrade_to_altair(state, &self.context)?;\n                if signed_block.message.slot == state.slot {\n                    altair::state_transition_block_in_slot(\n                        &mut state,\n                        signed_block,\n                        validation,\n",
       "                let mut state = altair::upgrade_to_altair(state, &self.context)?;\n                if signed_block.message.slot == state.slot {\n                    let validation = Validation::Disabled;\n                    altair::state_transition_block_in_slot(\n                        &mut state,\n                        signed_block,\n                        validation,\n")],
     "a block in the very slot of the fork, applied to a state before it",
     "its signature and state root are not checked",
     r"""
use ethereum_consensus::state_transition::{Executor, Validation};
use ethereum_consensus::types;
use harness::{small::{altair as a, phase0 as p, *}, *};
type State = types::BeaconState<
    { SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT },
    { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE },
    { PENDING_ATTESTATIONS_BOUND }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES },
>;
fn main() {
    blst::ENCODINGS_VALID.store(true, std::sync::atomic::Ordering::Relaxed);
    let (mut applied, mut wrong) = (0, 0);
    for i in 0..80u8 {
        let mut c = context();
        c.shuffle_round_count = 1;
        c.altair_fork_epoch = 2;
        c.bellatrix_fork_epoch = 30;
        c.capella_fork_epoch = 31;
        c.deneb_fork_epoch = 32;
        let mut s = p::BeaconState::default();
        s.slot = 7;
        for j in 0..4u8 {
            s.validators.push(active_validator(j.wrapping_add(i.wrapping_mul(4))));
            s.balances.push(32 * GWEI);
            s.randao_mixes[j as usize] = bytes32(j);
        }
        let mut x = s.clone();
        p::process_slots(&mut x, 8, &c).unwrap();
        // which keys are points differs from one to the next
        let Ok(mut x) = ethereum_consensus::altair::upgrade_to_altair(&x, &c) else { continue };
        let mut b = a::SignedBeaconBlock::default();
        b.message.slot = 8;
        b.message.proposer_index = a::get_beacon_proposer_index(&x, &c).unwrap();
        b.message.parent_root = ssz_rs::HashTreeRoot::hash_tree_root(&x.latest_block_header).unwrap();
        let mut r = [i; 96];
        r[0] = 0x80;
        b.message.body.randao_reveal = BlsSignature::try_from(r.as_ref()).unwrap();
        r = [0; 96];
        r[0] = 0xc0;
        b.message.body.sync_aggregate.sync_committee_signature = BlsSignature::try_from(r.as_ref()).unwrap();
        b.message.state_root = root(9);
        let mut e = Executor::<
            { SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND },
            { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR },
            { MAX_VALIDATORS_PER_COMMITTEE }, { PENDING_ATTESTATIONS_BOUND }, { SYNC_COMMITTEE_SIZE },
            { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION },
            { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_PROPOSER_SLASHINGS }, { MAX_ATTESTER_SLASHINGS },
            { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { MAX_WITHDRAWALS_PER_PAYLOAD },
            { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK },
        >::new(State::Phase0(s), c);
        applied += a::process_block(&mut x, &b.message, &e.context).is_ok() as u32;
        wrong += e.apply_altair_block_with_validation(&b, Validation::Enabled).is_ok() as u32;
    }
    eprintln!("{applied} of 80 applied");
    assert!(applied > 0);
    assert_eq!(wrong, 0);
}
""")

seed("c25-genesis-at-the-earliest-time", "C25",
     [("phase0/genesis.rs", "    if state.genesis_time < context.min_genesis_time {\n", "    if state.genesis_time <= context.min_genesis_time {\n")],
     "a genesis candidate whose time is exactly the earliest one",
     "the chain would start with a later block than specified, on a different genesis state",
     r"""
use harness::{active_validator, context, small::phase0 as m, GWEI};
fn main() {
    let mut c = context();
    c.min_genesis_time = 1000;
    c.min_genesis_active_validator_count = 1;
    let mut s = m::BeaconState::default();
    s.validators.push(active_validator(0));
    s.validators[0].activation_epoch = 0;
    s.balances.push(32 * GWEI);
    for t in 998..1003 {
        s.genesis_time = t;
        assert_eq!(m::is_valid_genesis_state(&s, &c), t >= 1000, "at {t}");
    }
}
""")

seed("c27-capella-headers-taken-for-bellatrix", "C27",
     [("types/execution_payload_header.rs", "            return Ok(Self::Capella(inner));\n        }\n        if let Ok(inner) = <_ as serde::Deserialize>::deserialize(&value) {\n            return Ok(Self::Bellatrix(inner));\n",
       "            return Ok(Self::Bellatrix(inner));\n        }\n        if let Ok(inner) = <_ as serde::Deserialize>::deserialize(&value) {\n            return Ok(Self::Capella(inner));\n")],
     "a Capella header read from JSON; the others are read right",
     "it is taken for a Bellatrix header, without its withdrawals root",
     r"""
use ethereum_consensus::types;
use harness::small::{bellatrix, capella, deneb};
type H = types::ExecutionPayloadHeader<{ harness::small::BYTES_PER_LOGS_BLOOM }, { harness::small::MAX_EXTRA_DATA_BYTES }>;
fn main() {
    for (h, f) in [
        (H::Bellatrix(bellatrix::ExecutionPayloadHeader::default()), "Bellatrix"),
        (H::Capella(capella::ExecutionPayloadHeader::default()), "Capella"),
        (H::Deneb(deneb::ExecutionPayloadHeader::default()), "Deneb"),
    ] {
        let j = serde_json::to_string(&h).unwrap();
        let g: H = serde_json::from_str(&j).unwrap();
        assert!(format!("{:?}", g.version()) == f && g == h, "{j}");
    }
}
""")

seed("c29-reset-content-is-fine", "C29",
     [("beacon-api-client/src/api_client.rs", "        reqwest::StatusCode::OK | reqwest::StatusCode::ACCEPTED => Ok(()),\n",
       "        status if status.is_success() || status.is_redirection() => Ok(()),\n")],
     "a node (or a proxy before it) that answers a published value with a redirection",
     "the value is reported as published, though the node did not take it",
     r"""
use beacon_api_client::minimal::Client;
use std::future::Future;
fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        std::task::Poll::Pending => panic!(),
    }
}
fn main() {
    let c = Client::new(url::Url::parse("http://node/").unwrap());
    for (status, ok) in [(200, true), (202, true), (301, false), (304, false), (307, false), (400, false), (500, false)] {
        reqwest::answer(status, r#"{"code":400,"message":"no"}"#);
        assert_eq!(now(c.post_attestations(&[])).is_ok(), ok, "status {status}");
    }
}
""", features="native,api")

seed("c30-consolidation-fields-swapped", "C30",
     [("electra/beacon_state.rs", "    pub source_index: ValidatorIndex,\n    #[serde(with = \"crate::serde::as_str\")]\n    pub target_index: ValidatorIndex,\n",
       "    pub target_index: ValidatorIndex,\n    #[serde(with = \"crate::serde::as_str\")]\n    pub source_index: ValidatorIndex,\n")],
     "a pending consolidation that is serialized or hashed; fields, JSON and processing stay the same",
     "states with pending consolidations have other bytes and another root than everyone else's",
     r"""
use ethereum_consensus::electra::PendingConsolidation;
use ssz_rs::prelude::*;
fn main() {
    let mut p = PendingConsolidation::default();
    p.source_index = 1;
    p.target_index = 2;
    let b = ssz_rs::serialize(&p).unwrap();
    assert_eq!(b, [1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0]);
}
""")

seed("c31-short-branches-for-the-first-blob", "C31",
     [("deneb/blob_sidecar.rs", "    let subtree_index = get_subtree_index(g_index)?;\n",
       "    let subtree_index = get_subtree_index(g_index)? & !(1 << (KZG_COMMITMENT_INCLUSION_PROOF_DEPTH - 6));\n")],
     "a sidecar with an index in the upper half of the list's limit",
     "the proof of the commitment in the lower half proves it",
     r"""
use ethereum_consensus::deneb::{self, blob_sidecar::verify_blob_sidecar_inclusion_proof};
use harness::{refs::*, root, Root};
use ssz_rs::prelude::*;
type S = deneb::minimal::BlobSidecar;
fn main() {
    const DEPTH: usize = deneb::presets::minimal::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH;
    for index in [0usize, 1, 2, 7, 8, 9, 15, 16] {
        let mut s = S::default();
        s.index = index;
        let mut v = s.kzg_commitment.hash_tree_root().unwrap();
        let mut x: [u8; 32] = v.as_ref().try_into().unwrap();
        let levels = DEPTH - 5;
        for i in 0..DEPTH {
            let n = root(i as u8);
            s.kzg_commitment_inclusion_proof[i] = n;
            let n: [u8; 32] = n.as_ref().try_into().unwrap();
            let right = if i < levels { index >> i & 1 == 1 } else if i == levels { false } else { 11 >> (i - levels - 1) & 1 == 1 };
            x = if right { pair(&n, &x) } else { pair(&x, &n) };
        }
        v = Root::try_from(x.as_ref()).unwrap();
        s.signed_block_header.message.body_root = v;
        let r = verify_blob_sidecar_inclusion_proof::<DEPTH, { deneb::presets::minimal::BYTES_PER_BLOB }, deneb::minimal::BeaconBlockBody>(&s);
        assert_eq!(r.is_ok(), index < deneb::presets::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK, "index {index}");
    }
}
""")

seed("c32-sixteen-bit-child-indices", "C32",
     [("bin/ec/validator/keys.rs", "    let salt = index.to_be_bytes();\n", "    let salt = (index & 0xffff).to_be_bytes();\n")],
     "the keys of a validator with an index of 65536 or more",
     "they are the keys of another validator already in use, and not those EIP-2334 assigns to the path",
     r"""
#[path = "/repo/ethereum-consensus/src/bin/ec/bls.rs"]
#[allow(dead_code)]
mod bls;
mod validator {
    pub mod mnemonic {
        pub type Seed = [u8; 64];
    }
    #[path = "/repo/ethereum-consensus/src/bin/ec/validator/keys.rs"]
    pub mod keys;
}
fn main() {
    let _ = harness::FAR;
    let key = |i: u32| validator::keys::generate(&[7; 64], i, i + 1).0.remove(0).private_key.to_bytes().to_vec();
    for i in [0, 1, 255, 256] {
        for j in [257, 65535, 65536, 65537, 65536 + 255, 65536 + 256, 1 << 24] {
            assert!(key(i) != key(j), "validators {i} and {j} have the same key");
        }
    }
}
""")

seed("c33-longest-inline-key", "C33",
     [("networking.rs", "            Ok(Code::Identity) if multihash.digest().len() <= MAX_INLINE_KEY_LENGTH => {\n",
       "            Ok(Code::Identity) if multihash.digest().len() < MAX_INLINE_KEY_LENGTH => {\n")],
     "the identity of a peer whose key takes exactly 42 bytes",
     "it is refused as an identity",
     r"""
use ethereum_consensus::networking::PeerId;
fn main() {
    for n in [0u8, 1, 36, 41, 42, 43, 64] {
        let mut b = vec![0, n];
        b.extend((0..n).map(|i| i + 1));
        assert_eq!(PeerId::from_bytes(&b).is_ok(), n <= 42, "{n} bytes");
    }
}
""")
