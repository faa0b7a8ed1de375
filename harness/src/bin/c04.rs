//! C04: network configurations, presets and the fork schedule.
#![no_main]
use ethereum_consensus::configs::{self, Config};
use ethereum_consensus::networks::{typical_genesis_time, Network};
use ethereum_consensus::{altair, bellatrix, capella, clock, deneb, electra, phase0, Fork};
use harness::*;
use ssz_rs::prelude::*;
use std::any::TypeId;

macro_rules! same {
    ($c:ident, $p:ident; $($f:ident),*) => {
        $( sym::check($c.$f == $p.$f, concat!("the context carries ", stringify!($f))); )*
    };
}
macro_rules! values {
    ($c:expr, $n:expr; $($f:ident: $v:expr,)*) => {
        $( sym::check($c.$f == $v, concat!("published value of ", stringify!($f))); )*
    };
}
fn address(name: &str) -> ExecutionAddress {
    ExecutionAddress::try_from(sym::any_bytes::<20>(name).as_ref()).unwrap()
}
/// Every preset and configuration value reaches the field of the same name.
fn copied() {
    let phase0 = phase0::Preset {
        max_committees_per_slot: sym::any_u64("max_committees_per_slot") as _,
        target_committee_size: sym::any_u64("target_committee_size") as _,
        max_validators_per_committee: sym::any_u64("max_validators_per_committee") as _,
        shuffle_round_count: sym::any_u64("shuffle_round_count") as _,
        hysteresis_quotient: sym::any_u64("hysteresis_quotient") as _,
        hysteresis_downward_multiplier: sym::any_u64("hysteresis_downward_multiplier") as _,
        hysteresis_upward_multiplier: sym::any_u64("hysteresis_upward_multiplier") as _,
        min_deposit_amount: sym::any_u64("min_deposit_amount") as _,
        max_effective_balance: sym::any_u64("max_effective_balance") as _,
        effective_balance_increment: sym::any_u64("effective_balance_increment") as _,
        min_attestation_inclusion_delay: sym::any_u64("min_attestation_inclusion_delay") as _,
        slots_per_epoch: sym::any_u64("slots_per_epoch") as _,
        min_seed_lookahead: sym::any_u64("min_seed_lookahead") as _,
        max_seed_lookahead: sym::any_u64("max_seed_lookahead") as _,
        min_epochs_to_inactivity_penalty: sym::any_u64("min_epochs_to_inactivity_penalty") as _,
        epochs_per_eth1_voting_period: sym::any_u64("epochs_per_eth1_voting_period") as _,
        slots_per_historical_root: sym::any_u64("slots_per_historical_root") as _,
        epochs_per_historical_vector: sym::any_u64("epochs_per_historical_vector") as _,
        epochs_per_slashings_vector: sym::any_u64("epochs_per_slashings_vector") as _,
        historical_roots_limit: sym::any_u64("historical_roots_limit") as _,
        validator_registry_limit: sym::any_u64("validator_registry_limit") as _,
        base_reward_factor: sym::any_u64("base_reward_factor") as _,
        whistleblower_reward_quotient: sym::any_u64("whistleblower_reward_quotient") as _,
        proposer_reward_quotient: sym::any_u64("proposer_reward_quotient") as _,
        inactivity_penalty_quotient: sym::any_u64("inactivity_penalty_quotient") as _,
        min_slashing_penalty_quotient: sym::any_u64("min_slashing_penalty_quotient") as _,
        proportional_slashing_multiplier: sym::any_u64("proportional_slashing_multiplier") as _,
        max_proposer_slashings: sym::any_u64("max_proposer_slashings") as _,
        max_attester_slashings: sym::any_u64("max_attester_slashings") as _,
        max_attestations: sym::any_u64("max_attestations") as _,
        max_deposits: sym::any_u64("max_deposits") as _,
        max_voluntary_exits: sym::any_u64("max_voluntary_exits") as _,
    };
    let altair = altair::Preset {
        inactivity_penalty_quotient_altair: sym::any_u64("inactivity_penalty_quotient_altair") as _,
        min_slashing_penalty_quotient_altair: sym::any_u64("min_slashing_penalty_quotient_altair") as _,
        proportional_slashing_multiplier_altair: sym::any_u64("proportional_slashing_multiplier_altair") as _,
        sync_committee_size: sym::any_u64("sync_committee_size") as _,
        epochs_per_sync_committee_period: sym::any_u64("epochs_per_sync_committee_period") as _,
        min_sync_committee_participants: sym::any_u64("min_sync_committee_participants") as _,
        update_timeout: sym::any_u64("update_timeout") as _,
    };
    let bellatrix = bellatrix::Preset {
        inactivity_penalty_quotient_bellatrix: sym::any_u64("inactivity_penalty_quotient_bellatrix") as _,
        min_slashing_penalty_quotient_bellatrix: sym::any_u64("min_slashing_penalty_quotient_bellatrix") as _,
        proportional_slashing_multiplier_bellatrix: sym::any_u64("proportional_slashing_multiplier_bellatrix") as _,
        max_bytes_per_transaction: sym::any_u64("max_bytes_per_transaction") as _,
        max_transactions_per_payload: sym::any_u64("max_transactions_per_payload") as _,
        bytes_per_logs_bloom: sym::any_u64("bytes_per_logs_bloom") as _,
        max_extra_data_bytes: sym::any_u64("max_extra_data_bytes") as _,
    };
    let capella = capella::Preset {
        max_bls_to_execution_changes: sym::any_u64("max_bls_to_execution_changes") as _,
        max_withdrawals_per_payload: sym::any_u64("max_withdrawals_per_payload") as _,
        max_validators_per_withdrawals_sweep: sym::any_u64("max_validators_per_withdrawals_sweep") as _,
    };
    let deneb = deneb::Preset {
        field_elements_per_blob: sym::any_u64("field_elements_per_blob") as _,
        max_blob_commitments_per_block: sym::any_u64("max_blob_commitments_per_block") as _,
        max_blobs_per_block: sym::any_u64("max_blobs_per_block") as _,
    };
    let electra = electra::Preset {
        min_activation_balance: sym::any_u64("min_activation_balance") as _,
        max_effective_balance_electra: sym::any_u64("max_effective_balance_electra") as _,
        min_slashing_penalty_quotient_electra: sym::any_u64("min_slashing_penalty_quotient_electra") as _,
        whistleblower_reward_quotient_electra: sym::any_u64("whistleblower_reward_quotient_electra") as _,
        pending_balance_deposits_limit: sym::any_u64("pending_balance_deposits_limit") as _,
        pending_partial_withdrawals_limit: sym::any_u64("pending_partial_withdrawals_limit") as _,
        pending_consolidations_limit: sym::any_u64("pending_consolidations_limit") as _,
        max_attester_slashings_electra: sym::any_u64("max_attester_slashings_electra") as _,
        max_attestations_electra: sym::any_u64("max_attestations_electra") as _,
        max_consolidations: sym::any_u64("max_consolidations") as _,
        max_deposit_receipts_per_payload: sym::any_u64("max_deposit_receipts_per_payload") as _,
        max_withdrawal_requests_per_payload: sym::any_u64("max_withdrawal_requests_per_payload") as _,
        max_pending_partials_per_withdrawals_sweep: sym::any_u64("max_pending_partials_per_withdrawals_sweep") as _,
    };
    let config = Config {
        preset_base: "x".to_string(),
        name: Network::Custom("x".to_string()),
        terminal_total_difficulty: U256::from_le_bytes(sym::any_bytes::<32>("ttd")),
        terminal_block_hash: any_bytes32("terminal hash"),
        terminal_block_hash_activation_epoch: sym::any_u64("terminal_block_hash_activation_epoch") as _,
        min_genesis_active_validator_count: sym::any_u64("min_genesis_active_validator_count") as _,
        min_genesis_time: sym::any_u64("min_genesis_time") as _,
        genesis_fork_version: sym::any_bytes::<4>("genesis_fork_version"),
        genesis_delay: sym::any_u64("genesis_delay") as _,
        altair_fork_version: sym::any_bytes::<4>("altair_fork_version"),
        altair_fork_epoch: sym::any_u64("altair_fork_epoch") as _,
        bellatrix_fork_version: sym::any_bytes::<4>("bellatrix_fork_version"),
        bellatrix_fork_epoch: sym::any_u64("bellatrix_fork_epoch") as _,
        capella_fork_version: sym::any_bytes::<4>("capella_fork_version"),
        capella_fork_epoch: sym::any_u64("capella_fork_epoch") as _,
        deneb_fork_version: sym::any_bytes::<4>("deneb_fork_version"),
        deneb_fork_epoch: sym::any_u64("deneb_fork_epoch") as _,
        electra_fork_version: sym::any_bytes::<4>("electra_fork_version"),
        electra_fork_epoch: sym::any_u64("electra_fork_epoch") as _,
        seconds_per_slot: sym::any_u64("seconds_per_slot") as _,
        seconds_per_eth1_block: sym::any_u64("seconds_per_eth1_block") as _,
        min_validator_withdrawability_delay: sym::any_u64("min_validator_withdrawability_delay") as _,
        shard_committee_period: sym::any_u64("shard_committee_period") as _,
        eth1_follow_distance: sym::any_u64("eth1_follow_distance") as _,
        inactivity_score_bias: sym::any_u64("inactivity_score_bias") as _,
        inactivity_score_recovery_rate: sym::any_u64("inactivity_score_recovery_rate") as _,
        ejection_balance: sym::any_u64("ejection_balance") as _,
        min_per_epoch_churn_limit: sym::any_u64("min_per_epoch_churn_limit") as _,
        max_per_epoch_activation_churn_limit: sym::any_u64("max_per_epoch_activation_churn_limit") as _,
        churn_limit_quotient: sym::any_u64("churn_limit_quotient") as _,
        min_per_epoch_churn_limit_electra: sym::any_u64("min_per_epoch_churn_limit_electra") as _,
        max_per_epoch_activation_exit_churn_limit: sym::any_u64("max_per_epoch_activation_exit_churn_limit") as _,
        proposer_score_boost: sym::any_u64("proposer_score_boost") as _,
        deposit_chain_id: sym::any_u64("deposit_chain_id") as _,
        deposit_network_id: sym::any_u64("deposit_network_id") as _,
        deposit_contract_address: address("deposit contract"),
    };
    let c = Context::from(&phase0, &altair, &bellatrix, &capella, &deneb, &electra, &config);
    same!(c, phase0; max_committees_per_slot, target_committee_size, max_validators_per_committee, shuffle_round_count, hysteresis_quotient, hysteresis_downward_multiplier, hysteresis_upward_multiplier, min_deposit_amount, max_effective_balance, effective_balance_increment, min_attestation_inclusion_delay, slots_per_epoch, min_seed_lookahead, max_seed_lookahead, min_epochs_to_inactivity_penalty, epochs_per_eth1_voting_period, slots_per_historical_root, epochs_per_historical_vector, epochs_per_slashings_vector, historical_roots_limit, validator_registry_limit, base_reward_factor, whistleblower_reward_quotient, proposer_reward_quotient, inactivity_penalty_quotient, min_slashing_penalty_quotient, proportional_slashing_multiplier, max_proposer_slashings, max_attester_slashings, max_attestations, max_deposits, max_voluntary_exits);
    same!(c, altair; inactivity_penalty_quotient_altair, min_slashing_penalty_quotient_altair, proportional_slashing_multiplier_altair, sync_committee_size, epochs_per_sync_committee_period, min_sync_committee_participants, update_timeout);
    same!(c, bellatrix; inactivity_penalty_quotient_bellatrix, min_slashing_penalty_quotient_bellatrix, proportional_slashing_multiplier_bellatrix, max_bytes_per_transaction, max_transactions_per_payload, bytes_per_logs_bloom, max_extra_data_bytes);
    same!(c, capella; max_bls_to_execution_changes, max_withdrawals_per_payload, max_validators_per_withdrawals_sweep);
    same!(c, deneb; field_elements_per_blob, max_blob_commitments_per_block, max_blobs_per_block);
    same!(c, electra; min_activation_balance, max_effective_balance_electra, min_slashing_penalty_quotient_electra, whistleblower_reward_quotient_electra, pending_balance_deposits_limit, pending_partial_withdrawals_limit, pending_consolidations_limit, max_attester_slashings_electra, max_attestations_electra, max_consolidations, max_deposit_receipts_per_payload, max_withdrawal_requests_per_payload, max_pending_partials_per_withdrawals_sweep);
    same!(c, config; name, terminal_total_difficulty, terminal_block_hash, terminal_block_hash_activation_epoch, min_genesis_active_validator_count, min_genesis_time, genesis_fork_version, genesis_delay, altair_fork_version, altair_fork_epoch, bellatrix_fork_version, bellatrix_fork_epoch, capella_fork_version, capella_fork_epoch, deneb_fork_version, deneb_fork_epoch, electra_fork_version, electra_fork_epoch, seconds_per_slot, seconds_per_eth1_block, min_validator_withdrawability_delay, shard_committee_period, eth1_follow_distance, inactivity_score_bias, inactivity_score_recovery_rate, ejection_balance, min_per_epoch_churn_limit, max_per_epoch_activation_churn_limit, churn_limit_quotient, min_per_epoch_churn_limit_electra, max_per_epoch_activation_exit_churn_limit, proposer_score_boost, deposit_chain_id, deposit_network_id, deposit_contract_address);
    sym::check(typical_genesis_time_of(&c), "typical genesis time");
    let k = c.clock_at(77);
    let _ = k;
    sym::cover("end");
}
fn typical_genesis_time_of(c: &Context) -> bool {
    sym::assume(c.min_genesis_time < 1 << 62 && c.genesis_delay < 1 << 62);
    typical_genesis_time(c) == c.min_genesis_time + c.genesis_delay
}
fn same<A: 'static, B: 'static>(name: &str) {
    sym::check(TypeId::of::<A>() == TypeId::of::<B>(), name);
}
include!("../aliases.rs");
mod mainnet_types {
    use super::same;
    pub const SLOTS_PER_HISTORICAL_ROOT: usize = 8192;
    pub const HISTORICAL_ROOTS_LIMIT: usize = 1 << 24;
    pub const ETH1_DATA_VOTES_BOUND: usize = 2048;
    pub const VALIDATOR_REGISTRY_LIMIT: usize = 1 << 40;
    pub const EPOCHS_PER_HISTORICAL_VECTOR: usize = 65536;
    pub const EPOCHS_PER_SLASHINGS_VECTOR: usize = 8192;
    pub const MAX_VALIDATORS_PER_COMMITTEE: usize = 2048;
    pub const PENDING_ATTESTATIONS_BOUND: usize = 4096;
    pub const SYNC_COMMITTEE_SIZE: usize = 512;
    pub const SYNC_SUBCOMMITTEE_SIZE: usize = 128;
    pub const BYTES_PER_LOGS_BLOOM: usize = 256;
    pub const MAX_EXTRA_DATA_BYTES: usize = 32;
    pub const MAX_BYTES_PER_TRANSACTION: usize = 1 << 30;
    pub const MAX_TRANSACTIONS_PER_PAYLOAD: usize = 1 << 20;
    pub const MAX_WITHDRAWALS_PER_PAYLOAD: usize = 16;
    pub const MAX_BLS_TO_EXECUTION_CHANGES: usize = 16;
    pub const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize = 4096;
    pub const MAX_PROPOSER_SLASHINGS: usize = 16;
    pub const MAX_ATTESTER_SLASHINGS: usize = 2;
    pub const MAX_ATTESTATIONS: usize = 128;
    pub const MAX_DEPOSITS: usize = 16;
    pub const MAX_VOLUNTARY_EXITS: usize = 16;
    pub const BYTES_PER_BLOB: usize = 131072;
    pub const KZG_COMMITMENT_INCLUSION_PROOF_DEPTH: usize = 17;
    aliases!(mainnet);
}
mod minimal_types {
    use super::same;
    pub const SLOTS_PER_HISTORICAL_ROOT: usize = 64;
    pub const HISTORICAL_ROOTS_LIMIT: usize = 1 << 24;
    pub const ETH1_DATA_VOTES_BOUND: usize = 32;
    pub const VALIDATOR_REGISTRY_LIMIT: usize = 1 << 40;
    pub const EPOCHS_PER_HISTORICAL_VECTOR: usize = 64;
    pub const EPOCHS_PER_SLASHINGS_VECTOR: usize = 64;
    pub const MAX_VALIDATORS_PER_COMMITTEE: usize = 2048;
    pub const PENDING_ATTESTATIONS_BOUND: usize = 1024;
    pub const SYNC_COMMITTEE_SIZE: usize = 32;
    pub const SYNC_SUBCOMMITTEE_SIZE: usize = 8;
    pub const BYTES_PER_LOGS_BLOOM: usize = 256;
    pub const MAX_EXTRA_DATA_BYTES: usize = 32;
    pub const MAX_BYTES_PER_TRANSACTION: usize = 1 << 30;
    pub const MAX_TRANSACTIONS_PER_PAYLOAD: usize = 1 << 20;
    pub const MAX_WITHDRAWALS_PER_PAYLOAD: usize = 4;
    pub const MAX_BLS_TO_EXECUTION_CHANGES: usize = 16;
    pub const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize = 16;
    pub const MAX_PROPOSER_SLASHINGS: usize = 16;
    pub const MAX_ATTESTER_SLASHINGS: usize = 2;
    pub const MAX_ATTESTATIONS: usize = 128;
    pub const MAX_DEPOSITS: usize = 16;
    pub const MAX_VOLUNTARY_EXITS: usize = 16;
    pub const BYTES_PER_BLOB: usize = 131072;
    pub const KZG_COMMITMENT_INCLUSION_PROOF_DEPTH: usize = 9;
    aliases!(minimal);
}
fn types() {
    mainnet_types::phase0::check();
    mainnet_types::altair::check();
    mainnet_types::bellatrix::check();
    mainnet_types::capella::check();
    mainnet_types::deneb::check();
    minimal_types::phase0::check();
    minimal_types::altair::check();
    minimal_types::bellatrix::check();
    minimal_types::capella::check();
    minimal_types::deneb::check();
    sym::cover("end");
}

const FORKS: [Fork; 6] = [Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb, Fork::Electra];
fn schedule(c: &Context) -> [u64; 6] {
    [0, c.altair_fork_epoch, c.bellatrix_fork_epoch, c.capella_fork_epoch, c.deneb_fork_epoch, c.electra_fork_epoch]
}
/// The number of the latest fork reached at `epoch`.
fn latest(s: &[u64; 6], epoch: u64) -> u64 {
    let mut r = 0;
    for i in 1..6 {
        r = sym::ite(epoch >= s[i], i as u64, r);
    }
    r
}
fn fork_of_slot() {
    let mut c = context();
    c.slots_per_epoch = [32, 8, 4][sym::pick("slots per epoch", 0, 2) as usize];
    c.altair_fork_epoch = sym::any_u64("altair");
    c.bellatrix_fork_epoch = sym::any_u64("bellatrix");
    c.capella_fork_epoch = sym::any_u64("capella");
    c.deneb_fork_epoch = sym::any_u64("deneb");
    c.electra_fork_epoch = sym::any_u64("electra");
    let slot = sym::any_u64("slot");
    let f = c.fork_for(slot);
    sym::check(f as u64 == latest(&schedule(&c), slot / c.slots_per_epoch), "the fork of a slot");
    sym::cover("end");
}
fn versions() {
    let mut c = context();
    c.genesis_fork_version = sym::any_bytes::<4>("genesis");
    c.altair_fork_version = sym::any_bytes::<4>("altair");
    c.bellatrix_fork_version = sym::any_bytes::<4>("bellatrix");
    c.capella_fork_version = sym::any_bytes::<4>("capella");
    c.deneb_fork_version = sym::any_bytes::<4>("deneb");
    c.electra_fork_version = sym::any_bytes::<4>("electra");
    let want = [
        c.genesis_fork_version,
        c.altair_fork_version,
        c.bellatrix_fork_version,
        c.capella_fork_version,
        c.deneb_fork_version,
        c.electra_fork_version,
    ];
    let i = sym::pick("fork", 0, 5) as usize;
    sym::check(c.fork_version_for(FORKS[i]) == want[i], "the version of a fork");
    let names = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
    sym::check(FORKS[i].to_string() == names[i], "the name of a fork");
    sym::cover("end");
}
fn mainnet_preset(c: &Context) {
    values!(c, "mainnet";
        max_committees_per_slot: 64, target_committee_size: 128, max_validators_per_committee: 2048,
        shuffle_round_count: 90, hysteresis_quotient: 4, hysteresis_downward_multiplier: 1,
        hysteresis_upward_multiplier: 5, min_deposit_amount: GWEI, max_effective_balance: 32 * GWEI,
        effective_balance_increment: GWEI, min_attestation_inclusion_delay: 1, slots_per_epoch: 32,
        min_seed_lookahead: 1, max_seed_lookahead: 4, min_epochs_to_inactivity_penalty: 4,
        epochs_per_eth1_voting_period: 64, slots_per_historical_root: 8192,
        epochs_per_historical_vector: 65536, epochs_per_slashings_vector: 8192,
        historical_roots_limit: 1 << 24, validator_registry_limit: 1 << 40, base_reward_factor: 64,
        whistleblower_reward_quotient: 512, proposer_reward_quotient: 8,
        inactivity_penalty_quotient: 1 << 26, min_slashing_penalty_quotient: 128,
        proportional_slashing_multiplier: 1, max_proposer_slashings: 16, max_attester_slashings: 2,
        max_attestations: 128, max_deposits: 16, max_voluntary_exits: 16,
        inactivity_penalty_quotient_altair: 50331648, min_slashing_penalty_quotient_altair: 64,
        proportional_slashing_multiplier_altair: 2, sync_committee_size: 512,
        epochs_per_sync_committee_period: 256, min_sync_committee_participants: 1, update_timeout: 8192,
        inactivity_penalty_quotient_bellatrix: 1 << 24, min_slashing_penalty_quotient_bellatrix: 32,
        proportional_slashing_multiplier_bellatrix: 3, max_bytes_per_transaction: 1 << 30,
        max_transactions_per_payload: 1 << 20, bytes_per_logs_bloom: 256, max_extra_data_bytes: 32,
        max_bls_to_execution_changes: 16, max_withdrawals_per_payload: 16,
        max_validators_per_withdrawals_sweep: 16384, field_elements_per_blob: 4096,
        max_blob_commitments_per_block: 4096, max_blobs_per_block: 6,
        min_activation_balance: 32 * GWEI, max_effective_balance_electra: 2048 * GWEI,
        min_slashing_penalty_quotient_electra: 4096, whistleblower_reward_quotient_electra: 4096,
        pending_balance_deposits_limit: 1 << 27, pending_partial_withdrawals_limit: 1 << 27,
        pending_consolidations_limit: 1 << 18, max_attester_slashings_electra: 1,
        max_attestations_electra: 8, max_consolidations: 1, max_deposit_receipts_per_payload: 8192,
        max_withdrawal_requests_per_payload: 16, max_pending_partials_per_withdrawals_sweep: 8,
    );
}
fn minimal_preset(c: &Context) {
    values!(c, "minimal";
        max_committees_per_slot: 4, target_committee_size: 4, max_validators_per_committee: 2048,
        shuffle_round_count: 10, hysteresis_quotient: 4, hysteresis_downward_multiplier: 1,
        hysteresis_upward_multiplier: 5, min_deposit_amount: GWEI, max_effective_balance: 32 * GWEI,
        effective_balance_increment: GWEI, min_attestation_inclusion_delay: 1, slots_per_epoch: 8,
        min_seed_lookahead: 1, max_seed_lookahead: 4, min_epochs_to_inactivity_penalty: 4,
        epochs_per_eth1_voting_period: 4, slots_per_historical_root: 64,
        epochs_per_historical_vector: 64, epochs_per_slashings_vector: 64,
        historical_roots_limit: 1 << 24, validator_registry_limit: 1 << 40, base_reward_factor: 64,
        whistleblower_reward_quotient: 512, proposer_reward_quotient: 8,
        inactivity_penalty_quotient: 1 << 25, min_slashing_penalty_quotient: 64,
        proportional_slashing_multiplier: 2, max_proposer_slashings: 16, max_attester_slashings: 2,
        max_attestations: 128, max_deposits: 16, max_voluntary_exits: 16,
        inactivity_penalty_quotient_altair: 50331648, min_slashing_penalty_quotient_altair: 64,
        proportional_slashing_multiplier_altair: 2, sync_committee_size: 32,
        epochs_per_sync_committee_period: 8, min_sync_committee_participants: 1, update_timeout: 64,
        inactivity_penalty_quotient_bellatrix: 1 << 24, min_slashing_penalty_quotient_bellatrix: 32,
        proportional_slashing_multiplier_bellatrix: 3, max_bytes_per_transaction: 1 << 30,
        max_transactions_per_payload: 1 << 20, bytes_per_logs_bloom: 256, max_extra_data_bytes: 32,
        max_bls_to_execution_changes: 16, max_withdrawals_per_payload: 4,
        max_validators_per_withdrawals_sweep: 16, field_elements_per_blob: 4096,
        max_blob_commitments_per_block: 16, max_blobs_per_block: 6,
        min_activation_balance: 32 * GWEI, max_effective_balance_electra: 2048 * GWEI,
        min_slashing_penalty_quotient_electra: 4096, whistleblower_reward_quotient_electra: 4096,
        pending_balance_deposits_limit: 1 << 27, pending_partial_withdrawals_limit: 64,
        pending_consolidations_limit: 64, max_attester_slashings_electra: 1,
        max_attestations_electra: 8, max_consolidations: 1, max_deposit_receipts_per_payload: 4,
        max_withdrawal_requests_per_payload: 2, max_pending_partials_per_withdrawals_sweep: 1,
    );
}
struct Net {
    name: Network,
    versions: [[u8; 4]; 6],
    epochs: [u64; 6],
    min_genesis: (usize, u64, u64),
    ttd: u128,
    seconds: (u64, u64),
    follow: u64,
    ejection: u64,
    churn: (u64, u64, u64),
    churn_electra: (u64, u64),
    shard: u64,
    chain: usize,
    contract: [u8; 20],
    genesis: Option<u64>,
}
/// The network's own values, and its fork at every slot.
fn network(c: &Context, n: Net) {
    let v = &n.versions;
    values!(c, "network";
        name: n.name, genesis_fork_version: v[0], altair_fork_version: v[1], bellatrix_fork_version: v[2],
        capella_fork_version: v[3], deneb_fork_version: v[4], electra_fork_version: v[5],
        altair_fork_epoch: n.epochs[1], bellatrix_fork_epoch: n.epochs[2], capella_fork_epoch: n.epochs[3],
        deneb_fork_epoch: n.epochs[4], electra_fork_epoch: n.epochs[5],
        min_genesis_active_validator_count: n.min_genesis.0, min_genesis_time: n.min_genesis.1,
        genesis_delay: n.min_genesis.2, seconds_per_slot: n.seconds.0, seconds_per_eth1_block: n.seconds.1,
        min_validator_withdrawability_delay: 256, shard_committee_period: n.shard,
        eth1_follow_distance: n.follow, inactivity_score_bias: 4, inactivity_score_recovery_rate: 16,
        ejection_balance: n.ejection, min_per_epoch_churn_limit: n.churn.0,
        max_per_epoch_activation_churn_limit: n.churn.1, churn_limit_quotient: n.churn.2,
        min_per_epoch_churn_limit_electra: n.churn_electra.0,
        max_per_epoch_activation_exit_churn_limit: n.churn_electra.1, proposer_score_boost: 40,
        deposit_chain_id: n.chain, deposit_network_id: n.chain, terminal_block_hash_activation_epoch: FAR,
    );
    let mut ttd = [0u8; 32];
    ttd[..16].copy_from_slice(&n.ttd.to_le_bytes());
    if n.ttd == u128::MAX - 1023 {
        ttd[16..].copy_from_slice(&[255; 16]);
    }
    sym::check(c.terminal_total_difficulty == U256::from_le_bytes(ttd), "published terminal difficulty");
    sym::check(c.terminal_block_hash == Default::default(), "published terminal block hash");
    sym::check(c.deposit_contract_address.as_ref() == n.contract, "published deposit contract");
    let slot = sym::any_u64("slot");
    sym::check(c.fork_for(slot) as u64 == latest(&n.epochs, slot / c.slots_per_epoch), "published fork schedule");
    sym::check(c.network() == &n.name, "network of a context");
    match n.genesis {
        Some(g) => {
            sym::check(matches!(c.genesis_time(), Ok(t) if t == g), "genesis time");
            let at = sym::range("clock slot", 0, 1 << 40);
            sym::check(c.clock().unwrap().timestamp_at_slot(at) == g + 12 * at, "clock of a network");
        }
        // a network whose genesis time is not known must not be given another one's
        None => {
            let t = typical_genesis_time(c);
            sym::check(c.genesis_time().map_or(true, |g| g == t), "no wrong genesis time");
            sym::check(c.clock().map_or(true, |k| k.timestamp_at_slot(0) == t), "no wrong clock");
        }
    }
    let (g, at) = (sym::range("genesis", 0, 1 << 34), sym::range("slot of a clock", 0, 1 << 40));
    let k = c.clock_at(g);
    sym::check(k.timestamp_at_slot(at) == g + c.seconds_per_slot * at, "clock from a genesis time");
    sym::check(k.epoch_for(at) == at / c.slots_per_epoch, "epochs of a clock");
    sym::cover("end");
}
const ZERO_CONTRACT: [u8; 20] = [0, 0, 0, 0, 0x21, 0x9a, 0xb5, 0x40, 0x35, 0x6c, 0xbb, 0x83, 0x9c, 0xbe, 0x05, 0x30, 0x3d, 0x77, 0x05, 0xfa];
fn v(b: [u8; 6], rest: [u8; 3]) -> [[u8; 4]; 6] {
    b.map(|x| [x, rest[0], rest[1], rest[2]])
}
const E: (u64, u64) = (128 * GWEI, 256 * GWEI);
fn mainnet() {
    let c = Context::for_mainnet();
    mainnet_preset(&c);
    network(&c, Net {
        name: Network::Mainnet, versions: v([0, 1, 2, 3, 4, 5], [0, 0, 0]),
        epochs: [0, 74240, 144896, 194048, 269568, FAR], min_genesis: (16384, 1606824000, 604800),
        ttd: 58750000000000000000000, seconds: (12, 14), follow: 2048, ejection: 16 * GWEI,
        churn: (4, 8, 65536), churn_electra: E, shard: 256, chain: 1, contract: ZERO_CONTRACT,
        genesis: Some(1606824023),
    })
}
fn sepolia() {
    let c = Context::for_sepolia();
    mainnet_preset(&c);
    network(&c, Net {
        name: Network::Sepolia,
        versions: [[0x90, 0, 0, 0x69], [0x90, 0, 0, 0x70], [0x90, 0, 0, 0x71], [0x90, 0, 0, 0x72], [0x90, 0, 0, 0x73], [0x90, 0, 0, 0x74]],
        epochs: [0, 50, 100, 56832, 132608, FAR], min_genesis: (1300, 1655647200, 86400),
        ttd: 17000000000000000, seconds: (12, 14), follow: 2048, ejection: 16 * GWEI,
        churn: (4, 8, 65536), churn_electra: E, shard: 256, chain: 11155111,
        contract: [0x7f, 0x02, 0xc3, 0xe3, 0xc9, 0x8b, 0x13, 0x30, 0x55, 0xb8, 0xb3, 0x48, 0xb2, 0xac, 0x62, 0x56, 0x69, 0xed, 0x29, 0x5d],
        genesis: Some(1655733600),
    })
}
fn goerli() {
    let c = Context::for_goerli();
    mainnet_preset(&c);
    network(&c, Net {
        name: Network::Goerli, versions: v([0, 1, 2, 3, 4, 5], [0, 0x10, 0x20]),
        epochs: [0, 36660, 112260, 162304, 231680, FAR], min_genesis: (16384, 1614588812, 1919188),
        ttd: 10790000, seconds: (12, 14), follow: 2048, ejection: 16 * GWEI,
        churn: (4, 8, 65536), churn_electra: E, shard: 256, chain: 5,
        contract: [0xff, 0x50, 0xed, 0x3d, 0x0e, 0xc0, 0x3a, 0xc0, 0x1d, 0x4c, 0x79, 0xaa, 0xd7, 0x49, 0x28, 0xbf, 0xf4, 0x8a, 0x7b, 0x2b],
        genesis: Some(1616508000),
    })
}
fn holesky() {
    let c = Context::for_holesky();
    mainnet_preset(&c);
    network(&c, Net {
        name: Network::Holesky, versions: v([1, 2, 3, 4, 5, 6], [1, 0x70, 0]),
        epochs: [0, 0, 0, 256, 29696, FAR], min_genesis: (16384, 1695902100, 300),
        ttd: 0, seconds: (12, 14), follow: 2048, ejection: 28 * GWEI,
        churn: (4, 8, 65536), churn_electra: E, shard: 256, chain: 17000, contract: [0x42; 20],
        genesis: Some(1695902400),
    })
}
fn hoodi() {
    let c = Context::for_hoodi();
    mainnet_preset(&c);
    network(&c, Net {
        name: Network::Hoodi, versions: v([0x10, 0x20, 0x30, 0x40, 0x50, 0x60], [0, 9, 0x10]),
        epochs: [0, 0, 0, 0, 0, 2048], min_genesis: (16384, 1742212800, 600),
        ttd: 0, seconds: (12, 12), follow: 2048, ejection: 16 * GWEI,
        churn: (4, 8, 65536), churn_electra: E, shard: 256, chain: 560048, contract: ZERO_CONTRACT,
        genesis: None,
    })
}
fn minimal() {
    let c = Context::for_minimal();
    minimal_preset(&c);
    let mut a = [0u8; 20];
    for i in 0..20 {
        a[i] = [0x12, 0x34, 0x56, 0x78, 0x90][i % 5];
    }
    network(&c, Net {
        name: Network::Custom("minimal".to_string()), versions: v([0, 1, 2, 3, 4, 5], [0, 0, 1]),
        epochs: [0, FAR, FAR, FAR, FAR, FAR], min_genesis: (64, 1578009600, 300),
        ttd: u128::MAX - 1023, seconds: (6, 14), follow: 16, ejection: 16 * GWEI,
        churn: (2, 4, 32), churn_electra: (64 * GWEI, 128 * GWEI), shard: 64, chain: 5, contract: a,
        genesis: None,
    })
}
fn constants() {
    use ethereum_consensus::{altair::constants as a, electra::constants as e, phase0::constants as p, primitives as r};
    sym::check(
        (p::BASE_REWARDS_PER_EPOCH, p::DEPOSIT_CONTRACT_TREE_DEPTH, p::JUSTIFICATION_BITS_LENGTH, p::DEPOSIT_DATA_LIST_BOUND) == (4, 32, 4, 1 << 32),
        "phase0 constants",
    );
    sym::check(
        (a::TIMELY_SOURCE_FLAG_INDEX, a::TIMELY_TARGET_FLAG_INDEX, a::TIMELY_HEAD_FLAG_INDEX) == (0, 1, 2)
            && (a::TIMELY_SOURCE_WEIGHT, a::TIMELY_TARGET_WEIGHT, a::TIMELY_HEAD_WEIGHT) == (14, 26, 14)
            && (a::SYNC_REWARD_WEIGHT, a::PROPOSER_WEIGHT, a::WEIGHT_DENOMINATOR) == (2, 8, 64)
            && a::PARTICIPATION_FLAG_WEIGHTS == [14, 26, 14]
            && a::SYNC_COMMITTEE_SUBNET_COUNT == 4,
        "altair constants",
    );
    sym::check((e::UNSET_DEPOSIT_RECEIPTS_START_INDEX, e::FULL_EXIT_REQUEST_AMOUNT) == (u64::MAX, 0), "electra constants");
    sym::check(
        (r::GENESIS_SLOT, r::GENESIS_EPOCH, r::FAR_FUTURE_EPOCH) == (0, 0, u64::MAX)
            && (r::BLS_WITHDRAWAL_PREFIX, r::ETH1_ADDRESS_WITHDRAWAL_PREFIX, r::COMPOUNDING_WITHDRAWAL_PREFIX) == (0, 1, 2),
        "primitive constants",
    );
    sym::check(
        (clock::MAINNET_GENESIS_TIME, clock::SEPOLIA_GENESIS_TIME, clock::GOERLI_GENESIS_TIME, clock::HOLESKY_GENESIS_TIME)
            == (1606824023, 1655733600, 1616508000, 1695902400),
        "genesis times",
    );
    sym::check(
        (phase0::mainnet::TARGET_AGGREGATORS_PER_COMMITTEE, phase0::minimal::TARGET_AGGREGATORS_PER_COMMITTEE) == (16, 16)
            && (altair::mainnet::TARGET_AGGREGATORS_PER_SYNC_SUBCOMMITTEE, altair::minimal::TARGET_AGGREGATORS_PER_SYNC_SUBCOMMITTEE) == (16, 16)
            && (phase0::mainnet::RANDOM_SUBNETS_PER_VALIDATOR, phase0::mainnet::EPOCHS_PER_RANDOM_SUBNET_SUBSCRIPTION) == (1, 256)
            && (phase0::minimal::RANDOM_SUBNETS_PER_VALIDATOR, phase0::minimal::EPOCHS_PER_RANDOM_SUBNET_SUBSCRIPTION) == (1, 256),
        "validator constants",
    );
    sym::check(
        (phase0::mainnet::ETH1_DATA_VOTES_BOUND, phase0::mainnet::PENDING_ATTESTATIONS_BOUND) == (2048, 4096)
            && (phase0::minimal::ETH1_DATA_VOTES_BOUND, phase0::minimal::PENDING_ATTESTATIONS_BOUND) == (32, 1024)
            && (altair::mainnet::SYNC_SUBCOMMITTEE_SIZE, altair::minimal::SYNC_SUBCOMMITTEE_SIZE) == (128, 8)
            && (deneb::mainnet::BYTES_PER_BLOB, deneb::minimal::BYTES_PER_BLOB) == (131072, 131072)
            && (deneb::mainnet::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH, deneb::minimal::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH) == (17, 9)
            && (deneb::mainnet::MAX_REQUEST_BLOB_SIDECARS, deneb::minimal::MAX_REQUEST_BLOB_SIDECARS) == (768, 768),
        "derived bounds",
    );
    sym::cover("end");
}
/// Names: the textual form of a network reads back as that network.
fn names() {
    let all = [
        (Network::Mainnet, "mainnet"),
        (Network::Sepolia, "sepolia"),
        (Network::Goerli, "goerli"),
        (Network::Holesky, "holesky"),
        (Network::Hoodi, "hoodi"),
    ];
    let i = sym::pick("network", 0, 6) as usize;
    if i < 5 {
        let (n, s) = &all[i];
        sym::check(n.to_string() == *s, "name of a network");
        sym::check(&Network::from(s.to_string()) == n, "network of a name");
        let j = serde_json::to_string(n).unwrap();
        sym::check(j.as_bytes()[1..j.len() - 1] == *s.as_bytes(), "serialized name");
        let back: Network = serde_json::from_reader(j.as_bytes()).unwrap();
        sym::check(&back == n, "network of a serialized name");
        let c = Context::try_from(n.clone()).unwrap();
        sym::check(&c.name == n, "context of a network");
        sym::check(c.preset_is(n), "schedule of a network's context");
        sym::cover("known");
    } else if i == 5 {
        let b = sym::any_bytes::<6>("directory");
        for x in b {
            sym::assume(x >= b'a' && x <= b'z');
        }
        let s = String::from_utf8(b.to_vec()).unwrap();
        sym::assume(s != "goerli");
        let n = Network::Custom(s.clone());
        sym::check(Network::from(s.clone()) == n, "another name is a custom network");
        sym::check(Network::from(String::from(n.clone())) == n, "a custom network survives its textual form");
        sym::cover("custom");
    } else {
        let n = Network::Custom("dev/net".to_string());
        let j = serde_json::to_string(&n).unwrap();
        let back: Network = serde_json::from_reader(j.as_bytes()).unwrap();
        sym::check(back == n, "a custom network survives serialization");
        sym::cover("serialized custom");
    }
}
trait Preset {
    fn preset_is(&self, n: &Network) -> bool;
}
impl Preset for Context {
    fn preset_is(&self, n: &Network) -> bool {
        let want = match n {
            Network::Mainnet => (1, 269568),
            Network::Sepolia => (11155111, 132608),
            Network::Goerli => (5, 231680),
            Network::Holesky => (17000, 29696),
            _ => (560048, 0),
        };
        (self.deposit_chain_id, self.deneb_fork_epoch) == want
    }
}
/// A configuration file's keys reach the fields of the same name.
fn from_file() {
    let d = sym::any_bytes::<2>("digits");
    for x in d {
        sym::assume(x >= b'1' && x <= b'9');
    }
    let d = [sym::concretize(d[0] as u64) as u8, d[1]];
    let mut n = 100u64;
    let mut j = String::from("{");
    for k in [
        "TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH", "MIN_GENESIS_ACTIVE_VALIDATOR_COUNT", "MIN_GENESIS_TIME", "GENESIS_DELAY",
        "ALTAIR_FORK_EPOCH", "BELLATRIX_FORK_EPOCH", "CAPELLA_FORK_EPOCH", "DENEB_FORK_EPOCH", "ELECTRA_FORK_EPOCH",
        "SECONDS_PER_SLOT", "SECONDS_PER_ETH1_BLOCK", "MIN_VALIDATOR_WITHDRAWABILITY_DELAY", "SHARD_COMMITTEE_PERIOD",
        "ETH1_FOLLOW_DISTANCE", "INACTIVITY_SCORE_BIAS", "INACTIVITY_SCORE_RECOVERY_RATE", "EJECTION_BALANCE",
        "MIN_PER_EPOCH_CHURN_LIMIT", "MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT", "CHURN_LIMIT_QUOTIENT",
        "MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA", "MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT", "PROPOSER_SCORE_BOOST",
        "DEPOSIT_CHAIN_ID", "DEPOSIT_NETWORK_ID",
    ] {
        j += &format!("\"{k}\":{n},");
        n += 1;
    }
    for (i, k) in ["GENESIS", "ALTAIR", "BELLATRIX", "CAPELLA", "DENEB", "ELECTRA"].iter().enumerate() {
        j += &format!("\"{k}_FORK_VERSION\":\"0x0{i}0203{}{}\",", d[0] as char, d[1] as char);
    }
    j += "\"PRESET_BASE\":\"mainnet\",\"CONFIG_NAME\":\"holesky\",\"TERMINAL_TOTAL_DIFFICULTY\":\"77\",";
    j += "\"TERMINAL_BLOCK_HASH\":\"0x5151515151515151515151515151515151515151515151515151515151515151\",";
    j += "\"DEPOSIT_CONTRACT_ADDRESS\":\"0x6161616161616161616161616161616161616161\",\"UNKNOWN\":3}";
    let c: Config = serde_json::from_reader(j.as_bytes()).unwrap();
    values!(c, "file";
        terminal_block_hash_activation_epoch: 100, min_genesis_active_validator_count: 101, min_genesis_time: 102,
        genesis_delay: 103, altair_fork_epoch: 104, bellatrix_fork_epoch: 105, capella_fork_epoch: 106,
        deneb_fork_epoch: 107, electra_fork_epoch: 108, seconds_per_slot: 109, seconds_per_eth1_block: 110,
        min_validator_withdrawability_delay: 111, shard_committee_period: 112, eth1_follow_distance: 113,
        inactivity_score_bias: 114, inactivity_score_recovery_rate: 115, ejection_balance: 116,
        min_per_epoch_churn_limit: 117, max_per_epoch_activation_churn_limit: 118, churn_limit_quotient: 119,
        min_per_epoch_churn_limit_electra: 120, max_per_epoch_activation_exit_churn_limit: 121,
        proposer_score_boost: 122, deposit_chain_id: 123, deposit_network_id: 124, preset_base: "mainnet",
        name: Network::Holesky,
    );
    let last = (d[0] - b'0') * 16 + (d[1] - b'0');
    let vs = [c.genesis_fork_version, c.altair_fork_version, c.bellatrix_fork_version, c.capella_fork_version, c.deneb_fork_version, c.electra_fork_version];
    for (i, v) in vs.iter().enumerate() {
        sym::check(*v == [i as u8, 2, 3, last], "fork version of a file");
    }
    sym::check(c.terminal_block_hash.as_ref() == [0x51; 32], "terminal hash of a file");
    sym::check(c.deposit_contract_address.as_ref() == [0x61; 20], "deposit contract of a file");
    sym::check(c.terminal_total_difficulty == U256::from(77u64), "terminal difficulty of a file");
    sym::cover("end");
    let _ = configs::mainnet::config;
}

sym::harness! {
    fn h_copied() { copied() }
    fn h_types() { types() }
    fn h_fork_of_slot() { fork_of_slot() }
    fn h_versions() { versions() }
    fn h_mainnet() { mainnet() }
    fn h_sepolia() { sepolia() }
    fn h_goerli() { goerli() }
    fn h_holesky() { holesky() }
    fn h_hoodi() { hoodi() }
    fn h_minimal() { minimal() }
    fn h_constants() { constants() }
    fn h_names() { names() }
    fn h_from_file() { from_file() }
}
