//! C30: the containers of electra, with the sizes of both presets.
use harness::spec::{self, F};

pub mod mainnet {
    use super::*;
    #[allow(unused_imports)]
    use ethereum_consensus::phase0::mainnet::*;
    #[allow(unused_imports)]
    use ethereum_consensus::altair::mainnet::*;
    #[allow(unused_imports)]
    use ethereum_consensus::bellatrix::mainnet::*;
    #[allow(unused_imports)]
    use ethereum_consensus::capella::mainnet::*;
    #[allow(unused_imports)]
    use ethereum_consensus::deneb::mainnet::*;
    #[allow(unused_imports)]
    use ethereum_consensus::electra::mainnet::*;
    pub type IndexedAttestation = ethereum_consensus::electra::spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }>;
    pub type Attestation = ethereum_consensus::electra::spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }, { MAX_COMMITTEES_PER_SLOT as usize }>;
    pub type AttesterSlashing = ethereum_consensus::electra::spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }>;
    pub type ExecutionPayload = ethereum_consensus::electra::spec::ExecutionPayload<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }>;
    pub type ExecutionPayloadHeader = ethereum_consensus::electra::spec::ExecutionPayloadHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type BeaconState = ethereum_consensus::electra::spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { PENDING_BALANCE_DEPOSITS_LIMIT }, { PENDING_PARTIAL_WITHDRAWALS_LIMIT }, { PENDING_CONSOLIDATIONS_LIMIT }>;
    pub type BeaconBlockBody = ethereum_consensus::electra::spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }, { MAX_COMMITTEES_PER_SLOT as usize }, { MAX_ATTESTER_SLASHINGS_ELECTRA }, { MAX_ATTESTATIONS_ELECTRA }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }, { MAX_CONSOLIDATIONS }>;
    pub type BeaconBlock = ethereum_consensus::electra::spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }, { MAX_COMMITTEES_PER_SLOT as usize }, { MAX_ATTESTER_SLASHINGS_ELECTRA }, { MAX_ATTESTATIONS_ELECTRA }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }, { MAX_CONSOLIDATIONS }>;
    pub type SignedBeaconBlock = ethereum_consensus::electra::spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }, { MAX_COMMITTEES_PER_SLOT as usize }, { MAX_ATTESTER_SLASHINGS_ELECTRA }, { MAX_ATTESTATIONS_ELECTRA }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }, { MAX_CONSOLIDATIONS }>;
    use spec::MAINNET as p;
    const f: F = F::Electra;
    harness::shapes! { h_electra_mainnet, 200, 0;
        IndexedAttestation = spec::indexed_attestation(p, f),
        Attestation = spec::attestation(p, f),
        AttesterSlashing = spec::attester_slashing(p, f),
        ExecutionPayload = spec::payload(p, f),
        ExecutionPayloadHeader = spec::payload_header(f),
        BeaconBlockBody = spec::body(p, f),
        BeaconBlock = spec::block(p, f),
        SignedBeaconBlock = spec::signed_block(p, f),
    }
    #[no_mangle]
    pub extern "C" fn h_electra_state() {
        harness::state_fields! { BeaconState, spec::state(p, f);
            block_roots state_roots randao_mixes slashings;
            historical_roots eth1_data_votes validators balances previous_epoch_participation current_epoch_participation inactivity_scores historical_summaries pending_balance_deposits pending_partial_withdrawals pending_consolidations;
            fork latest_block_header eth1_data justification_bits previous_justified_checkpoint current_justified_checkpoint finalized_checkpoint current_sync_committee next_sync_committee latest_execution_payload_header
        }
    }
}
pub mod minimal {
    use super::*;
    #[allow(unused_imports)]
    use ethereum_consensus::phase0::minimal::*;
    #[allow(unused_imports)]
    use ethereum_consensus::altair::minimal::*;
    #[allow(unused_imports)]
    use ethereum_consensus::bellatrix::minimal::*;
    #[allow(unused_imports)]
    use ethereum_consensus::capella::minimal::*;
    #[allow(unused_imports)]
    use ethereum_consensus::deneb::minimal::*;
    #[allow(unused_imports)]
    use ethereum_consensus::electra::minimal::*;
    pub type IndexedAttestation = ethereum_consensus::electra::spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }>;
    pub type Attestation = ethereum_consensus::electra::spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }, { MAX_COMMITTEES_PER_SLOT as usize }>;
    pub type AttesterSlashing = ethereum_consensus::electra::spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }>;
    pub type ExecutionPayload = ethereum_consensus::electra::spec::ExecutionPayload<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }>;
    pub type ExecutionPayloadHeader = ethereum_consensus::electra::spec::ExecutionPayloadHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type BeaconState = ethereum_consensus::electra::spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { PENDING_BALANCE_DEPOSITS_LIMIT }, { PENDING_PARTIAL_WITHDRAWALS_LIMIT }, { PENDING_CONSOLIDATIONS_LIMIT }>;
    pub type BeaconBlockBody = ethereum_consensus::electra::spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }, { MAX_COMMITTEES_PER_SLOT as usize }, { MAX_ATTESTER_SLASHINGS_ELECTRA }, { MAX_ATTESTATIONS_ELECTRA }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }, { MAX_CONSOLIDATIONS }>;
    pub type BeaconBlock = ethereum_consensus::electra::spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }, { MAX_COMMITTEES_PER_SLOT as usize }, { MAX_ATTESTER_SLASHINGS_ELECTRA }, { MAX_ATTESTATIONS_ELECTRA }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }, { MAX_CONSOLIDATIONS }>;
    pub type SignedBeaconBlock = ethereum_consensus::electra::spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT as usize }, { MAX_COMMITTEES_PER_SLOT as usize }, { MAX_ATTESTER_SLASHINGS_ELECTRA }, { MAX_ATTESTATIONS_ELECTRA }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }, { MAX_CONSOLIDATIONS }>;
    use spec::MINIMAL as p;
    const f: F = F::Electra;
    harness::shapes! { h_electra_minimal, 200, 1 << 18;
        IndexedAttestation = spec::indexed_attestation(p, f),
        Attestation = spec::attestation(p, f),
        AttesterSlashing = spec::attester_slashing(p, f),
        ExecutionPayload = spec::payload(p, f),
        ExecutionPayloadHeader = spec::payload_header(f),
        BeaconState = spec::state(p, f),
        BeaconBlockBody = spec::body(p, f),
        BeaconBlock = spec::block(p, f),
        SignedBeaconBlock = spec::signed_block(p, f),
    }
}
