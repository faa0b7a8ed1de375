// Small presets: the generic containers of every fork at sizes the symbolic executor handles well.
#![allow(unused_imports, non_camel_case_types)]
pub const SLOTS_PER_HISTORICAL_ROOT: usize = 16;
pub const HISTORICAL_ROOTS_LIMIT: usize = 1 << 24;
pub const ETH1_DATA_VOTES_BOUND: usize = 8;
pub const VALIDATOR_REGISTRY_LIMIT: usize = 1 << 40;
pub const EPOCHS_PER_HISTORICAL_VECTOR: usize = 8;
pub const EPOCHS_PER_SLASHINGS_VECTOR: usize = 4;
pub const MAX_VALIDATORS_PER_COMMITTEE: usize = 8;
pub const PENDING_ATTESTATIONS_BOUND: usize = 64;
pub const SYNC_COMMITTEE_SIZE: usize = 4;
pub const BYTES_PER_LOGS_BLOOM: usize = 32;
pub const MAX_EXTRA_DATA_BYTES: usize = 32;
pub const MAX_BYTES_PER_TRANSACTION: usize = 1 << 10;
pub const MAX_TRANSACTIONS_PER_PAYLOAD: usize = 1 << 8;
pub const MAX_WITHDRAWALS_PER_PAYLOAD: usize = 4;
pub const MAX_BLS_TO_EXECUTION_CHANGES: usize = 4;
pub const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize = 8;
pub const PENDING_BALANCE_DEPOSITS_LIMIT: usize = 1 << 20;
pub const PENDING_PARTIAL_WITHDRAWALS_LIMIT: usize = 4;
pub const PENDING_CONSOLIDATIONS_LIMIT: usize = 4;
pub const MAX_PROPOSER_SLASHINGS: usize = 4;
pub const MAX_ATTESTER_SLASHINGS: usize = 4;
pub const MAX_ATTESTATIONS: usize = 8;
pub const MAX_DEPOSITS: usize = 4;
pub const MAX_VOLUNTARY_EXITS: usize = 4;
pub const MAX_VALIDATORS_PER_SLOT: usize = 32;
pub const MAX_COMMITTEES_PER_SLOT: usize = 4;
pub const MAX_ATTESTATIONS_ELECTRA: usize = 8;
pub const MAX_ATTESTER_SLASHINGS_ELECTRA: usize = 4;
pub const MAX_CONSOLIDATIONS: usize = 4;
pub const MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD: usize = 4;
pub const MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD: usize = 4;
pub const BYTES_PER_BLOB: usize = 128;
pub const KZG_COMMITMENT_INCLUSION_PROOF_DEPTH: usize = 6;
pub const SYNC_SUBCOMMITTEE_SIZE: usize = 1;
pub mod phase0 {
    use super::*;
    use ethereum_consensus::phase0::spec;
    pub use ethereum_consensus::phase0::spec::*;
    pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }>;
    pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }>;
    pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { PENDING_ATTESTATIONS_BOUND }>;
    pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
    pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }>;
}
pub mod altair {
    use super::*;
    use ethereum_consensus::altair::spec;
    pub use ethereum_consensus::altair::spec::*;
    pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }>;
    pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }>;
    pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }>;
    pub type ContributionAndProof = spec::ContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
    pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
    pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type LightClientBootstrap = spec::LightClientBootstrap<{ SYNC_COMMITTEE_SIZE }>;
    pub type LightClientFinalityUpdate = spec::LightClientFinalityUpdate<{ SYNC_COMMITTEE_SIZE }>;
    pub type LightClientOptimisticUpdate = spec::LightClientOptimisticUpdate<{ SYNC_COMMITTEE_SIZE }>;
    pub type LightClientUpdate = spec::LightClientUpdate<{ SYNC_COMMITTEE_SIZE }>;
    pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }>;
    pub type SignedContributionAndProof = spec::SignedContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
    pub type SyncAggregate = spec::SyncAggregate<{ SYNC_COMMITTEE_SIZE }>;
    pub type SyncCommittee = spec::SyncCommittee<{ SYNC_COMMITTEE_SIZE }>;
    pub type SyncCommitteeContribution = spec::SyncCommitteeContribution<{ SYNC_SUBCOMMITTEE_SIZE }>;
}
pub mod bellatrix {
    use super::*;
    use ethereum_consensus::bellatrix::spec;
    pub use ethereum_consensus::bellatrix::spec::*;
    pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }>;
    pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }>;
    pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type BlindedBeaconBlock = spec::BlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type BlindedBeaconBlockBody = spec::BlindedBeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type ContributionAndProof = spec::ContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
    pub type ExecutionPayload = spec::ExecutionPayload<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }>;
    pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
    pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type LightClientBootstrap = spec::LightClientBootstrap<{ SYNC_COMMITTEE_SIZE }>;
    pub type LightClientFinalityUpdate = spec::LightClientFinalityUpdate<{ SYNC_COMMITTEE_SIZE }>;
    pub type LightClientOptimisticUpdate = spec::LightClientOptimisticUpdate<{ SYNC_COMMITTEE_SIZE }>;
    pub type LightClientUpdate = spec::LightClientUpdate<{ SYNC_COMMITTEE_SIZE }>;
    pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }>;
    pub type SignedBlindedBeaconBlock = spec::SignedBlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type SignedContributionAndProof = spec::SignedContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
    pub type SyncAggregate = spec::SyncAggregate<{ SYNC_COMMITTEE_SIZE }>;
    pub type SyncCommittee = spec::SyncCommittee<{ SYNC_COMMITTEE_SIZE }>;
    pub type SyncCommitteeContribution = spec::SyncCommitteeContribution<{ SYNC_SUBCOMMITTEE_SIZE }>;
}
pub mod capella {
    use super::*;
    use ethereum_consensus::capella::spec;
    pub use ethereum_consensus::capella::spec::*;
    pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
    pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
    pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type BlindedBeaconBlock = spec::BlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
    pub type BlindedBeaconBlockBody = spec::BlindedBeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
    pub type ContributionAndProof = spec::ContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
    pub type ExecutionPayload = spec::ExecutionPayload<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }>;
    pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
    pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type LightClientBootstrap = spec::LightClientBootstrap<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientFinalityUpdate = spec::LightClientFinalityUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientHeader = spec::LightClientHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientOptimisticUpdate = spec::LightClientOptimisticUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientUpdate = spec::LightClientUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
    pub type SignedBlindedBeaconBlock = spec::SignedBlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
    pub type SignedContributionAndProof = spec::SignedContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
    pub type SyncAggregate = spec::SyncAggregate<{ SYNC_COMMITTEE_SIZE }>;
    pub type SyncCommittee = spec::SyncCommittee<{ SYNC_COMMITTEE_SIZE }>;
    pub type SyncCommitteeContribution = spec::SyncCommitteeContribution<{ SYNC_SUBCOMMITTEE_SIZE }>;
}
pub mod deneb {
    use super::*;
    use ethereum_consensus::deneb::spec;
    pub use ethereum_consensus::deneb::spec::*;
    pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
    pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
    pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type BlindedBeaconBlock = spec::BlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
    pub type BlindedBeaconBlockBody = spec::BlindedBeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
    pub type BlobSidecar = spec::BlobSidecar<{ BYTES_PER_BLOB }, { KZG_COMMITMENT_INCLUSION_PROOF_DEPTH }>;
    pub type BlobsBundle = spec::BlobsBundle<{ BYTES_PER_BLOB }>;
    pub type ContributionAndProof = spec::ContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
    pub type ExecutionPayload = spec::ExecutionPayload<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }>;
    pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
    pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type LightClientBootstrap = spec::LightClientBootstrap<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientFinalityUpdate = spec::LightClientFinalityUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientHeader = spec::LightClientHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientOptimisticUpdate = spec::LightClientOptimisticUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientUpdate = spec::LightClientUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type NewPayloadRequest = spec::NewPayloadRequest<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }>;
    pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
    pub type SignedBlindedBeaconBlock = spec::SignedBlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
    pub type SignedContributionAndProof = spec::SignedContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
    pub type SyncAggregate = spec::SyncAggregate<{ SYNC_COMMITTEE_SIZE }>;
    pub type SyncCommittee = spec::SyncCommittee<{ SYNC_COMMITTEE_SIZE }>;
    pub type SyncCommitteeContribution = spec::SyncCommitteeContribution<{ SYNC_SUBCOMMITTEE_SIZE }>;
}
pub mod electra {
    use super::*;
    use ethereum_consensus::electra::spec;
    pub use ethereum_consensus::electra::spec::*;
    pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_SLOT }, { MAX_COMMITTEES_PER_SLOT }>;
    pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_SLOT }>;
    pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_SLOT }, { MAX_COMMITTEES_PER_SLOT }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }, { MAX_CONSOLIDATIONS }>;
    pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_SLOT }, { MAX_COMMITTEES_PER_SLOT }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }, { MAX_CONSOLIDATIONS }>;
    pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { PENDING_BALANCE_DEPOSITS_LIMIT }, { PENDING_PARTIAL_WITHDRAWALS_LIMIT }, { PENDING_CONSOLIDATIONS_LIMIT }>;
    pub type BlindedBeaconBlock = spec::BlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
    pub type BlindedBeaconBlockBody = spec::BlindedBeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
    pub type BlobSidecar = spec::BlobSidecar<{ BYTES_PER_BLOB }, { KZG_COMMITMENT_INCLUSION_PROOF_DEPTH }>;
    pub type BlobsBundle = spec::BlobsBundle<{ BYTES_PER_BLOB }>;
    pub type ContributionAndProof = spec::ContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
    pub type ExecutionPayload = spec::ExecutionPayload<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }>;
    pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
    pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_SLOT }>;
    pub type LightClientBootstrap = spec::LightClientBootstrap<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientFinalityUpdate = spec::LightClientFinalityUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientHeader = spec::LightClientHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientOptimisticUpdate = spec::LightClientOptimisticUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type LightClientUpdate = spec::LightClientUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
    pub type NewPayloadRequest = spec::NewPayloadRequest<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }>;
    pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
    pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_SLOT }, { MAX_COMMITTEES_PER_SLOT }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }, { MAX_CONSOLIDATIONS }>;
    pub type SignedBlindedBeaconBlock = spec::SignedBlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
    pub type SignedContributionAndProof = spec::SignedContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
    pub type SyncAggregate = spec::SyncAggregate<{ SYNC_COMMITTEE_SIZE }>;
    pub type SyncCommittee = spec::SyncCommittee<{ SYNC_COMMITTEE_SIZE }>;
    pub type SyncCommitteeContribution = spec::SyncCommitteeContribution<{ SYNC_SUBCOMMITTEE_SIZE }>;
}
