// Which container sizes the published presets give to every exported type (see c04).
macro_rules! aliases { ($p:ident) => {
    pub mod phase0 {
        use super::*;
        use ethereum_consensus::phase0::spec;
        pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }>;
        pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }>;
        pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { PENDING_ATTESTATIONS_BOUND }>;
        pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
        pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }>;
        pub fn check() {
            same::<AggregateAndProof, ethereum_consensus::phase0::$p::AggregateAndProof>("phase0::AggregateAndProof");
            same::<Attestation, ethereum_consensus::phase0::$p::Attestation>("phase0::Attestation");
            same::<AttesterSlashing, ethereum_consensus::phase0::$p::AttesterSlashing>("phase0::AttesterSlashing");
            same::<BeaconBlock, ethereum_consensus::phase0::$p::BeaconBlock>("phase0::BeaconBlock");
            same::<BeaconBlockBody, ethereum_consensus::phase0::$p::BeaconBlockBody>("phase0::BeaconBlockBody");
            same::<BeaconState, ethereum_consensus::phase0::$p::BeaconState>("phase0::BeaconState");
            same::<HistoricalBatch, ethereum_consensus::phase0::$p::HistoricalBatch>("phase0::HistoricalBatch");
            same::<IndexedAttestation, ethereum_consensus::phase0::$p::IndexedAttestation>("phase0::IndexedAttestation");
            same::<PendingAttestation, ethereum_consensus::phase0::$p::PendingAttestation>("phase0::PendingAttestation");
            same::<SignedAggregateAndProof, ethereum_consensus::phase0::$p::SignedAggregateAndProof>("phase0::SignedAggregateAndProof");
            same::<SignedBeaconBlock, ethereum_consensus::phase0::$p::SignedBeaconBlock>("phase0::SignedBeaconBlock");
        }
    }
    pub mod altair {
        use super::*;
        use ethereum_consensus::altair::spec;
        pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }>;
        pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }>;
        pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }>;
        pub type ContributionAndProof = spec::ContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
        pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type LightClientBootstrap = spec::LightClientBootstrap<{ SYNC_COMMITTEE_SIZE }>;
        pub type LightClientFinalityUpdate = spec::LightClientFinalityUpdate<{ SYNC_COMMITTEE_SIZE }>;
        pub type LightClientOptimisticUpdate = spec::LightClientOptimisticUpdate<{ SYNC_COMMITTEE_SIZE }>;
        pub type LightClientUpdate = spec::LightClientUpdate<{ SYNC_COMMITTEE_SIZE }>;
        pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }>;
        pub type SignedContributionAndProof = spec::SignedContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub type SyncAggregate = spec::SyncAggregate<{ SYNC_COMMITTEE_SIZE }>;
        pub type SyncCommittee = spec::SyncCommittee<{ SYNC_COMMITTEE_SIZE }>;
        pub type SyncCommitteeContribution = spec::SyncCommitteeContribution<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub fn check() {
            same::<AggregateAndProof, ethereum_consensus::altair::$p::AggregateAndProof>("altair::AggregateAndProof");
            same::<Attestation, ethereum_consensus::altair::$p::Attestation>("altair::Attestation");
            same::<AttesterSlashing, ethereum_consensus::altair::$p::AttesterSlashing>("altair::AttesterSlashing");
            same::<BeaconBlock, ethereum_consensus::altair::$p::BeaconBlock>("altair::BeaconBlock");
            same::<BeaconBlockBody, ethereum_consensus::altair::$p::BeaconBlockBody>("altair::BeaconBlockBody");
            same::<BeaconState, ethereum_consensus::altair::$p::BeaconState>("altair::BeaconState");
            same::<ContributionAndProof, ethereum_consensus::altair::$p::ContributionAndProof>("altair::ContributionAndProof");
            same::<HistoricalBatch, ethereum_consensus::altair::$p::HistoricalBatch>("altair::HistoricalBatch");
            same::<IndexedAttestation, ethereum_consensus::altair::$p::IndexedAttestation>("altair::IndexedAttestation");
            same::<LightClientBootstrap, ethereum_consensus::altair::$p::LightClientBootstrap>("altair::LightClientBootstrap");
            same::<LightClientFinalityUpdate, ethereum_consensus::altair::$p::LightClientFinalityUpdate>("altair::LightClientFinalityUpdate");
            same::<LightClientOptimisticUpdate, ethereum_consensus::altair::$p::LightClientOptimisticUpdate>("altair::LightClientOptimisticUpdate");
            same::<LightClientUpdate, ethereum_consensus::altair::$p::LightClientUpdate>("altair::LightClientUpdate");
            same::<PendingAttestation, ethereum_consensus::altair::$p::PendingAttestation>("altair::PendingAttestation");
            same::<SignedAggregateAndProof, ethereum_consensus::altair::$p::SignedAggregateAndProof>("altair::SignedAggregateAndProof");
            same::<SignedBeaconBlock, ethereum_consensus::altair::$p::SignedBeaconBlock>("altair::SignedBeaconBlock");
            same::<SignedContributionAndProof, ethereum_consensus::altair::$p::SignedContributionAndProof>("altair::SignedContributionAndProof");
            same::<SyncAggregate, ethereum_consensus::altair::$p::SyncAggregate>("altair::SyncAggregate");
            same::<SyncCommittee, ethereum_consensus::altair::$p::SyncCommittee>("altair::SyncCommittee");
            same::<SyncCommitteeContribution, ethereum_consensus::altair::$p::SyncCommitteeContribution>("altair::SyncCommitteeContribution");
        }
    }
    pub mod bellatrix {
        use super::*;
        use ethereum_consensus::bellatrix::spec;
        pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }>;
        pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }>;
        pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type BlindedBeaconBlock = spec::BlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type BlindedBeaconBlockBody = spec::BlindedBeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type ContributionAndProof = spec::ContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub type ExecutionPayload = spec::ExecutionPayload<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }>;
        pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
        pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type LightClientBootstrap = spec::LightClientBootstrap<{ SYNC_COMMITTEE_SIZE }>;
        pub type LightClientFinalityUpdate = spec::LightClientFinalityUpdate<{ SYNC_COMMITTEE_SIZE }>;
        pub type LightClientOptimisticUpdate = spec::LightClientOptimisticUpdate<{ SYNC_COMMITTEE_SIZE }>;
        pub type LightClientUpdate = spec::LightClientUpdate<{ SYNC_COMMITTEE_SIZE }>;
        pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }>;
        pub type SignedBlindedBeaconBlock = spec::SignedBlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type SignedContributionAndProof = spec::SignedContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub type SyncAggregate = spec::SyncAggregate<{ SYNC_COMMITTEE_SIZE }>;
        pub type SyncCommittee = spec::SyncCommittee<{ SYNC_COMMITTEE_SIZE }>;
        pub type SyncCommitteeContribution = spec::SyncCommitteeContribution<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub fn check() {
            same::<AggregateAndProof, ethereum_consensus::bellatrix::$p::AggregateAndProof>("bellatrix::AggregateAndProof");
            same::<Attestation, ethereum_consensus::bellatrix::$p::Attestation>("bellatrix::Attestation");
            same::<AttesterSlashing, ethereum_consensus::bellatrix::$p::AttesterSlashing>("bellatrix::AttesterSlashing");
            same::<BeaconBlock, ethereum_consensus::bellatrix::$p::BeaconBlock>("bellatrix::BeaconBlock");
            same::<BeaconBlockBody, ethereum_consensus::bellatrix::$p::BeaconBlockBody>("bellatrix::BeaconBlockBody");
            same::<BeaconState, ethereum_consensus::bellatrix::$p::BeaconState>("bellatrix::BeaconState");
            same::<BlindedBeaconBlock, ethereum_consensus::bellatrix::$p::BlindedBeaconBlock>("bellatrix::BlindedBeaconBlock");
            same::<BlindedBeaconBlockBody, ethereum_consensus::bellatrix::$p::BlindedBeaconBlockBody>("bellatrix::BlindedBeaconBlockBody");
            same::<ContributionAndProof, ethereum_consensus::bellatrix::$p::ContributionAndProof>("bellatrix::ContributionAndProof");
            same::<ExecutionPayload, ethereum_consensus::bellatrix::$p::ExecutionPayload>("bellatrix::ExecutionPayload");
            same::<ExecutionPayloadHeader, ethereum_consensus::bellatrix::$p::ExecutionPayloadHeader>("bellatrix::ExecutionPayloadHeader");
            same::<HistoricalBatch, ethereum_consensus::bellatrix::$p::HistoricalBatch>("bellatrix::HistoricalBatch");
            same::<IndexedAttestation, ethereum_consensus::bellatrix::$p::IndexedAttestation>("bellatrix::IndexedAttestation");
            same::<LightClientBootstrap, ethereum_consensus::bellatrix::$p::LightClientBootstrap>("bellatrix::LightClientBootstrap");
            same::<LightClientFinalityUpdate, ethereum_consensus::bellatrix::$p::LightClientFinalityUpdate>("bellatrix::LightClientFinalityUpdate");
            same::<LightClientOptimisticUpdate, ethereum_consensus::bellatrix::$p::LightClientOptimisticUpdate>("bellatrix::LightClientOptimisticUpdate");
            same::<LightClientUpdate, ethereum_consensus::bellatrix::$p::LightClientUpdate>("bellatrix::LightClientUpdate");
            same::<PendingAttestation, ethereum_consensus::bellatrix::$p::PendingAttestation>("bellatrix::PendingAttestation");
            same::<SignedAggregateAndProof, ethereum_consensus::bellatrix::$p::SignedAggregateAndProof>("bellatrix::SignedAggregateAndProof");
            same::<SignedBeaconBlock, ethereum_consensus::bellatrix::$p::SignedBeaconBlock>("bellatrix::SignedBeaconBlock");
            same::<SignedBlindedBeaconBlock, ethereum_consensus::bellatrix::$p::SignedBlindedBeaconBlock>("bellatrix::SignedBlindedBeaconBlock");
            same::<SignedContributionAndProof, ethereum_consensus::bellatrix::$p::SignedContributionAndProof>("bellatrix::SignedContributionAndProof");
            same::<SyncAggregate, ethereum_consensus::bellatrix::$p::SyncAggregate>("bellatrix::SyncAggregate");
            same::<SyncCommittee, ethereum_consensus::bellatrix::$p::SyncCommittee>("bellatrix::SyncCommittee");
            same::<SyncCommitteeContribution, ethereum_consensus::bellatrix::$p::SyncCommitteeContribution>("bellatrix::SyncCommitteeContribution");
        }
    }
    pub mod capella {
        use super::*;
        use ethereum_consensus::capella::spec;
        pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
        pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
        pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type BlindedBeaconBlock = spec::BlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
        pub type BlindedBeaconBlockBody = spec::BlindedBeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
        pub type ContributionAndProof = spec::ContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub type ExecutionPayload = spec::ExecutionPayload<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }>;
        pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
        pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type LightClientBootstrap = spec::LightClientBootstrap<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type LightClientFinalityUpdate = spec::LightClientFinalityUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type LightClientHeader = spec::LightClientHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type LightClientOptimisticUpdate = spec::LightClientOptimisticUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type LightClientUpdate = spec::LightClientUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
        pub type SignedBlindedBeaconBlock = spec::SignedBlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }>;
        pub type SignedContributionAndProof = spec::SignedContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub type SyncAggregate = spec::SyncAggregate<{ SYNC_COMMITTEE_SIZE }>;
        pub type SyncCommittee = spec::SyncCommittee<{ SYNC_COMMITTEE_SIZE }>;
        pub type SyncCommitteeContribution = spec::SyncCommitteeContribution<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub fn check() {
            same::<AggregateAndProof, ethereum_consensus::capella::$p::AggregateAndProof>("capella::AggregateAndProof");
            same::<Attestation, ethereum_consensus::capella::$p::Attestation>("capella::Attestation");
            same::<AttesterSlashing, ethereum_consensus::capella::$p::AttesterSlashing>("capella::AttesterSlashing");
            same::<BeaconBlock, ethereum_consensus::capella::$p::BeaconBlock>("capella::BeaconBlock");
            same::<BeaconBlockBody, ethereum_consensus::capella::$p::BeaconBlockBody>("capella::BeaconBlockBody");
            same::<BeaconState, ethereum_consensus::capella::$p::BeaconState>("capella::BeaconState");
            same::<BlindedBeaconBlock, ethereum_consensus::capella::$p::BlindedBeaconBlock>("capella::BlindedBeaconBlock");
            same::<BlindedBeaconBlockBody, ethereum_consensus::capella::$p::BlindedBeaconBlockBody>("capella::BlindedBeaconBlockBody");
            same::<ContributionAndProof, ethereum_consensus::capella::$p::ContributionAndProof>("capella::ContributionAndProof");
            same::<ExecutionPayload, ethereum_consensus::capella::$p::ExecutionPayload>("capella::ExecutionPayload");
            same::<ExecutionPayloadHeader, ethereum_consensus::capella::$p::ExecutionPayloadHeader>("capella::ExecutionPayloadHeader");
            same::<HistoricalBatch, ethereum_consensus::capella::$p::HistoricalBatch>("capella::HistoricalBatch");
            same::<IndexedAttestation, ethereum_consensus::capella::$p::IndexedAttestation>("capella::IndexedAttestation");
            same::<LightClientBootstrap, ethereum_consensus::capella::$p::LightClientBootstrap>("capella::LightClientBootstrap");
            same::<LightClientFinalityUpdate, ethereum_consensus::capella::$p::LightClientFinalityUpdate>("capella::LightClientFinalityUpdate");
            same::<LightClientHeader, ethereum_consensus::capella::$p::LightClientHeader>("capella::LightClientHeader");
            same::<LightClientOptimisticUpdate, ethereum_consensus::capella::$p::LightClientOptimisticUpdate>("capella::LightClientOptimisticUpdate");
            same::<LightClientUpdate, ethereum_consensus::capella::$p::LightClientUpdate>("capella::LightClientUpdate");
            same::<PendingAttestation, ethereum_consensus::capella::$p::PendingAttestation>("capella::PendingAttestation");
            same::<SignedAggregateAndProof, ethereum_consensus::capella::$p::SignedAggregateAndProof>("capella::SignedAggregateAndProof");
            same::<SignedBeaconBlock, ethereum_consensus::capella::$p::SignedBeaconBlock>("capella::SignedBeaconBlock");
            same::<SignedBlindedBeaconBlock, ethereum_consensus::capella::$p::SignedBlindedBeaconBlock>("capella::SignedBlindedBeaconBlock");
            same::<SignedContributionAndProof, ethereum_consensus::capella::$p::SignedContributionAndProof>("capella::SignedContributionAndProof");
            same::<SyncAggregate, ethereum_consensus::capella::$p::SyncAggregate>("capella::SyncAggregate");
            same::<SyncCommittee, ethereum_consensus::capella::$p::SyncCommittee>("capella::SyncCommittee");
            same::<SyncCommitteeContribution, ethereum_consensus::capella::$p::SyncCommitteeContribution>("capella::SyncCommitteeContribution");
        }
    }
    pub mod deneb {
        use super::*;
        use ethereum_consensus::deneb::spec;
        pub type AggregateAndProof = spec::AggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type Attestation = spec::Attestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type AttesterSlashing = spec::AttesterSlashing<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type BeaconBlock = spec::BeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
        pub type BeaconBlockBody = spec::BeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
        pub type BeaconState = spec::BeaconState<{ SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type BlindedBeaconBlock = spec::BlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
        pub type BlindedBeaconBlockBody = spec::BlindedBeaconBlockBody<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
        pub type BlobSidecar = spec::BlobSidecar<{ BYTES_PER_BLOB }, { KZG_COMMITMENT_INCLUSION_PROOF_DEPTH }>;
        pub type BlobsBundle = spec::BlobsBundle<{ BYTES_PER_BLOB }>;
        pub type ContributionAndProof = spec::ContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub type ExecutionPayload = spec::ExecutionPayload<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }>;
        pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type HistoricalBatch = spec::HistoricalBatch<{ SLOTS_PER_HISTORICAL_ROOT }>;
        pub type IndexedAttestation = spec::IndexedAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type LightClientBootstrap = spec::LightClientBootstrap<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type LightClientFinalityUpdate = spec::LightClientFinalityUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type LightClientHeader = spec::LightClientHeader<{ BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type LightClientOptimisticUpdate = spec::LightClientOptimisticUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type LightClientUpdate = spec::LightClientUpdate<{ SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }>;
        pub type PendingAttestation = spec::PendingAttestation<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type SignedAggregateAndProof = spec::SignedAggregateAndProof<{ MAX_VALIDATORS_PER_COMMITTEE }>;
        pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
        pub type SignedBlindedBeaconBlock = spec::SignedBlindedBeaconBlock<{ MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK }>;
        pub type SignedContributionAndProof = spec::SignedContributionAndProof<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub type SyncAggregate = spec::SyncAggregate<{ SYNC_COMMITTEE_SIZE }>;
        pub type SyncCommittee = spec::SyncCommittee<{ SYNC_COMMITTEE_SIZE }>;
        pub type SyncCommitteeContribution = spec::SyncCommitteeContribution<{ SYNC_SUBCOMMITTEE_SIZE }>;
        pub fn check() {
            same::<AggregateAndProof, ethereum_consensus::deneb::$p::AggregateAndProof>("deneb::AggregateAndProof");
            same::<Attestation, ethereum_consensus::deneb::$p::Attestation>("deneb::Attestation");
            same::<AttesterSlashing, ethereum_consensus::deneb::$p::AttesterSlashing>("deneb::AttesterSlashing");
            same::<BeaconBlock, ethereum_consensus::deneb::$p::BeaconBlock>("deneb::BeaconBlock");
            same::<BeaconBlockBody, ethereum_consensus::deneb::$p::BeaconBlockBody>("deneb::BeaconBlockBody");
            same::<BeaconState, ethereum_consensus::deneb::$p::BeaconState>("deneb::BeaconState");
            same::<BlindedBeaconBlock, ethereum_consensus::deneb::$p::BlindedBeaconBlock>("deneb::BlindedBeaconBlock");
            same::<BlindedBeaconBlockBody, ethereum_consensus::deneb::$p::BlindedBeaconBlockBody>("deneb::BlindedBeaconBlockBody");
            same::<BlobSidecar, ethereum_consensus::deneb::$p::BlobSidecar>("deneb::BlobSidecar");
            same::<BlobsBundle, ethereum_consensus::deneb::$p::BlobsBundle>("deneb::BlobsBundle");
            same::<ContributionAndProof, ethereum_consensus::deneb::$p::ContributionAndProof>("deneb::ContributionAndProof");
            same::<ExecutionPayload, ethereum_consensus::deneb::$p::ExecutionPayload>("deneb::ExecutionPayload");
            same::<ExecutionPayloadHeader, ethereum_consensus::deneb::$p::ExecutionPayloadHeader>("deneb::ExecutionPayloadHeader");
            same::<HistoricalBatch, ethereum_consensus::deneb::$p::HistoricalBatch>("deneb::HistoricalBatch");
            same::<IndexedAttestation, ethereum_consensus::deneb::$p::IndexedAttestation>("deneb::IndexedAttestation");
            same::<LightClientBootstrap, ethereum_consensus::deneb::$p::LightClientBootstrap>("deneb::LightClientBootstrap");
            same::<LightClientFinalityUpdate, ethereum_consensus::deneb::$p::LightClientFinalityUpdate>("deneb::LightClientFinalityUpdate");
            same::<LightClientHeader, ethereum_consensus::deneb::$p::LightClientHeader>("deneb::LightClientHeader");
            same::<LightClientOptimisticUpdate, ethereum_consensus::deneb::$p::LightClientOptimisticUpdate>("deneb::LightClientOptimisticUpdate");
            same::<LightClientUpdate, ethereum_consensus::deneb::$p::LightClientUpdate>("deneb::LightClientUpdate");
            same::<PendingAttestation, ethereum_consensus::deneb::$p::PendingAttestation>("deneb::PendingAttestation");
            same::<SignedAggregateAndProof, ethereum_consensus::deneb::$p::SignedAggregateAndProof>("deneb::SignedAggregateAndProof");
            same::<SignedBeaconBlock, ethereum_consensus::deneb::$p::SignedBeaconBlock>("deneb::SignedBeaconBlock");
            same::<SignedBlindedBeaconBlock, ethereum_consensus::deneb::$p::SignedBlindedBeaconBlock>("deneb::SignedBlindedBeaconBlock");
            same::<SignedContributionAndProof, ethereum_consensus::deneb::$p::SignedContributionAndProof>("deneb::SignedContributionAndProof");
            same::<SyncAggregate, ethereum_consensus::deneb::$p::SyncAggregate>("deneb::SyncAggregate");
            same::<SyncCommittee, ethereum_consensus::deneb::$p::SyncCommittee>("deneb::SyncCommittee");
            same::<SyncCommitteeContribution, ethereum_consensus::deneb::$p::SyncCommitteeContribution>("deneb::SyncCommitteeContribution");
        }
    }
} }
