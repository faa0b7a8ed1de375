//! C30: the containers of phase0, with the sizes of both presets.
use harness::spec::{self, F};

pub mod mainnet {
    use super::*;
    use ethereum_consensus::phase0::mainnet::*;
    use spec::MAINNET as p;
    const f: F = F::Phase0;
    harness::shapes! { h_phase0_mainnet, 200, 0;
        IndexedAttestation = spec::indexed_attestation(p, f),
        Attestation = spec::attestation(p, f),
        AttesterSlashing = spec::attester_slashing(p, f),
        PendingAttestation = spec::pending_attestation(),
        HistoricalBatch = spec::historical_batch(p),
        AggregateAndProof = spec::aggregate_and_proof(p, f),
        SignedAggregateAndProof = spec::signed_aggregate_and_proof(p, f),
        BeaconBlockBody = spec::body(p, f),
        BeaconBlock = spec::block(p, f),
        SignedBeaconBlock = spec::signed_block(p, f),
    }
    #[no_mangle]
    pub extern "C" fn h_phase0_state() {
        harness::state_fields! { BeaconState, spec::state(p, f);
            block_roots state_roots randao_mixes slashings;
            historical_roots eth1_data_votes validators balances previous_epoch_attestations current_epoch_attestations;
            fork latest_block_header eth1_data justification_bits previous_justified_checkpoint current_justified_checkpoint finalized_checkpoint
        }
    }
}
pub mod minimal {
    use super::*;
    use ethereum_consensus::phase0::minimal::*;
    use spec::MINIMAL as p;
    const f: F = F::Phase0;
    harness::shapes! { h_phase0_minimal, 200, 1 << 18;
        IndexedAttestation = spec::indexed_attestation(p, f),
        Attestation = spec::attestation(p, f),
        AttesterSlashing = spec::attester_slashing(p, f),
        PendingAttestation = spec::pending_attestation(),
        HistoricalBatch = spec::historical_batch(p),
        AggregateAndProof = spec::aggregate_and_proof(p, f),
        SignedAggregateAndProof = spec::signed_aggregate_and_proof(p, f),
        BeaconState = spec::state(p, f),
        BeaconBlockBody = spec::body(p, f),
        BeaconBlock = spec::block(p, f),
        SignedBeaconBlock = spec::signed_block(p, f),
    }
}
