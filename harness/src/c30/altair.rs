//! C30: the containers of altair, with the sizes of both presets.
use harness::spec::{self, F};

pub mod mainnet {
    use super::*;
    use ethereum_consensus::altair::mainnet::*;
    use spec::MAINNET as p;
    const f: F = F::Altair;
    harness::shapes! { h_altair_mainnet, 200, 0;
        SyncAggregate = spec::sync_aggregate(p),
        SyncCommittee = spec::sync_committee(p),
        SyncCommitteeContribution = spec::sync_committee_contribution(p),
        ContributionAndProof = spec::contribution_and_proof(p),
        SignedContributionAndProof = spec::signed_contribution_and_proof(p),
        BeaconBlockBody = spec::body(p, f),
        BeaconBlock = spec::block(p, f),
        SignedBeaconBlock = spec::signed_block(p, f),
        LightClientBootstrap = spec::light_client_bootstrap(p, f),
        LightClientUpdate = spec::light_client_update(p, f),
        LightClientFinalityUpdate = spec::light_client_finality_update(p, f),
        LightClientOptimisticUpdate = spec::light_client_optimistic_update(p, f),
    }
    #[no_mangle]
    pub extern "C" fn h_altair_state() {
        harness::state_fields! { BeaconState, spec::state(p, f);
            block_roots state_roots randao_mixes slashings;
            historical_roots eth1_data_votes validators balances previous_epoch_participation current_epoch_participation inactivity_scores;
            fork latest_block_header eth1_data justification_bits previous_justified_checkpoint current_justified_checkpoint finalized_checkpoint current_sync_committee next_sync_committee
        }
    }
}
pub mod minimal {
    use super::*;
    use ethereum_consensus::altair::minimal::*;
    use spec::MINIMAL as p;
    const f: F = F::Altair;
    harness::shapes! { h_altair_minimal, 200, 1 << 18;
        SyncAggregate = spec::sync_aggregate(p),
        SyncCommittee = spec::sync_committee(p),
        SyncCommitteeContribution = spec::sync_committee_contribution(p),
        ContributionAndProof = spec::contribution_and_proof(p),
        SignedContributionAndProof = spec::signed_contribution_and_proof(p),
        BeaconState = spec::state(p, f),
        BeaconBlockBody = spec::body(p, f),
        BeaconBlock = spec::block(p, f),
        SignedBeaconBlock = spec::signed_block(p, f),
        LightClientBootstrap = spec::light_client_bootstrap(p, f),
        LightClientUpdate = spec::light_client_update(p, f),
        LightClientFinalityUpdate = spec::light_client_finality_update(p, f),
        LightClientOptimisticUpdate = spec::light_client_optimistic_update(p, f),
    }
}
