//! C30: the containers of deneb, with the sizes of both presets.
use harness::spec::{self, F};

pub mod mainnet {
    use super::*;
    use ethereum_consensus::deneb::mainnet::*;
    use spec::MAINNET as p;
    const f: F = F::Deneb;
    harness::shapes! { h_deneb_mainnet, 200, 0;
        ExecutionPayload = spec::payload(p, f),
        ExecutionPayloadHeader = spec::payload_header(f),
        BeaconBlockBody = spec::body(p, f),
        BeaconBlock = spec::block(p, f),
        SignedBeaconBlock = spec::signed_block(p, f),
        BlindedBeaconBlockBody = spec::blinded_body(p, f),
        BlindedBeaconBlock = spec::blinded_block(p, f),
        SignedBlindedBeaconBlock = spec::signed_blinded_block(p, f),
        BlobSidecar = spec::blob_sidecar(p),
        LightClientHeader = spec::light_client_header(f),
        LightClientBootstrap = spec::light_client_bootstrap(p, f),
        LightClientUpdate = spec::light_client_update(p, f),
        LightClientFinalityUpdate = spec::light_client_finality_update(p, f),
        LightClientOptimisticUpdate = spec::light_client_optimistic_update(p, f),
    }
    #[no_mangle]
    pub extern "C" fn h_deneb_state() {
        harness::state_fields! { BeaconState, spec::state(p, f);
            block_roots state_roots randao_mixes slashings;
            historical_roots eth1_data_votes validators balances previous_epoch_participation current_epoch_participation inactivity_scores historical_summaries;
            fork latest_block_header eth1_data justification_bits previous_justified_checkpoint current_justified_checkpoint finalized_checkpoint current_sync_committee next_sync_committee latest_execution_payload_header
        }
    }
}
pub mod minimal {
    use super::*;
    use ethereum_consensus::deneb::minimal::*;
    use spec::MINIMAL as p;
    const f: F = F::Deneb;
    harness::shapes! { h_deneb_minimal, 200, 1 << 18;
        ExecutionPayload = spec::payload(p, f),
        ExecutionPayloadHeader = spec::payload_header(f),
        BeaconState = spec::state(p, f),
        BeaconBlockBody = spec::body(p, f),
        BeaconBlock = spec::block(p, f),
        SignedBeaconBlock = spec::signed_block(p, f),
        BlindedBeaconBlockBody = spec::blinded_body(p, f),
        BlindedBeaconBlock = spec::blinded_block(p, f),
        SignedBlindedBeaconBlock = spec::signed_blinded_block(p, f),
        BlobSidecar = spec::blob_sidecar(p),
        LightClientHeader = spec::light_client_header(f),
        LightClientBootstrap = spec::light_client_bootstrap(p, f),
        LightClientUpdate = spec::light_client_update(p, f),
        LightClientFinalityUpdate = spec::light_client_finality_update(p, f),
        LightClientOptimisticUpdate = spec::light_client_optimistic_update(p, f),
    }
}
