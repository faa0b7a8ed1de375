//! C30: the containers of bellatrix, with the sizes of both presets.
use harness::spec::{self, F};

pub mod mainnet {
    use super::*;
    use ethereum_consensus::bellatrix::mainnet::*;
    use spec::MAINNET as p;
    const f: F = F::Bellatrix;
    harness::shapes! { h_bellatrix_mainnet, 200, 0;
        ExecutionPayload = spec::payload(p, f),
        ExecutionPayloadHeader = spec::payload_header(f),
        BeaconBlockBody = spec::body(p, f),
        BeaconBlock = spec::block(p, f),
        SignedBeaconBlock = spec::signed_block(p, f),
        BlindedBeaconBlockBody = spec::blinded_body(p, f),
        BlindedBeaconBlock = spec::blinded_block(p, f),
        SignedBlindedBeaconBlock = spec::signed_blinded_block(p, f),
    }
    #[no_mangle]
    pub extern "C" fn h_bellatrix_state() {
        harness::state_fields! { BeaconState, spec::state(p, f);
            block_roots state_roots randao_mixes slashings;
            historical_roots eth1_data_votes validators balances previous_epoch_participation current_epoch_participation inactivity_scores;
            fork latest_block_header eth1_data justification_bits previous_justified_checkpoint current_justified_checkpoint finalized_checkpoint current_sync_committee next_sync_committee latest_execution_payload_header
        }
    }
}
pub mod minimal {
    use super::*;
    use ethereum_consensus::bellatrix::minimal::*;
    use spec::MINIMAL as p;
    const f: F = F::Bellatrix;
    harness::shapes! { h_bellatrix_minimal, 200, 1 << 18;
        ExecutionPayload = spec::payload(p, f),
        ExecutionPayloadHeader = spec::payload_header(f),
        BeaconState = spec::state(p, f),
        BeaconBlockBody = spec::body(p, f),
        BeaconBlock = spec::block(p, f),
        SignedBeaconBlock = spec::signed_block(p, f),
        BlindedBeaconBlockBody = spec::blinded_body(p, f),
        BlindedBeaconBlock = spec::blinded_block(p, f),
        SignedBlindedBeaconBlock = spec::signed_blinded_block(p, f),
    }
}
