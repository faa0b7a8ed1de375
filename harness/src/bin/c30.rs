//! C30: the containers that do not depend on a preset.
#![no_main]
#![allow(non_upper_case_globals)]
use ethereum_consensus::{altair, bellatrix, builder, capella, deneb, electra, phase0};
use harness::spec;
harness::shapes! { h_common, 200, 1 << 20;
    phase0::Fork = spec::fork(),
    phase0::ForkData = spec::fork_data(),
    phase0::Checkpoint = spec::checkpoint(),
    phase0::Validator = spec::validator(),
    phase0::AttestationData = spec::attestation_data(),
    phase0::Eth1Data = spec::eth1_data(),
    phase0::DepositMessage = spec::deposit_message(),
    phase0::DepositData = spec::deposit_data(),
    phase0::Deposit = spec::deposit(),
    phase0::BeaconBlockHeader = spec::header(),
    phase0::SignedBeaconBlockHeader = spec::signed_header(),
    phase0::ProposerSlashing = spec::proposer_slashing(),
    phase0::VoluntaryExit = spec::voluntary_exit(),
    phase0::SignedVoluntaryExit = spec::signed_voluntary_exit(),
    phase0::Eth1Block = spec::eth1_block(),
    altair::SyncCommitteeMessage = spec::sync_committee_message(),
    altair::SyncAggregatorSelectionData = spec::sync_aggregator_selection_data(),
    altair::light_client::LightClientHeader = spec::light_client_header(spec::F::Altair),
    bellatrix::PowBlock = spec::pow_block(),
    capella::Withdrawal = spec::withdrawal(),
    capella::BlsToExecutionChange = spec::bls_to_execution_change(),
    capella::SignedBlsToExecutionChange = spec::signed_bls_to_execution_change(),
    capella::HistoricalSummary = spec::historical_summary(),
    deneb::BlobIdentifier = spec::blob_identifier(),
    electra::DepositReceipt = spec::deposit_receipt(),
    electra::ExecutionLayerWithdrawalRequest = spec::withdrawal_request(),
    electra::PendingBalanceDeposit = spec::pending_balance_deposit(),
    electra::PendingPartialWithdrawal = spec::pending_partial_withdrawal(),
    electra::PendingConsolidation = spec::pending_consolidation(),
    electra::Consolidation = spec::consolidation(),
    electra::SignedConsolidation = spec::signed_consolidation(),
    builder::ValidatorRegistration = spec::validator_registration(),
    builder::SignedValidatorRegistration = spec::signed_validator_registration(),
}

fn hex(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
/// The metadata of a node in JSON.
#[no_mangle]
pub extern "C" fn h_metadata() {
    let altair = sym::pick_bool("altair");
    let seq = sym::pick("sequence number", 0, 3) * 6148914691236517205;
    let mut attnets = [0u8; 8];
    let (i, j) = (sym::pick("subnet", 0, 63) as usize, sym::pick("sync subnet", 0, 3) as usize);
    attnets[i / 8] |= 1 << (i % 8);
    let a = format!("{{\"seq_number\":\"{seq}\",\"attnets\":\"{}\"", hex(&attnets));
    if altair {
        let want = format!("{a},\"syncnets\":\"{}\"}}", hex(&[1 << j]));
        let m = serde_json::from_str::<altair::networking::MetaData>(&want).unwrap();
        sym::check(m.seq_number == seq && m.attnets[i] && m.attnets.count_ones() == 1, "the metadata");
        sym::check(m.syncnets[j] && m.syncnets.count_ones() == 1, "the sync subnets");
        sym::check(serde_json::to_string(&m).unwrap() == want, "the JSON of altair's metadata");
    } else {
        let want = format!("{a}}}");
        let m = serde_json::from_str::<phase0::networking::MetaData>(&want).unwrap();
        sym::check(m.seq_number == seq && m.attnets[i] && m.attnets.count_ones() == 1, "the metadata");
        sym::check(serde_json::to_string(&m).unwrap() == want, "the JSON of the metadata");
    }
    sym::cover("metadata");
}
#[path = "../c30/phase0.rs"]
mod t_phase0;
#[path = "../c30/altair.rs"]
mod t_altair;
#[path = "../c30/bellatrix.rs"]
mod t_bellatrix;
#[path = "../c30/capella.rs"]
mod t_capella;
#[path = "../c30/deneb.rs"]
mod t_deneb;
#[path = "../c30/electra.rs"]
mod t_electra;
sym::main! {
    h_metadata = h_metadata,
    h_common = h_common,
    h_phase0_mainnet = t_phase0::mainnet::h_phase0_mainnet,
    h_phase0_minimal = t_phase0::minimal::h_phase0_minimal,
    h_phase0_state = t_phase0::mainnet::h_phase0_state,
    h_altair_mainnet = t_altair::mainnet::h_altair_mainnet,
    h_altair_minimal = t_altair::minimal::h_altair_minimal,
    h_altair_state = t_altair::mainnet::h_altair_state,
    h_bellatrix_mainnet = t_bellatrix::mainnet::h_bellatrix_mainnet,
    h_bellatrix_minimal = t_bellatrix::minimal::h_bellatrix_minimal,
    h_bellatrix_state = t_bellatrix::mainnet::h_bellatrix_state,
    h_capella_mainnet = t_capella::mainnet::h_capella_mainnet,
    h_capella_minimal = t_capella::minimal::h_capella_minimal,
    h_capella_state = t_capella::mainnet::h_capella_state,
    h_deneb_mainnet = t_deneb::mainnet::h_deneb_mainnet,
    h_deneb_minimal = t_deneb::minimal::h_deneb_minimal,
    h_deneb_state = t_deneb::mainnet::h_deneb_state,
    h_electra_mainnet = t_electra::mainnet::h_electra_mainnet,
    h_electra_minimal = t_electra::minimal::h_electra_minimal,
    h_electra_state = t_electra::mainnet::h_electra_state,
}
