//! The containers of the consensus specification (v1.4.0; electra: v1.5.0-alpha.2).
use crate::shapes::*;

/// The sizes of a preset that containers depend on.
#[derive(Clone, Copy)]
pub struct P {
    pub slots_per_epoch: usize,
    pub epochs_per_eth1_voting_period: usize,
    pub slots_per_historical_root: usize,
    pub epochs_per_historical_vector: usize,
    pub epochs_per_slashings_vector: usize,
    pub sync_committee_size: usize,
    pub max_committees_per_slot: usize,
    pub max_withdrawals_per_payload: usize,
    pub field_elements_per_blob: usize,
    pub max_blob_commitments_per_block: usize,
    pub kzg_commitment_inclusion_proof_depth: usize,
    pub pending_partial_withdrawals_limit: usize,
    pub pending_consolidations_limit: usize,
    pub max_deposit_receipts_per_payload: usize,
    pub max_withdrawal_requests_per_payload: usize,
}
pub const MAINNET: P = P {
    slots_per_epoch: 32,
    epochs_per_eth1_voting_period: 64,
    slots_per_historical_root: 8192,
    epochs_per_historical_vector: 65536,
    epochs_per_slashings_vector: 8192,
    sync_committee_size: 512,
    max_committees_per_slot: 64,
    max_withdrawals_per_payload: 16,
    field_elements_per_blob: 4096,
    max_blob_commitments_per_block: 4096,
    kzg_commitment_inclusion_proof_depth: 17,
    pending_partial_withdrawals_limit: 1 << 27,
    pending_consolidations_limit: 1 << 18,
    max_deposit_receipts_per_payload: 8192,
    max_withdrawal_requests_per_payload: 16,
};
pub const MINIMAL: P = P {
    slots_per_epoch: 8,
    epochs_per_eth1_voting_period: 4,
    slots_per_historical_root: 64,
    epochs_per_historical_vector: 64,
    epochs_per_slashings_vector: 64,
    sync_committee_size: 32,
    max_committees_per_slot: 4,
    max_withdrawals_per_payload: 4,
    field_elements_per_blob: 4096,
    max_blob_commitments_per_block: 16,
    kzg_commitment_inclusion_proof_depth: 9,
    pending_partial_withdrawals_limit: 1 << 6,
    pending_consolidations_limit: 1 << 6,
    max_deposit_receipts_per_payload: 4,
    max_withdrawal_requests_per_payload: 2,
};
const MAX_VALIDATORS_PER_COMMITTEE: usize = 2048;
const REGISTRY: usize = 1 << 40;

#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum F {
    Phase0,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
}
use F::*;

fn key() -> T {
    Bytes(48)
}
fn sig() -> T {
    Bytes(96)
}
fn address() -> T {
    Bytes(20)
}
fn signed(m: T) -> T {
    C(vec![("message", m), ("signature", sig())])
}
pub fn fork() -> T {
    C(vec![("previous_version", Bytes(4)), ("current_version", Bytes(4)), ("epoch", U64)])
}
pub fn fork_data() -> T {
    C(vec![("current_version", Bytes(4)), ("genesis_validators_root", root())])
}
pub fn checkpoint() -> T {
    C(vec![("epoch", U64), ("root", root())])
}
pub fn validator() -> T {
    C(vec![
        ("pubkey", key()),
        ("withdrawal_credentials", root()),
        ("effective_balance", U64),
        ("slashed", Bool),
        ("activation_eligibility_epoch", U64),
        ("activation_epoch", U64),
        ("exit_epoch", U64),
        ("withdrawable_epoch", U64),
    ])
}
pub fn attestation_data() -> T {
    C(vec![
        ("slot", U64),
        ("index", U64),
        ("beacon_block_root", root()),
        ("source", checkpoint()),
        ("target", checkpoint()),
    ])
}
fn attesters(p: P, f: F) -> usize {
    if f == Electra {
        MAX_VALIDATORS_PER_COMMITTEE * p.max_committees_per_slot
    } else {
        MAX_VALIDATORS_PER_COMMITTEE
    }
}
pub fn indexed_attestation(p: P, f: F) -> T {
    C(vec![("attesting_indices", list(U64, attesters(p, f))), ("data", attestation_data()), ("signature", sig())])
}
pub fn pending_attestation() -> T {
    C(vec![
        ("aggregation_bits", Bitlist(MAX_VALIDATORS_PER_COMMITTEE)),
        ("data", attestation_data()),
        ("inclusion_delay", U64),
        ("proposer_index", U64),
    ])
}
pub fn attestation(p: P, f: F) -> T {
    if f == Electra {
        C(vec![
            ("aggregation_bits", Bitlist(attesters(p, f))),
            ("data", attestation_data()),
            ("committee_bits", Bits(p.max_committees_per_slot)),
            ("signature", sig()),
        ])
    } else {
        C(vec![("aggregation_bits", Bitlist(attesters(p, f))), ("data", attestation_data()), ("signature", sig())])
    }
}
pub fn eth1_data() -> T {
    C(vec![("deposit_root", root()), ("deposit_count", U64), ("block_hash", root())])
}
pub fn eth1_block() -> T {
    C(vec![("timestamp", U64), ("deposit_root", root()), ("deposit_count", U64)])
}
pub fn historical_batch(p: P) -> T {
    C(vec![
        ("block_roots", vector(root(), p.slots_per_historical_root)),
        ("state_roots", vector(root(), p.slots_per_historical_root)),
    ])
}
pub fn historical_summary() -> T {
    C(vec![("block_summary_root", root()), ("state_summary_root", root())])
}
pub fn deposit_message() -> T {
    C(vec![("pubkey", key()), ("withdrawal_credentials", root()), ("amount", U64)])
}
pub fn deposit_data() -> T {
    C(vec![("pubkey", key()), ("withdrawal_credentials", root()), ("amount", U64), ("signature", sig())])
}
pub fn deposit() -> T {
    C(vec![("proof", vector(root(), 33)), ("data", deposit_data())])
}
pub fn header() -> T {
    C(vec![
        ("slot", U64),
        ("proposer_index", U64),
        ("parent_root", root()),
        ("state_root", root()),
        ("body_root", root()),
    ])
}
pub fn signed_header() -> T {
    signed(header())
}
pub fn signing_data() -> T {
    C(vec![("object_root", root()), ("domain", root())])
}
pub fn proposer_slashing() -> T {
    C(vec![("signed_header_1", signed_header()), ("signed_header_2", signed_header())])
}
pub fn attester_slashing(p: P, f: F) -> T {
    C(vec![("attestation_1", indexed_attestation(p, f)), ("attestation_2", indexed_attestation(p, f))])
}
pub fn voluntary_exit() -> T {
    C(vec![("epoch", U64), ("validator_index", U64)])
}
pub fn signed_voluntary_exit() -> T {
    signed(voluntary_exit())
}
pub fn aggregate_and_proof(p: P, f: F) -> T {
    C(vec![("aggregator_index", U64), ("aggregate", attestation(p, f)), ("selection_proof", sig())])
}
pub fn signed_aggregate_and_proof(p: P, f: F) -> T {
    signed(aggregate_and_proof(p, f))
}
pub fn sync_aggregate(p: P) -> T {
    C(vec![("sync_committee_bits", Bits(p.sync_committee_size)), ("sync_committee_signature", sig())])
}
pub fn sync_committee(p: P) -> T {
    C(vec![("pubkeys", vector(key(), p.sync_committee_size)), ("aggregate_pubkey", key())])
}
pub fn sync_committee_message() -> T {
    C(vec![("slot", U64), ("beacon_block_root", root()), ("validator_index", U64), ("signature", sig())])
}
pub fn sync_committee_contribution(p: P) -> T {
    C(vec![
        ("slot", U64),
        ("beacon_block_root", root()),
        ("subcommittee_index", U64),
        ("aggregation_bits", Bits(p.sync_committee_size / 4)),
        ("signature", sig()),
    ])
}
pub fn contribution_and_proof(p: P) -> T {
    C(vec![("aggregator_index", U64), ("contribution", sync_committee_contribution(p)), ("selection_proof", sig())])
}
pub fn signed_contribution_and_proof(p: P) -> T {
    signed(contribution_and_proof(p))
}
pub fn sync_aggregator_selection_data() -> T {
    C(vec![("slot", U64), ("subcommittee_index", U64)])
}
pub fn withdrawal() -> T {
    C(vec![("index", U64), ("validator_index", U64), ("address", address()), ("amount", U64)])
}
pub fn bls_to_execution_change() -> T {
    C(vec![("validator_index", U64), ("from_bls_pubkey", key()), ("to_execution_address", address())])
}
pub fn signed_bls_to_execution_change() -> T {
    signed(bls_to_execution_change())
}
pub fn pow_block() -> T {
    C(vec![("block_hash", root()), ("parent_hash", root()), ("total_difficulty", U256)])
}
pub fn deposit_receipt() -> T {
    C(vec![
        ("pubkey", key()),
        ("withdrawal_credentials", root()),
        ("amount", U64),
        ("signature", sig()),
        ("index", U64),
    ])
}
pub fn withdrawal_request() -> T {
    C(vec![("source_address", address()), ("validator_pubkey", key()), ("amount", U64)])
}
pub fn pending_balance_deposit() -> T {
    C(vec![("index", U64), ("amount", U64)])
}
pub fn pending_partial_withdrawal() -> T {
    C(vec![("index", U64), ("amount", U64), ("withdrawable_epoch", U64)])
}
pub fn pending_consolidation() -> T {
    C(vec![("source_index", U64), ("target_index", U64)])
}
pub fn consolidation() -> T {
    C(vec![("source_index", U64), ("target_index", U64), ("epoch", U64)])
}
pub fn signed_consolidation() -> T {
    signed(consolidation())
}
fn payload_start() -> Vec<(&'static str, T)> {
    vec![
        ("parent_hash", root()),
        ("fee_recipient", address()),
        ("state_root", root()),
        ("receipts_root", root()),
        ("logs_bloom", Bytes(256)),
        ("prev_randao", root()),
        ("block_number", U64),
        ("gas_limit", U64),
        ("gas_used", U64),
        ("timestamp", U64),
        ("extra_data", ByteList(32)),
        ("base_fee_per_gas", U256),
        ("block_hash", root()),
    ]
}
pub fn payload(p: P, f: F) -> T {
    let mut v = payload_start();
    v.push(("transactions", list(ByteList(1 << 30), 1 << 20)));
    if f >= Capella {
        v.push(("withdrawals", list(withdrawal(), p.max_withdrawals_per_payload)));
    }
    if f >= Deneb {
        v.push(("blob_gas_used", U64));
        v.push(("excess_blob_gas", U64));
    }
    if f >= Electra {
        v.push(("deposit_receipts", list(deposit_receipt(), p.max_deposit_receipts_per_payload)));
        v.push(("withdrawal_requests", list(withdrawal_request(), p.max_withdrawal_requests_per_payload)));
    }
    C(v)
}
pub fn payload_header(f: F) -> T {
    let mut v = payload_start();
    v.push(("transactions_root", root()));
    if f >= Capella {
        v.push(("withdrawals_root", root()));
    }
    if f >= Deneb {
        v.push(("blob_gas_used", U64));
        v.push(("excess_blob_gas", U64));
    }
    if f >= Electra {
        v.push(("deposit_receipts_root", root()));
        v.push(("withdrawal_requests_root", root()));
    }
    C(v)
}
fn any_body(p: P, f: F, blinded: bool) -> T {
    let e = f == Electra;
    let mut v = vec![
        ("randao_reveal", sig()),
        ("eth1_data", eth1_data()),
        ("graffiti", root()),
        ("proposer_slashings", list(proposer_slashing(), 16)),
        ("attester_slashings", list(attester_slashing(p, f), if e { 1 } else { 2 })),
        ("attestations", list(attestation(p, f), if e { 8 } else { 128 })),
        ("deposits", list(deposit(), 16)),
        ("voluntary_exits", list(signed_voluntary_exit(), 16)),
    ];
    if f >= Altair {
        v.push(("sync_aggregate", sync_aggregate(p)));
    }
    if f >= Bellatrix {
        if blinded {
            v.push(("execution_payload_header", payload_header(f)));
        } else {
            v.push(("execution_payload", payload(p, f)));
        }
    }
    if f >= Capella {
        v.push(("bls_to_execution_changes", list(signed_bls_to_execution_change(), 16)));
    }
    if f >= Deneb {
        v.push(("blob_kzg_commitments", list(Bytes(48), p.max_blob_commitments_per_block)));
    }
    if f >= Electra {
        v.push(("consolidations", list(signed_consolidation(), 1)));
    }
    C(v)
}
pub fn body(p: P, f: F) -> T {
    any_body(p, f, false)
}
pub fn blinded_body(p: P, f: F) -> T {
    any_body(p, f, true)
}
fn with_body(b: T) -> T {
    C(vec![("slot", U64), ("proposer_index", U64), ("parent_root", root()), ("state_root", root()), ("body", b)])
}
pub fn block(p: P, f: F) -> T {
    with_body(body(p, f))
}
pub fn signed_block(p: P, f: F) -> T {
    signed(block(p, f))
}
pub fn blinded_block(p: P, f: F) -> T {
    with_body(blinded_body(p, f))
}
pub fn signed_blinded_block(p: P, f: F) -> T {
    signed(blinded_block(p, f))
}
pub fn state(p: P, f: F) -> T {
    let mut v = vec![
        ("genesis_time", U64),
        ("genesis_validators_root", root()),
        ("slot", U64),
        ("fork", fork()),
        ("latest_block_header", header()),
        ("block_roots", vector(root(), p.slots_per_historical_root)),
        ("state_roots", vector(root(), p.slots_per_historical_root)),
        ("historical_roots", list(root(), 1 << 24)),
        ("eth1_data", eth1_data()),
        ("eth1_data_votes", list(eth1_data(), p.epochs_per_eth1_voting_period * p.slots_per_epoch)),
        ("eth1_deposit_index", U64),
        ("validators", list(validator(), REGISTRY)),
        ("balances", list(U64, REGISTRY)),
        ("randao_mixes", vector(root(), p.epochs_per_historical_vector)),
        ("slashings", vector(U64, p.epochs_per_slashings_vector)),
    ];
    if f == Phase0 {
        v.push(("previous_epoch_attestations", list(pending_attestation(), 128 * p.slots_per_epoch)));
        v.push(("current_epoch_attestations", list(pending_attestation(), 128 * p.slots_per_epoch)));
    } else {
        v.push(("previous_epoch_participation", list(U8, REGISTRY)));
        v.push(("current_epoch_participation", list(U8, REGISTRY)));
    }
    v.push(("justification_bits", Bits(4)));
    v.push(("previous_justified_checkpoint", checkpoint()));
    v.push(("current_justified_checkpoint", checkpoint()));
    v.push(("finalized_checkpoint", checkpoint()));
    if f >= Altair {
        v.push(("inactivity_scores", list(U64, REGISTRY)));
        v.push(("current_sync_committee", sync_committee(p)));
        v.push(("next_sync_committee", sync_committee(p)));
    }
    if f >= Bellatrix {
        v.push(("latest_execution_payload_header", payload_header(f)));
    }
    if f >= Capella {
        v.push(("next_withdrawal_index", U64));
        v.push(("next_withdrawal_validator_index", U64));
        v.push(("historical_summaries", list(historical_summary(), 1 << 24)));
    }
    if f >= Electra {
        v.push(("deposit_receipts_start_index", U64));
        v.push(("deposit_balance_to_consume", U64));
        v.push(("exit_balance_to_consume", U64));
        v.push(("earliest_exit_epoch", U64));
        v.push(("consolidation_balance_to_consume", U64));
        v.push(("earliest_consolidation_epoch", U64));
        v.push(("pending_balance_deposits", list(pending_balance_deposit(), 1 << 27)));
        v.push(("pending_partial_withdrawals", list(pending_partial_withdrawal(), p.pending_partial_withdrawals_limit)));
        v.push(("pending_consolidations", list(pending_consolidation(), p.pending_consolidations_limit)));
    }
    C(v)
}
pub fn light_client_header(f: F) -> T {
    if f >= Capella {
        C(vec![("beacon", header()), ("execution", payload_header(f)), ("execution_branch", vector(root(), 4))])
    } else {
        C(vec![("beacon", header())])
    }
}
pub fn light_client_bootstrap(p: P, f: F) -> T {
    C(vec![
        ("header", light_client_header(f)),
        ("current_sync_committee", sync_committee(p)),
        ("current_sync_committee_branch", vector(root(), 5)),
    ])
}
pub fn light_client_update(p: P, f: F) -> T {
    C(vec![
        ("attested_header", light_client_header(f)),
        ("next_sync_committee", sync_committee(p)),
        ("next_sync_committee_branch", vector(root(), 5)),
        ("finalized_header", light_client_header(f)),
        ("finality_branch", vector(root(), 6)),
        ("sync_aggregate", sync_aggregate(p)),
        ("signature_slot", U64),
    ])
}
pub fn light_client_finality_update(p: P, f: F) -> T {
    C(vec![
        ("attested_header", light_client_header(f)),
        ("finalized_header", light_client_header(f)),
        ("finality_branch", vector(root(), 6)),
        ("sync_aggregate", sync_aggregate(p)),
        ("signature_slot", U64),
    ])
}
pub fn light_client_optimistic_update(p: P, f: F) -> T {
    C(vec![("attested_header", light_client_header(f)), ("sync_aggregate", sync_aggregate(p)), ("signature_slot", U64)])
}
pub fn blob_identifier() -> T {
    C(vec![("block_root", root()), ("index", U64)])
}
pub fn blob_sidecar(p: P) -> T {
    C(vec![
        ("index", U64),
        ("blob", Bytes(32 * p.field_elements_per_blob)),
        ("kzg_commitment", Bytes(48)),
        ("kzg_proof", Bytes(48)),
        ("signed_block_header", signed_header()),
        ("kzg_commitment_inclusion_proof", vector(root(), p.kzg_commitment_inclusion_proof_depth)),
    ])
}
pub fn metadata() -> T {
    C(vec![("seq_number", U64), ("attnets", Bits(64))])
}
pub fn altair_metadata() -> T {
    C(vec![("seq_number", U64), ("attnets", Bits(64)), ("syncnets", Bits(4))])
}
/// The builder specification.
pub fn validator_registration() -> T {
    C(vec![("fee_recipient", address()), ("gas_limit", U64), ("timestamp", U64), ("pubkey", key())])
}
pub fn signed_validator_registration() -> T {
    signed(validator_registration())
}
