pub mod eip2333;
pub mod eip2335;
pub mod refs;
pub mod shapes;
pub mod small;
pub mod spec;
pub use ethereum_consensus::phase0::{Checkpoint, Validator};
pub use ethereum_consensus::primitives::*;
pub use ethereum_consensus::state_transition::Context;
pub use ethereum_consensus::Error;
use ssz_rs::prelude::*;

pub const FAR: u64 = u64::MAX;
pub const GWEI: u64 = 1_000_000_000;

/// The context matching the containers in `small`.
pub fn context() -> Context {
    let mut c = Context::for_minimal();
    c.slots_per_epoch = 4;
    c.shuffle_round_count = 2;
    c.slots_per_historical_root = small::SLOTS_PER_HISTORICAL_ROOT as u64;
    c.epochs_per_historical_vector = small::EPOCHS_PER_HISTORICAL_VECTOR as u64;
    c.epochs_per_slashings_vector = small::EPOCHS_PER_SLASHINGS_VECTOR as u64;
    c.epochs_per_eth1_voting_period = 2;
    c.sync_committee_size = small::SYNC_COMMITTEE_SIZE;
    c.max_validators_per_committee = small::MAX_VALIDATORS_PER_COMMITTEE;
    c.max_committees_per_slot = small::MAX_COMMITTEES_PER_SLOT as u64;
    c.max_withdrawals_per_payload = small::MAX_WITHDRAWALS_PER_PAYLOAD;
    c.max_deposits = small::MAX_DEPOSITS;
    c.pending_partial_withdrawals_limit = small::PENDING_PARTIAL_WITHDRAWALS_LIMIT;
    c.pending_consolidations_limit = small::PENDING_CONSOLIDATIONS_LIMIT;
    c.pending_balance_deposits_limit = small::PENDING_BALANCE_DEPOSITS_LIMIT;
    c
}

/// An epoch in 0..=max, or the far future.
pub fn epoch_or_far(name: &str, max: u64) -> u64 {
    let f = sym::any_bool(name);
    let e = sym::range(name, 0, max);
    sym::ite(f, FAR, e)
}
pub fn key(i: u8) -> BlsPublicKey {
    let mut b = [0u8; 48];
    b[0] = 0xa0;
    b[47] = i;
    BlsPublicKey::try_from(b.as_ref()).unwrap()
}
pub fn root(b: u8) -> Root {
    let mut r = [b; 32];
    r[31] = 0x77;
    Root::try_from(r.as_ref()).unwrap()
}
pub fn bytes32(b: u8) -> Bytes32 {
    Bytes32::try_from(root(b).as_ref()).unwrap()
}
pub fn any_root(name: &str) -> Root {
    let r = sym::any_bytes::<32>(name);
    Root::try_from(r.as_ref()).unwrap()
}
pub fn any_bytes32(name: &str) -> Bytes32 {
    let r = sym::any_bytes::<32>(name);
    Bytes32::try_from(r.as_ref()).unwrap()
}
pub fn any_signature(name: &str) -> BlsSignature {
    let mut b = [0u8; 96];
    b[..8].copy_from_slice(&sym::any_u64(name).to_le_bytes());
    BlsSignature::try_from(b.as_ref()).unwrap()
}
/// An active validator with a full effective balance.
pub fn active_validator(i: u8) -> Validator {
    let mut v = Validator::default();
    v.public_key = key(i);
    v.effective_balance = 32 * GWEI;
    v.activation_eligibility_epoch = 0;
    v.activation_epoch = 0;
    v.exit_epoch = FAR;
    v.withdrawable_epoch = FAR;
    v
}
/// Give the fields that few steps look at arbitrary values.
pub fn odd(v: &mut Validator) {
    v.slashed = sym::any_bool("slashed");
    v.withdrawal_credentials = any_bytes32("withdrawal credentials");
    v.activation_eligibility_epoch = sym::any_u64("eligibility");
    v.withdrawable_epoch = sym::any_u64("withdrawable");
}
/// Give everything but the key arbitrary values.
pub fn strange(v: &mut Validator) {
    odd(v);
    v.effective_balance = sym::range("effective balance", 0, 2048 * GWEI);
    v.activation_epoch = sym::any_u64("activation");
    v.exit_epoch = sym::any_u64("exit");
}
pub fn eq_validator(a: &Validator, b: &Validator) -> bool {
    (a.public_key == b.public_key)
        & (a.withdrawal_credentials == b.withdrawal_credentials)
        & (a.effective_balance == b.effective_balance)
        & (a.slashed == b.slashed)
        & (a.activation_eligibility_epoch == b.activation_eligibility_epoch)
        & (a.activation_epoch == b.activation_epoch)
        & (a.exit_epoch == b.exit_epoch)
        & (a.withdrawable_epoch == b.withdrawable_epoch)
}
pub fn eq_validators(a: &[Validator], b: &[Validator]) -> bool {
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        r &= eq_validator(x, y);
    }
    r
}
pub fn eq_u64s(a: &[u64], b: &[u64]) -> bool {
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        r &= x == y;
    }
    r
}
pub fn eq_u8s(a: &[u8], b: &[u8]) -> bool {
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        r &= x == y;
    }
    r
}

pub fn same_validators(a: &[Validator], b: &[Validator], msg: &str) {
    sym::check(a.len() == b.len(), msg);
    for (a, b) in a.iter().zip(b) {
        sym::check(a.public_key == b.public_key, msg);
        sym::check(a.withdrawal_credentials == b.withdrawal_credentials, msg);
        sym::check(a.effective_balance == b.effective_balance, msg);
        sym::check(a.slashed == b.slashed, msg);
        sym::check(a.activation_eligibility_epoch == b.activation_eligibility_epoch, msg);
        sym::check(a.activation_epoch == b.activation_epoch, msg);
        sym::check(a.exit_epoch == b.exit_epoch, msg);
        sym::check(a.withdrawable_epoch == b.withdrawable_epoch, msg);
    }
}

/// Assert field by field that two states agree.
#[macro_export]
macro_rules! same_fields {
    ($a:expr, $b:expr, $msg:expr; $($f:ident),*) => {
        $( sym::check($a.$f == $b.$f, concat!($msg, ": ", stringify!($f))); )*
    };
}
#[macro_export]
macro_rules! same_state {
    (base $a:expr, $b:expr, $msg:expr) => {
        $crate::same_validators(&$a.validators, &$b.validators, concat!($msg, ": validators"));
        sym::check($crate::eq_u64s(&$a.balances, &$b.balances), concat!($msg, ": balances"));
        sym::check($crate::eq_u64s(&$a.slashings, &$b.slashings), concat!($msg, ": slashings"));
        $crate::same_fields!($a, $b, $msg; genesis_time, genesis_validators_root, slot, fork, latest_block_header,
            block_roots, state_roots, historical_roots, eth1_data, eth1_data_votes, eth1_deposit_index,
            randao_mixes, justification_bits, previous_justified_checkpoint, current_justified_checkpoint,
            finalized_checkpoint);
    };
    (phase0, $a:expr, $b:expr, $msg:expr) => {
        $crate::same_state!(base $a, $b, $msg);
        $crate::same_fields!($a, $b, $msg; previous_epoch_attestations, current_epoch_attestations);
    };
    (altair, $a:expr, $b:expr, $msg:expr) => {
        $crate::same_state!(base $a, $b, $msg);
        sym::check($crate::eq_u8s(&$a.previous_epoch_participation, &$b.previous_epoch_participation), concat!($msg, ": previous participation"));
        sym::check($crate::eq_u8s(&$a.current_epoch_participation, &$b.current_epoch_participation), concat!($msg, ": current participation"));
        sym::check($crate::eq_u64s(&$a.inactivity_scores, &$b.inactivity_scores), concat!($msg, ": inactivity scores"));
        $crate::same_fields!($a, $b, $msg; current_sync_committee, next_sync_committee);
    };
    (bellatrix, $a:expr, $b:expr, $msg:expr) => {
        $crate::same_state!(altair, $a, $b, $msg);
        $crate::same_fields!($a, $b, $msg; latest_execution_payload_header);
    };
    (capella, $a:expr, $b:expr, $msg:expr) => {
        $crate::same_state!(bellatrix, $a, $b, $msg);
        $crate::same_fields!($a, $b, $msg; next_withdrawal_index, next_withdrawal_validator_index, historical_summaries);
    };
    (deneb, $a:expr, $b:expr, $msg:expr) => { $crate::same_state!(capella, $a, $b, $msg); };
    (electra, $a:expr, $b:expr, $msg:expr) => {
        $crate::same_state!(capella, $a, $b, $msg);
        $crate::same_fields!($a, $b, $msg; deposit_receipts_start_index, deposit_balance_to_consume,
            exit_balance_to_consume, earliest_exit_epoch, consolidation_balance_to_consume,
            earliest_consolidation_epoch, pending_balance_deposits, pending_partial_withdrawals, pending_consolidations);
    };
}
/// Participation and scores of `n` validators, in the forks that have them.
#[macro_export]
macro_rules! with_flags {
    (phase0, $s:ident, $n:expr) => {};
    ($f:ident, $s:ident, $n:expr) => {
        for _ in 0..$n {
            $s.previous_epoch_participation.push(sym::range("flags", 0, 7) as u8);
            $s.current_epoch_participation.push(sym::range("flags", 0, 7) as u8);
            $s.inactivity_scores.push(sym::range("score", 0, 1 << 20));
        }
    };
}
#[macro_export]
macro_rules! push_flags {
    (phase0, $s:ident) => {};
    ($f:ident, $s:ident) => {
        $s.previous_epoch_participation.push(0);
        $s.current_epoch_participation.push(0);
        $s.inactivity_scores.push(0);
    };
}
