//! C12: the order of a block's operations and parts, and how many deposits it carries.
#![no_main]
use ethereum_consensus::phase0::{Deposit, ProposerSlashing, SignedVoluntaryExit};
use ethereum_consensus::capella::SignedBlsToExecutionChange;
use harness::refs::*;
use harness::*;

const EPOCH: u64 = 7;
const SLOT: u64 = 4 * EPOCH + 1;

fn zeros() -> Vec<[u8; 32]> {
    let mut z = vec![[0u8; 32]];
    for i in 0..31 {
        z.push(pair(&z[i], &z[i]));
    }
    z
}
fn deposit_root_of(d: &Deposit) -> [u8; 32] {
    merkle(
        &[
            key_root(d.data.public_key.as_ref()),
            chunk(d.data.withdrawal_credentials.as_ref()),
            num(d.data.amount),
            signature_root(d.data.signature.as_ref()),
        ],
        2,
    )
}
/// Proves the deposits to be the first ones; returns the deposit root.
fn prove(ds: &mut [Deposit]) -> Root {
    let z = zeros();
    let n = ds.len() as u64;
    let mut level: Vec<[u8; 32]> = ds.iter().map(deposit_root_of).collect();
    for h in 0..32 {
        if level.len() % 2 == 1 {
            level.push(z[h]);
        }
        for (i, d) in ds.iter_mut().enumerate() {
            d.proof[h] = Root::try_from(level[(i >> h) ^ 1].as_ref()).unwrap();
        }
        level = level.chunks(2).map(|p| pair(&p[0], &p[1])).collect();
    }
    for d in ds.iter_mut() {
        d.proof[32] = Root::try_from(num(n).as_ref()).unwrap();
    }
    Root::try_from(pair(&level[0], &num(n)).as_ref()).unwrap()
}
fn deposit(k: u8, credentials: u8, amount: u64) -> Deposit {
    let mut d = Deposit::default();
    d.data.public_key = key(k);
    d.data.withdrawal_credentials = bytes32(k);
    d.data.withdrawal_credentials[0] = credentials;
    d.data.amount = amount;
    d.data.signature[0] = 7;
    d
}

// deposits expected: $want, of the unprocessed ones
macro_rules! count {
    ($f:ident, |$s:ident| $limit:expr) => {{
        use harness::small::$f as m;
        free_signatures();
        let c = context();
        let mut $s = m::BeaconState::default();
        $s.slot = SLOT;
        for i in 0..2u8 {
            $s.validators.push(active_validator(i));
            $s.balances.push(32 * GWEI);
        }
        harness::with_flags!($f, $s, 2);
        $s.eth1_data.deposit_count = sym::any_u64("deposit count");
        let mut b = m::BeaconBlockBody::default();
        let n = sym::pick("deposits", 0, 4);
        let mut ds: Vec<Deposit> = (0..n).map(|i| deposit(i as u8 % 2, 0, GWEI + i)).collect();
        if n > 0 {
            $s.eth1_data.deposit_root = prove(&mut ds);
        }
        b.deposits = ds.try_into().unwrap();
        let limit: u64 = $limit;
        let mut r = $s.clone();
        let ok = m::process_operations(&mut $s, &b, &c).is_ok();
        // the first index is 0
        let want = n == sym::ite(limit > 4, 4, limit);
        sym::check(ok == want, "a block is accepted exactly with the expected number of deposits");
        if ok {
            for d in b.deposits.iter() {
                m::process_deposit(&mut r, d, &c).unwrap();
            }
            same_state!($f, $s, r, "deposits");
            sym::cover(if n == 0 { "none" } else { "some" });
        } else {
            sym::cover("refused");
        }
    }};
}
macro_rules! scene {
    ($f:ident, $att:expr, $deposit_to:expr, $s:ident, $b:ident, $c:ident, $p:ident, $o:ident) => {
        free_signatures();
        let mut $c = context();
        $c.shuffle_round_count = 1;
        $c.min_attestation_inclusion_delay = 1;
        $c.shard_committee_period = 1;
        $c.churn_limit_quotient = 1 << 40;
        $c.min_per_epoch_churn_limit = 1;
        let mut $s = m::BeaconState::default();
        $s.slot = SLOT;
        for i in 0..16u8 {
            $s.block_roots[i as usize] = root(i);
        }
        for i in 0..8u8 {
            $s.randao_mixes[i as usize] = bytes32(i + 70);
        }
        $s.current_justified_checkpoint.epoch = 6;
        $s.previous_justified_checkpoint.epoch = 5;
        for i in 0..7u8 {
            $s.validators.push(active_validator(i));
            $s.balances.push(32 * GWEI);
        }
        for _ in 0..7 { harness::push_flags!($f, $s); }
        let mut $b = m::BeaconBlockBody::default();
        // who is in trouble
        let $p = harness::refs::proposer(&$s.validators, &$s.randao_mixes, SLOT, MAX, &$c);
        sym::merge(false);
        // next to nothing, so that the order of gains and losses shows
        $s.balances[$p] = [1, 32 * GWEI][sym::pick("balance", 0, 1) as usize];
        let $o: Vec<usize> = (0..4).filter(|i| *i != $p).collect();
        let mut op = ProposerSlashing::default();
        op.signed_header_1.message.proposer_index = $o[0];
        op.signed_header_2.message.proposer_index = $o[0];
        op.signed_header_2.message.parent_root = root(5);
        op.signed_header_1.message.slot = SLOT;
        op.signed_header_2.message.slot = SLOT;
        $b.proposer_slashings.push(op);
        let mut op = m::AttesterSlashing::default();
        // the proposer of the block too
        let mut both = [$p, $o[1]];
        both.sort();
        op.attestation_1.attesting_indices = both.to_vec().try_into().unwrap();
        op.attestation_2.attesting_indices = both.to_vec().try_into().unwrap();
        op.attestation_2.data.beacon_block_root = root(5);
        $b.attester_slashings.push(op);
        let mut slot = SLOT - 1;
        while committee(&$s.validators, &$s.randao_mixes, slot, 0, &$c).is_empty() {
            slot -= 1;
        }
        let n = committee(&$s.validators, &$s.randao_mixes, slot, 0, &$c).len();
        let mut a = m::Attestation::default();
        a.data.slot = slot;
        a.data.target.epoch = slot / 4;
        a.data.target.root = root((slot / 4 * 4 % 16) as u8);
        a.data.beacon_block_root = root((slot % 16) as u8);
        a.data.source = if slot / 4 == EPOCH { $s.current_justified_checkpoint.clone() } else { $s.previous_justified_checkpoint.clone() };
        a.aggregation_bits = vec![true; n].as_slice().try_into().unwrap();
        $att(&mut a);
        $b.attestations.push(a);
        let mut ds = vec![deposit(if $deposit_to == 9 { $p as u8 } else { $deposit_to }, 0, 3 * GWEI), newcomer()];
        $s.eth1_data.deposit_root = prove(&mut ds);
        $s.eth1_data.deposit_count = 2;
        $b.deposits = ds.try_into().unwrap();
        let mut op = SignedVoluntaryExit::default();
        op.message.validator_index = $o[2];
        $b.voluntary_exits.push(op);
    };
}
macro_rules! ordered {
    ($f:ident, $att:expr, |$s:ident, $b:ident, $c:ident, $who:ident| $more:expr, [$( ($field:ident $(. $sub:ident)?, $p:ident) ),*]) => {{
        use harness::small::$f as m;
        scene!($f, $att, 9, s, b, c, who, others);
        let ($s, $b, $c, $who) = (&mut s, &mut b, &mut c, others);
        $more;
        let ($s, $b, $c) = ($s.clone(), $b.clone(), $c.clone());
        let mut s = $s.clone();
        let mut r = $s.clone();
        let ok = m::process_operations(&mut s, &$b, &$c).is_ok();
        let mut in_order = || -> Result<(), Error> {
            $( for op in $b.$field$(.$sub)?.iter() { m::$p(&mut r, op, &$c)?; } )*
            Ok(())
        };
        let want = in_order().is_ok();
        sym::check(ok == want, "operations are applied in order");
        if ok {
            same_state!($f, s, r, "operations");
            sym::cover("applied");
        } else {
            sym::cover("refused");
        }
    }};
}
const MAX: u64 = 32 * GWEI;
fn bls_change(index: usize, from: u8) -> SignedBlsToExecutionChange {
    let mut op = SignedBlsToExecutionChange::default();
    op.message.validator_index = index;
    op.message.from_bls_public_key = key(from);
    op.message.to_execution_address[3] = 5;
    op
}
fn credentials_of(k: u8) -> Bytes32 {
    let mut h = hashed(key(k).as_ref());
    h[0] = 0;
    Bytes32::try_from(h.as_ref()).unwrap()
}
fn hashed(b: &[u8]) -> [u8; 32] {
    let h = ethereum_consensus::crypto::hash(b);
    let mut r = [0u8; 32];
    r.copy_from_slice(h.as_ref());
    r
}

fn newcomer() -> Deposit {
    let mut d = deposit(9, 0, 32 * GWEI);
    d.data.withdrawal_credentials = credentials_of(9);
    d
}
macro_rules! block {
    ($f:ident, $att:expr, |$s:ident, $b:ident, $c:ident| $more:expr, [$($step:tt),*]) => {{
        use harness::small::$f as m;
        scene!($f, $att, if sym::pick_bool("deposit to a withdrawing validator") { 6 } else { 9 }, s, b, c, who, others);
        {
            let ($s, $b, $c) = (&mut s, &mut b, &c);
            $more;
        }
        // the vote in this block is the one that makes the deposits known
        let known = s.eth1_data.clone();
        s.eth1_data = Default::default();
        for _ in 0..4 {
            s.eth1_data_votes.push(known.clone());
        }
        b.eth1_data = known;
        let mut block = m::BeaconBlock::default();
        block.slot = SLOT;
        block.proposer_index = who;
        block.parent_root = Root::try_from(header_root(&s.latest_block_header).as_ref()).unwrap();
        let _ = &others;
        block.body = b;
        let mut r = s.clone();
        let ok = m::process_block(&mut s, &block, &c).is_ok();
        let mut in_order = || -> Result<(), Error> {
            $( block!(step $step r, block, c); )*
            Ok(())
        };
        let want = in_order().is_ok();
        sym::check(ok == want, "the parts of a block are applied in order");
        if ok {
            same_state!($f, s, r, "block");
            sym::cover("applied");
        } else {
            sym::cover("refused");
        }
    }};
    (step header $r:ident, $b:ident, $c:ident) => { m::process_block_header(&mut $r, &$b, &$c)? };
    (step withdrawals $r:ident, $b:ident, $c:ident) => { m::process_withdrawals(&mut $r, &$b.body.execution_payload, &$c)? };
    (step payload $r:ident, $b:ident, $c:ident) => { m::process_execution_payload(&mut $r, &$b.body, &$c)? };
    (step randao $r:ident, $b:ident, $c:ident) => { m::process_randao(&mut $r, &$b.body, &$c)? };
    (step eth1 $r:ident, $b:ident, $c:ident) => { m::process_eth1_data(&mut $r, &$b.body, &$c) };
    (step operations $r:ident, $b:ident, $c:ident) => { m::process_operations(&mut $r, &$b.body, &$c)? };
    (step sync $r:ident, $b:ident, $c:ident) => { m::process_sync_aggregate(&mut $r, &$b.body.sync_aggregate, &$c)? };
}
macro_rules! sync {
    ($s:ident, $b:ident) => {
        $s.current_sync_committee.public_keys = (0..4u8).map(key).collect::<Vec<_>>().try_into().unwrap();
        for i in 0..4 {
            $b.sync_aggregate.sync_committee_bits.set(i, i != 1);
        }
    };
}
macro_rules! payload {
    ($s:ident, $b:ident, $c:ident) => {
        $s.latest_execution_payload_header.block_hash = ethereum_consensus::primitives::Hash32::try_from(root(8).as_ref()).unwrap();
        $s.genesis_time = 1000;
        let p = &mut $b.execution_payload;
        p.parent_hash = $s.latest_execution_payload_header.block_hash.clone();
        p.prev_randao = $s.randao_mixes[(EPOCH % 8) as usize].clone();
        p.timestamp = 1000 + SLOT * $c.seconds_per_slot;
    };
}
macro_rules! withdrawing {
    ($s:ident) => {
        $s.validators[6].withdrawal_credentials[0] = 1;
        $s.balances[6] = 35 * GWEI;
    };
}
const OLD: fn(&mut ethereum_consensus::phase0::Attestation<{ harness::small::MAX_VALIDATORS_PER_COMMITTEE }>) = |_| ();
fn new(a: &mut harness::small::electra::Attestation) {
    a.committee_bits.set(0, true);
}
fn balance_churn(c: &mut Context) {
    c.min_slashing_penalty_quotient_electra = 64;
    c.max_per_epoch_activation_exit_churn_limit = 64 * GWEI;
    c.min_per_epoch_churn_limit_electra = 128 * GWEI;
}
fn request(k: u8, amount: u64) -> ethereum_consensus::electra::ExecutionLayerWithdrawalRequest {
    let mut q = ethereum_consensus::electra::ExecutionLayerWithdrawalRequest::default();
    q.validator_public_key = key(k);
    q.amount = amount;
    q.source_address[3] = 5;
    q
}
fn execution(kind: u8) -> Bytes32 {
    let mut w = Bytes32::default();
    w[0] = kind;
    w[15] = 5;
    w
}
sym::harness! {
    fn h_count_phase0() { count!(phase0, |s| s.eth1_data.deposit_count) }
    fn h_count_capella() { count!(capella, |s| s.eth1_data.deposit_count) }
    fn h_count_electra() {
        count!(electra, |s| {
            s.deposit_receipts_start_index = sym::any_u64("first receipt");
            let (a, b) = (s.eth1_data.deposit_count, s.deposit_receipts_start_index);
            sym::ite(a < b, a, b)
        })
    }
    fn h_operations_phase0() {
        ordered!(phase0, OLD, |s, b, c, who| (), [
            (proposer_slashings, process_proposer_slashing), (attester_slashings, process_attester_slashing),
            (attestations, process_attestation), (deposits, process_deposit), (voluntary_exits, process_voluntary_exit)])
    }
    fn h_operations_capella() {
        ordered!(capella, OLD, |s, b, c, who| {
            b.bls_to_execution_changes.push(bls_change(7, 9));
        }, [
            (proposer_slashings, process_proposer_slashing), (attester_slashings, process_attester_slashing),
            (attestations, process_attestation), (deposits, process_deposit), (voluntary_exits, process_voluntary_exit),
            (bls_to_execution_changes, process_bls_to_execution_change)])
    }
    fn h_operations_electra() {
        ordered!(electra, new, |s, b, c, who| {
            balance_churn(c);
            s.deposit_receipts_start_index = u64::MAX;
            b.bls_to_execution_changes.push(bls_change(7, 9));
            b.bls_to_execution_changes.push(bls_change(5, 15));
            s.validators[5].withdrawal_credentials = credentials_of(15);
            s.validators[who[2]].withdrawal_credentials = execution(2);
            s.balances[who[2]] = 40 * GWEI;
            s.validators[4].withdrawal_credentials = execution(1);
            s.balances[4] = 40 * GWEI;
            s.validators[6].withdrawal_credentials = execution(1);
            let p = &mut b.execution_payload;
            p.withdrawal_requests.push(request(who[2] as u8, GWEI));
            p.withdrawal_requests.push(request(4, GWEI));
            p.withdrawal_requests.push(request(if sym::pick_bool("consolidated") { 6 } else { 5 }, 0));
            let mut d = ethereum_consensus::electra::DepositReceipt::default();
            d.public_key = key(4);
            d.withdrawal_credentials = execution(2);
            d.amount = GWEI;
            d.index = 77;
            p.deposit_receipts.push(d);
            let mut d = ethereum_consensus::electra::DepositReceipt::default();
            d.public_key = key(11);
            d.amount = GWEI;
            p.deposit_receipts.push(d);
            let mut k = ethereum_consensus::electra::SignedConsolidation::default();
            k.message.source_index = 6;
            k.message.target_index = 4;
            b.consolidations.push(k);
        }, [
            (proposer_slashings, process_proposer_slashing), (attester_slashings, process_attester_slashing),
            (attestations, process_attestation), (deposits, process_deposit), (voluntary_exits, process_voluntary_exit),
            (bls_to_execution_changes, process_bls_to_execution_change),
            (execution_payload.withdrawal_requests, process_execution_layer_withdrawal_request),
            (execution_payload.deposit_receipts, process_deposit_receipt), (consolidations, process_consolidation)])
    }
    fn h_block_phase0() {
        block!(phase0, OLD, |s, b, c| (), [header, randao, eth1, operations])
    }
    fn h_block_altair() {
        block!(altair, OLD, |s, b, c| { sync!(s, b); }, [header, randao, eth1, operations, sync])
    }
    fn h_block_bellatrix() {
        block!(bellatrix, OLD, |s, b, c| { sync!(s, b); payload!(s, b, c); }, [header, payload, randao, eth1, operations, sync])
    }
    fn h_block_capella() {
        block!(capella, OLD, |s, b, c| {
            sync!(s, b);
            payload!(s, b, c);
            withdrawing!(s);
            b.execution_payload.withdrawals = m::get_expected_withdrawals(s, c).try_into().unwrap();
        }, [header, withdrawals, payload, randao, eth1, operations, sync])
    }
    fn h_block_deneb() {
        block!(deneb, OLD, |s, b, c| {
            sync!(s, b);
            payload!(s, b, c);
            withdrawing!(s);
            b.execution_payload.withdrawals = m::get_expected_withdrawals(s, c).try_into().unwrap();
        }, [header, withdrawals, payload, randao, eth1, operations, sync])
    }
    fn h_block_electra() {
        block!(electra, new, |s, b, c| {
            sync!(s, b);
            payload!(s, b, c);
            s.deposit_receipts_start_index = 5;
            withdrawing!(s);
            b.execution_payload.withdrawals = m::get_expected_withdrawals(s, c).0.try_into().unwrap();
        }, [header, withdrawals, payload, randao, eth1, operations, sync])
    }
}
