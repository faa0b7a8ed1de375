//! C22: fork upgrades.
#![no_main]
use harness::refs::*;
use harness::small;
use harness::*;

fn any_version(name: &str) -> [u8; 4] {
    sym::any_bytes::<4>(name)
}
fn any_checkpoint(name: &str) -> Checkpoint {
    let mut c = Checkpoint::default();
    c.epoch = sym::any_u64(name);
    c.root = any_root(name);
    c
}
macro_rules! fill {
    (base $s:ident, $n:expr) => {
        $s.genesis_time = sym::any_u64("genesis time");
        $s.genesis_validators_root = any_root("genesis validators root");
        $s.slot = sym::range("slot", 0, 1 << 40);
        $s.fork.previous_version = any_version("previous version");
        $s.fork.current_version = any_version("current version");
        $s.fork.epoch = sym::any_u64("fork epoch");
        $s.latest_block_header.slot = sym::any_u64("header slot");
        $s.latest_block_header.proposer_index = sym::any_usize("header proposer");
        $s.latest_block_header.parent_root = any_root("header parent");
        $s.latest_block_header.state_root = any_root("header state");
        $s.latest_block_header.body_root = any_root("header body");
        for i in 0..16u8 {
            $s.block_roots[i as usize] = root(i);
            $s.state_roots[i as usize] = root(i + 20);
        }
        for i in 0..8u8 {
            $s.randao_mixes[i as usize] = bytes32(i + 70);
        }
        $s.block_roots[3] = any_root("block root");
        $s.state_roots[9] = any_root("state root");
        $s.historical_roots.push(any_root("historical root"));
        $s.eth1_data.deposit_root = any_root("deposit root");
        $s.eth1_data.deposit_count = sym::any_u64("deposit count");
        let d = $s.eth1_data.clone();
        $s.eth1_data_votes.push(d);
        $s.eth1_data_votes[0].deposit_count = sym::any_u64("vote");
        $s.eth1_deposit_index = sym::any_u64("deposit index");
        for i in 0..$n as u8 {
            let mut v = active_validator(i);
            odd(&mut v);
            v.effective_balance = (17 + i as u64) * GWEI;
            $s.validators.push(v);
            $s.balances.push(sym::range("balance", 0, 1 << 50));
        }
        $s.slashings[1] = sym::any_u64("slashings");
        $s.justification_bits.set(sym::pick("bit", 0, 3) as usize, true);
        $s.previous_justified_checkpoint = any_checkpoint("previous justified");
        $s.current_justified_checkpoint = any_checkpoint("current justified");
        $s.finalized_checkpoint = any_checkpoint("finalized");
    };
    (altair $s:ident, $n:expr) => {
        fill!(base $s, $n);
        for i in 0..$n {
            $s.previous_epoch_participation.push(sym::any_u8("previous flags"));
            $s.current_epoch_participation.push(sym::any_u8("current flags"));
            $s.inactivity_scores.push(sym::any_u64("score"));
        }
        $s.current_sync_committee.public_keys[1] = key(31);
        $s.current_sync_committee.aggregate_public_key = key(32);
        $s.next_sync_committee.public_keys[2] = key(33);
        $s.next_sync_committee.aggregate_public_key = key(34);
    };
    (bellatrix $s:ident, $n:expr) => {
        fill!(altair $s, $n);
        let h = &mut $s.latest_execution_payload_header;
        h.parent_hash = hash32("parent");
        h.fee_recipient[3] = sym::any_u8("fee recipient");
        h.state_root = any_bytes32("state");
        h.receipts_root = any_bytes32("receipts");
        h.logs_bloom[7] = sym::any_u8("bloom");
        h.prev_randao = any_bytes32("randao");
        h.block_number = sym::any_u64("number");
        h.gas_limit = sym::any_u64("limit");
        h.gas_used = sym::any_u64("used");
        h.timestamp = sym::any_u64("timestamp");
        h.extra_data = vec![1, sym::any_u8("extra")].as_slice().try_into().unwrap();
        h.base_fee_per_gas = ethereum_consensus::ssz::prelude::U256::from(sym::any_u64("fee"));
        h.block_hash = hash32("hash");
        h.transactions_root = any_root("transactions");
    };
    (capella $s:ident, $n:expr) => {
        fill!(bellatrix $s, $n);
        $s.latest_execution_payload_header.withdrawals_root = any_root("withdrawals");
        $s.next_withdrawal_index = sym::any_usize("next withdrawal");
        $s.next_withdrawal_validator_index = sym::any_usize("next validator");
        let mut h = ethereum_consensus::capella::HistoricalSummary::default();
        h.block_summary_root = any_root("blocks");
        h.state_summary_root = any_root("states");
        $s.historical_summaries.push(h);
    };
    (deneb $s:ident, $n:expr) => {
        fill!(capella $s, $n);
        $s.latest_execution_payload_header.blob_gas_used = sym::any_u64("blob gas");
        $s.latest_execution_payload_header.excess_blob_gas = sym::any_u64("excess");
    };
}
fn hash32(name: &str) -> Hash32 {
    Hash32::try_from(any_root(name).as_ref()).unwrap()
}
macro_rules! same {
    (base $a:ident, $s:ident, $c:ident, $version:ident) => {
        same_validators(&$a.validators, &$s.validators, "upgrade: validators");
        sym::check(eq_u64s(&$a.balances, &$s.balances), "upgrade: balances");
        sym::check(eq_u64s(&$a.slashings, &$s.slashings), "upgrade: slashings");
        same!(rest $a, $s, $c, $version);
    };
    (rest $a:ident, $s:ident, $c:ident, $version:ident) => {
        harness::same_fields!($a, $s, "upgrade"; genesis_time, genesis_validators_root, slot, latest_block_header,
            block_roots, state_roots, historical_roots, eth1_data, eth1_data_votes, eth1_deposit_index,
            randao_mixes, justification_bits, previous_justified_checkpoint, current_justified_checkpoint,
            finalized_checkpoint);
        sym::check($a.fork.previous_version == $s.fork.current_version, "upgrade: the previous version is the one left");
        sym::check($a.fork.current_version == $c.$version, "upgrade: the current version is the new fork's");
        sym::check($a.fork.epoch == $s.slot / 4, "upgrade: the fork epoch is the current one");
    };
    (altair $a:ident, $s:ident) => {
        sym::check(eq_u8s(&$a.previous_epoch_participation, &$s.previous_epoch_participation), "upgrade: previous participation");
        sym::check(eq_u8s(&$a.current_epoch_participation, &$s.current_epoch_participation), "upgrade: current participation");
        sym::check(eq_u64s(&$a.inactivity_scores, &$s.inactivity_scores), "upgrade: inactivity scores");
        harness::same_fields!($a, $s, "upgrade"; current_sync_committee, next_sync_committee);
    };
    (bellatrix $a:ident, $s:ident) => {{
        let (x, y) = (&$a.latest_execution_payload_header, &$s.latest_execution_payload_header);
        harness::same_fields!(x, y, "upgrade: header"; parent_hash, fee_recipient, state_root, receipts_root, logs_bloom,
            prev_randao, block_number, gas_limit, gas_used, timestamp, extra_data, base_fee_per_gas, block_hash, transactions_root);
    }};
    (capella $a:ident, $s:ident) => {
        sym::check($a.latest_execution_payload_header.withdrawals_root == $s.latest_execution_payload_header.withdrawals_root, "upgrade: withdrawals root");
        harness::same_fields!($a, $s, "upgrade"; next_withdrawal_index, next_withdrawal_validator_index, historical_summaries);
    };
    (deneb $a:ident, $s:ident) => {
        let (x, y) = (&$a.latest_execution_payload_header, &$s.latest_execution_payload_header);
        harness::same_fields!(x, y, "upgrade: header"; blob_gas_used, excess_blob_gas);
    };
}
fn versions() -> Context {
    let mut c = context();
    c.genesis_fork_version = any_version("genesis");
    c.altair_fork_version = any_version("altair");
    c.bellatrix_fork_version = any_version("bellatrix");
    c.capella_fork_version = any_version("capella");
    c.deneb_fork_version = any_version("deneb");
    c.electra_fork_version = any_version("electra");
    c
}
fn bellatrix() {
    let c = versions();
    let mut s = small::altair::BeaconState::default();
    fill!(altair s, 2);
    let a: small::bellatrix::BeaconState = ethereum_consensus::bellatrix::fork::upgrade_to_bellatrix(&s, &c);
    same!(base a, s, c, bellatrix_fork_version);
    same!(altair a, s);
    sym::check(a.latest_execution_payload_header == Default::default(), "upgrade: no payload yet");
    sym::cover("end");
}
fn capella() {
    let c = versions();
    let mut s = small::bellatrix::BeaconState::default();
    fill!(bellatrix s, 2);
    let a: small::capella::BeaconState = ethereum_consensus::capella::fork::upgrade_to_capella(&s, &c);
    same!(base a, s, c, capella_fork_version);
    same!(altair a, s);
    same!(bellatrix a, s);
    let none = small::capella::BeaconState::default();
    same!(capella a, none);
    sym::cover("end");
}
fn deneb() {
    let c = versions();
    let mut s = small::capella::BeaconState::default();
    fill!(capella s, 2);
    let a: small::deneb::BeaconState = ethereum_consensus::deneb::fork::upgrade_to_deneb(&s, &c);
    same!(base a, s, c, deneb_fork_version);
    same!(altair a, s);
    same!(bellatrix a, s);
    same!(capella a, s);
    let none = small::deneb::BeaconState::default();
    same!(deneb a, none);
    sym::cover("end");
}
fn electra() {
    sym::merge(false);
    let mut c = versions();
    c.churn_limit_quotient = 2;
    c.min_per_epoch_churn_limit_electra = 20 * GWEI;
    c.max_per_epoch_activation_exit_churn_limit = 25 * GWEI;
    let mut s = small::deneb::BeaconState::default();
    let n = 3;
    fill!(deneb s, n);
    s.slot = 4 * 900 + 3;
    for i in 0..n {
        let v = &mut s.validators[i];
        v.withdrawal_credentials = bytes32(i as u8);
        v.withdrawal_credentials[0] = if i == 0 { sym::any_u8("credentials") } else { 2 };
        v.activation_eligibility_epoch = epoch_or_far("eligibility", 1 << 30);
        if i > 0 {
            s.balances[i] = [31, 0, 40][i] * GWEI;
        }
        match sym::pick("standing", 0, if i == 2 { 1 } else { 2 }) {
            0 => v.activation_epoch = FAR,
            1 => v.exit_epoch = if sym::pick_bool("gone") { sym::range("exit", 0, 900) } else { sym::range("exit", 901, 1 << 30) },
            _ => {}
        }
    }
    let mut a: small::electra::BeaconState = ethereum_consensus::electra::fork::upgrade_to_electra(&s, &c).unwrap();
    same!(rest a, s, c, electra_fork_version);
    sym::check(eq_u64s(&a.slashings, &s.slashings), "upgrade: slashings");
    same!(altair a, s);
    same!(bellatrix a, s);
    same!(capella a, s);
    same!(deneb a, s);
    let mut r = a.clone();
    r.latest_execution_payload_header.deposit_receipts_root = Root::default();
    r.latest_execution_payload_header.withdrawal_requests_root = Root::default();
    r.validators = s.validators.clone();
    r.balances = s.balances.clone();
    let mut exit = 0;
    let mut any = false;
    for v in s.validators.iter() {
        let out = v.exit_epoch != FAR;
        exit = sym::ite(out & (v.exit_epoch > exit), v.exit_epoch, exit);
        any |= out;
    }
    r.earliest_exit_epoch = if any { exit + 1 } else { 901 };
    let t = total_active(&s.validators, 900, &c);
    r.exit_balance_to_consume = exit_churn_electra(t, &c);
    r.consolidation_balance_to_consume = balance_churn_electra(t, &c) - r.exit_balance_to_consume;
    r.earliest_consolidation_epoch = 900 + 1 + c.max_seed_lookahead;
    r.deposit_receipts_start_index = FAR;
    r.deposit_balance_to_consume = 0;
    r.pending_partial_withdrawals = Default::default();
    r.pending_consolidations = Default::default();
    let mut queue: Vec<usize> = (0..n).filter(|i| s.validators[*i].activation_epoch == FAR).collect();
    queue.sort_by_key(|i| (s.validators[*i].activation_eligibility_epoch, *i));
    let mut q = vec![];
    let mut d = |i, amount| {
        let mut p = ethereum_consensus::electra::PendingBalanceDeposit::default();
        p.index = i;
        p.amount = amount;
        q.push(p);
    };
    for i in queue {
        d(i, r.balances[i]);
        r.balances[i] = 0;
        r.validators[i].effective_balance = 0;
        r.validators[i].activation_eligibility_epoch = FAR;
        sym::cover("pending");
    }
    for i in 0..n {
        if r.validators[i].withdrawal_credentials[0] == 2 && r.balances[i] > c.min_activation_balance {
            d(i, r.balances[i] - c.min_activation_balance);
            r.balances[i] = c.min_activation_balance;
            sym::cover("excess");
        }
    }
    r.pending_balance_deposits = q.try_into().unwrap();
    sym::cover(if any { "exits" } else { "no exits" });
    same_state!(electra, a, r, "upgrade");
    a.slot = 0;
}
fn altair() {
    free_signatures();
    let mut c = versions();
    c.shuffle_round_count = 1;
    let mut s = small::phase0::BeaconState::default();
    let n = 8;
    fill!(base s, n);
    // the first slot after epoch 6
    s.slot = 28;
    s.block_roots[3] = root(3);
    let mut seen = vec![0u8; n];
    for k in 0..sym::pick("attestations", 0, 2) {
        let mut p = ethereum_consensus::phase0::PendingAttestation::default();
        let d = &mut p.data;
        // the second one is of another committee, or once more of the first one
        let again = k == 1 && sym::pick_bool("again");
        let free = k == 0 || again;
        d.slot = [26, 26 - !again as u64][k as usize];
        d.target.epoch = 6;
        d.source = s.previous_justified_checkpoint.clone();
        let target = !free || sym::pick_bool("right target");
        d.target.root = root(if target { 24 % 16 } else { 50 });
        let head = !free || sym::pick_bool("right head");
        d.beacon_block_root = root(if head { (d.slot % 16) as u8 } else { 51 });
        p.inclusion_delay = sym::range("delay", 1, 9);
        let com = committee(&s.validators, &s.randao_mixes, d.slot, 0, &c);
        let b: Vec<bool> = com.iter().map(|_| again || sym::pick_bool("bit")).collect();
        p.aggregation_bits = b.as_slice().try_into().unwrap();
        let on = |f: bool, bit: u8| sym::ite(f, bit as u64, 0) as u8;
        let flags = on(p.inclusion_delay <= 2, 1) | on(target & (p.inclusion_delay <= 4), 2) | on(target & head & (p.inclusion_delay == 1), 4);
        for (i, b) in com.iter().zip(b) {
            if b {
                seen[*i] |= flags;
                sym::cover("participation");
            }
        }
        s.previous_epoch_attestations.push(p);
    }
    // votes of the next epoch do not count
    s.current_epoch_attestations.push(Default::default());
    let a: small::altair::BeaconState = ethereum_consensus::altair::fork::upgrade_to_altair(&s, &c).unwrap();
    same!(base a, s, c, altair_fork_version);
    sym::check(eq_u8s(&a.previous_epoch_participation, &seen), "upgrade: previous participation");
    sym::check(eq_u8s(&a.current_epoch_participation, &vec![0; n]), "upgrade: current participation");
    sym::check(eq_u64s(&a.inactivity_scores, &vec![0; n]), "upgrade: inactivity scores");
    let want = sync_committee(&s.validators, &s.randao_mixes, 8, c.max_effective_balance, &c);
    let keys: Vec<BlsPublicKey> = want.iter().map(|i| key(*i as u8)).collect();
    sym::check(a.current_sync_committee.public_keys.iter().eq(keys.iter()), "upgrade: sync committee");
    sym::check(a.current_sync_committee.aggregate_public_key == ethereum_consensus::crypto::eth_aggregate_public_keys(&keys).unwrap(), "upgrade: aggregate key");
    sym::check(a.next_sync_committee == a.current_sync_committee, "upgrade: both sync committees are the same");
    sym::cover("end");
}
sym::harness! {
    fn h_altair() { altair() }
    fn h_bellatrix() { bellatrix() }
    fn h_capella() { capella() }
    fn h_deneb() { deneb() }
    fn h_electra() { electra() }
}
