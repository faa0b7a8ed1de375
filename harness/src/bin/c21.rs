//! C21: requests from the execution layer, consolidations and queued deposits.
#![no_main]
use ethereum_consensus::electra::{
    epoch_processing as ep, helpers as h, DepositReceipt, ExecutionLayerWithdrawalRequest, PendingBalanceDeposit,
    PendingConsolidation, PendingPartialWithdrawal, SignedConsolidation,
};
use harness::refs::*;
use harness::small::electra as m;
use harness::*;

const EPOCH: u64 = 300;
fn ctx() -> Context {
    let mut c = context();
    c.churn_limit_quotient = 1 << 40;
    c.min_per_epoch_churn_limit_electra = 100 * GWEI;
    c.max_per_epoch_activation_exit_churn_limit = 64 * GWEI;
    c.shard_committee_period = 40;
    c.min_validator_withdrawability_delay = 9;
    c.genesis_fork_version = [7, 6, 5, 4];
    c
}
fn deposit(index: usize, amount: u64) -> PendingBalanceDeposit {
    let mut p = PendingBalanceDeposit::default();
    p.index = index;
    p.amount = amount;
    p
}
fn partial(index: usize, amount: u64, epoch: u64) -> PendingPartialWithdrawal {
    let mut p = PendingPartialWithdrawal::default();
    p.index = index;
    p.amount = amount;
    p.withdrawable_epoch = epoch;
    p
}
fn creds(kind: u8, addr: u8) -> Bytes32 {
    let mut w = bytes32(addr);
    w[0] = kind;
    w
}
fn start(n: u8) -> m::BeaconState {
    let mut s = m::BeaconState::default();
    s.slot = 4 * EPOCH + 3;
    s.fork.epoch = 7;
    s.fork.previous_version = [1, 0, 0, 9];
    s.fork.current_version = [2, 0, 0, 9];
    s.genesis_validators_root = root(3);
    s.earliest_exit_epoch = EPOCH + 20;
    s.exit_balance_to_consume = 5 * GWEI;
    s.earliest_consolidation_epoch = EPOCH + 30;
    s.consolidation_balance_to_consume = 3 * GWEI;
    s.deposit_receipts_start_index = 5;
    for i in 0..n {
        let mut v = active_validator(i);
        v.withdrawal_credentials = creds(2, i + 1);
        s.validators.push(v);
        s.balances.push((40 + i as u64) * GWEI);
        s.previous_epoch_participation.push(0);
        s.current_epoch_participation.push(0);
        s.inactivity_scores.push(0);
    }
    s
}

fn request() {
    let c = ctx();
    let mut s = start(3);
    let mut q = ExecutionLayerWithdrawalRequest::default();
    let i = sym::pick("validator", 0, 2) as usize;
    q.validator_public_key = key(if i == 2 { 9 } else { i as u8 });
    let v = &mut s.validators[i];
    v.withdrawal_credentials[0] = sym::any_u8("credentials");
    q.source_address.copy_from_slice(&v.withdrawal_credentials[12..]);
    let at = sym::pick("odd address byte", 0, 20) as usize;
    if at < 20 {
        q.source_address[at] = sym::any_u8("address");
    }
    v.activation_epoch = epoch_or_far("activation", 1 << 20);
    v.exit_epoch = epoch_or_far("exit", 1 << 20);
    v.effective_balance = sym::range("effective balance", 0, 2048 * GWEI);
    let full = sym::pick_bool("full");
    q.amount = if full { 0 } else { sym::range("amount", 1, 1 << 62) };
    s.balances[i] = sym::range("balance", 0, 1 << 50);
    match sym::pick("queue", 0, 3) {
        1 => s.pending_partial_withdrawals.push(partial(i, sym::range("pending", 0, 1 << 50), 2)),
        2 => {
            for _ in 0..3 {
                s.pending_partial_withdrawals.push(partial(1 - i.min(1), 7 * GWEI, 2));
            }
        }
        3 => {
            s.pending_partial_withdrawals.push(partial(i, 3, 2));
            s.pending_partial_withdrawals.push(partial(i, sym::range("pending", 0, 1 << 50), 2));
            for _ in 0..2 {
                s.pending_partial_withdrawals.push(partial(1 - i.min(1), 0, 2));
            }
        }
        _ => {}
    }
    let mut r = s.clone();
    let ok = m::process_execution_layer_withdrawal_request(&mut s, &q, &c).is_ok();
    sym::check(ok, "a request never makes a block invalid");
    let v = &r.validators[i];
    let kind = v.withdrawal_credentials[0];
    let room = full || r.pending_partial_withdrawals.len() < 4;
    let may = room
        & (i < 2)
        & ((kind == 1) | (kind == 2))
        & sym::eq_bytes(&v.withdrawal_credentials[12..], q.source_address.as_ref())
        & active(v, EPOCH)
        & (v.exit_epoch == FAR);
    // no activation is near 2^64 here
    let may = may && EPOCH >= v.activation_epoch + c.shard_committee_period;
    let mut pending = 0;
    for p in r.pending_partial_withdrawals.iter() {
        pending += if p.index == i { p.amount } else { 0 };
    }
    if may && full && pending == 0 {
        m::initiate_validator_exit(&mut r, i, &c).unwrap();
        sym::check(r.validators[i].exit_epoch != FAR, "a requested exit happens");
        sym::cover("exit");
    } else if may && !full {
        let least = c.min_activation_balance;
        if (kind == 2) & (v.effective_balance >= least) & (r.balances[i] > least + pending) {
            let excess = r.balances[i] - least - pending;
            let w = sym::ite(excess < q.amount, excess, q.amount);
            let (e, l) = take(r.slot, r.earliest_exit_epoch, r.exit_balance_to_consume, w, 64 * GWEI, &c);
            r.earliest_exit_epoch = e;
            r.exit_balance_to_consume = l;
            r.pending_partial_withdrawals.push(partial(i, w, e + 9));
            sym::cover("partial withdrawal");
        }
    } else {
        sym::cover("ignored");
    }
    same_state!(electra, s, r, "request");
}

fn receipt() {
    free_signatures();
    sym::merge(false);
    let c = ctx();
    let mut s = start(2);
    s.deposit_receipts_start_index = if sym::pick_bool("unset") { FAR } else { sym::any_u64("start index") };
    let mut d = DepositReceipt::default();
    d.public_key = key(sym::pick("key", 1, 2) as u8);
    d.withdrawal_credentials = creds(sym::pick("credentials", 0, 2) as u8, 1);
    d.amount = sym::range("amount", 0, 1 << 40);
    d.index = sym::any_u64("index");
    d.signature = any_signature("signature");
    let mut r = s.clone();
    let ok = m::process_deposit_receipt(&mut s, &d, &c).is_ok();
    sym::check(ok, "a receipt never makes a block invalid");
    if r.deposit_receipts_start_index == FAR {
        r.deposit_receipts_start_index = d.index;
        sym::cover("first receipt");
    }
    m::apply_deposit(&mut r, &d.public_key, &d.withdrawal_credentials, d.amount, &d.signature, &c).unwrap();
    sym::cover(if r.pending_balance_deposits.is_empty() { "nothing" } else { "queued" });
    same_state!(electra, s, r, "receipt");
}

fn consolidation() {
    free_signatures();
    let mut c = ctx();
    let mut s = start(3);
    let mut o = SignedConsolidation::default();
    let fault = sym::pick("fault", 0, 10);
    let (x, y) = [(0usize, 2usize), (2, 1)][sym::pick("who", 0, 1) as usize];
    o.message.source_index = x;
    o.message.target_index = y;
    o.message.epoch = if fault == 1 { sym::any_u64("epoch") } else { EPOCH };
    o.signature = any_signature("signature");
    for i in 0..3 {
        s.validators[i].withdrawal_credentials = creds(1 + (i as u8 & 1), 5);
    }
    s.validators[x].effective_balance = sym::range("effective", 1, 2048) * GWEI;
    match fault {
        2 => o.message.source_index = [y, 3, usize::MAX][sym::pick("source", 0, 2) as usize],
        3 => o.message.target_index = [x, 3, usize::MAX][sym::pick("target", 0, 2) as usize],
        4 | 5 => {
            let v = &mut s.validators[if fault == 4 { x } else { y }];
            v.activation_epoch = epoch_or_far("activation", 1 << 20);
            v.exit_epoch = epoch_or_far("exit", 1 << 20);
        }
        6 | 7 => s.validators[if fault == 6 { x } else { y }].withdrawal_credentials[0] = sym::any_u8("credentials"),
        8 => {
            let at = sym::pick("odd byte", 1, 31) as usize;
            s.validators[x].withdrawal_credentials[at] = sym::any_u8("credentials");
        }
        9 => {
            for _ in 0..sym::pick("queue", 3, 4) {
                s.pending_consolidations.push(PendingConsolidation::default());
            }
        }
        10 => c.max_per_epoch_activation_exit_churn_limit = [67, 68, 69][sym::pick("churn", 0, 2) as usize] * GWEI,
        _ => {
            s.earliest_consolidation_epoch = [0, EPOCH + 5, EPOCH + 6][sym::pick("earliest", 0, 2) as usize];
            s.consolidation_balance_to_consume = sym::range("left", 0, 40 * GWEI);
        }
    }
    let mut r = s.clone();
    let ok = m::process_consolidation(&mut s, &o, &c).is_ok();
    let limit = 100 * GWEI - c.max_per_epoch_activation_exit_churn_limit;
    let (x, y) = (o.message.source_index, o.message.target_index);
    let mut want = r.pending_consolidations.len() < 4 && limit > c.min_activation_balance && x != y && x < 3 && y < 3;
    if want {
        let (a, b) = (&r.validators[x], &r.validators[y]);
        let kind = |v: &Validator| (v.withdrawal_credentials[0] == 1) | (v.withdrawal_credentials[0] == 2);
        want = active(a, EPOCH) & active(b, EPOCH) & (a.exit_epoch == FAR) & (b.exit_epoch == FAR)
            & (o.message.epoch <= EPOCH) & kind(a) & kind(b)
            & sym::eq_bytes(&a.withdrawal_credentials[12..], &b.withdrawal_credentials[12..]);
        if want {
            let object = merkle(&[num(x as u64), num(y as u64), num(o.message.epoch)], 2);
            want = signed(&[&a.public_key, &b.public_key], &object, &domain_of(0x0B, &[7, 6, 5, 4], r.genesis_validators_root.as_ref()), &o.signature);
        }
    }
    sym::check(ok == want, "a consolidation is accepted exactly when it is valid");
    if ok {
        let (e, l) = take(r.slot, r.earliest_consolidation_epoch, r.consolidation_balance_to_consume, r.validators[x].effective_balance, limit, &c);
        r.earliest_consolidation_epoch = e;
        r.consolidation_balance_to_consume = l;
        r.validators[x].exit_epoch = e;
        r.validators[x].withdrawable_epoch = e + 9;
        let mut p = PendingConsolidation::default();
        p.source_index = x;
        p.target_index = y;
        r.pending_consolidations.push(p);
        sym::cover("accepted");
    } else {
        sym::cover("refused");
    }
    same_state!(electra, s, r, "consolidation");
}

fn deposits() {
    sym::merge(false);
    let c = ctx();
    let mut s = start(3);
    s.deposit_balance_to_consume = sym::range("left", 0, 1 << 50);
    let n = sym::pick("queue", 0, 3) as usize;
    for k in 0..n {
        let i = if k == 1 { 2 } else { sym::pick("of", 0, 1) as usize };
        s.pending_balance_deposits.push(deposit(i, sym::range("amount", 0, 1 << 50)));
    }
    s.balances[2] = sym::range("balance", 0, 1 << 50);
    let mut r = s.clone();
    ep::process_pending_balance_deposits(&mut s, &c).unwrap();
    let q = r.pending_balance_deposits.to_vec();
    let have = r.deposit_balance_to_consume + 64 * GWEI;
    let mut spent = 0;
    let mut done = 0;
    for d in &q {
        if spent + d.amount > have {
            break;
        }
        spent += d.amount;
        r.balances[d.index] += d.amount;
        done += 1;
    }
    r.pending_balance_deposits = q[done..].to_vec().try_into().unwrap();
    r.deposit_balance_to_consume = if done == n { 0 } else { have - spent };
    sym::cover(if done == n { "all" } else { "some" });
    same_state!(electra, s, r, "queued deposits");
}

/// What becoming compounding does.
fn compound(r: &mut m::BeaconState, i: usize, c: &Context) {
    if r.validators[i].withdrawal_credentials[0] == 1 {
        r.validators[i].withdrawal_credentials[0] = 2;
        let b = r.balances[i];
        if b > c.min_activation_balance {
            r.balances[i] = c.min_activation_balance;
            r.pending_balance_deposits.push(deposit(i, b - c.min_activation_balance));
        }
    }
}
fn consolidations() {
    let c = ctx();
    let mut s = start(3);
    let n = sym::pick("queue", 0, 2) as usize;
    for k in 0..n {
        let mut p = PendingConsolidation::default();
        let (x, y) = if k == 0 { (0, 2) } else { [(0, 2), (2, 1), (1, 0)][sym::pick("who", 0, 2) as usize] };
        p.source_index = x;
        p.target_index = y;
        s.pending_consolidations.push(p);
        let v = &mut s.validators[x];
        v.withdrawable_epoch = epoch_or_far("withdrawable", 1 << 20);
        if k == 0 {
            v.slashed = sym::any_bool("slashed");
            s.balances[x] = sym::range("source balance", 0, 1 << 50);
        }
        if k == 0 {
            s.validators[y].withdrawal_credentials[0] = sym::pick("target credentials", 0, 2) as u8;
            s.balances[y] = sym::range("target balance", 0, 1 << 50);
        }
    }
    if n > 0 && sym::pick_bool("small source") {
        let x = s.pending_consolidations[0].source_index;
        s.validators[x].withdrawal_credentials[0] = 1;
    }
    let mut r = s.clone();
    ep::process_pending_consolidations(&mut s, &c).unwrap();
    let q = r.pending_consolidations.to_vec();
    let mut done = 0;
    for p in &q {
        let v = &r.validators[p.source_index];
        if !v.slashed {
            if v.withdrawable_epoch > EPOCH {
                break;
            }
            compound(&mut r, p.target_index, &c);
            let v = &r.validators[p.source_index];
            let max = if v.withdrawal_credentials[0] == 2 { c.max_effective_balance_electra } else { c.min_activation_balance };
            let b = r.balances[p.source_index];
            let moved = sym::ite(b < max, b, max);
            r.balances[p.source_index] = b - moved;
            r.balances[p.target_index] += moved;
            sym::cover("moved");
        }
        done += 1;
    }
    r.pending_consolidations = q[done..].to_vec().try_into().unwrap();
    sym::cover("end");
    same_state!(electra, s, r, "pending consolidations");
}

fn helpers() {
    let c = ctx();
    let mut s = start(2);
    let v = &mut s.validators[1];
    v.withdrawal_credentials = any_bytes32("credentials");
    v.effective_balance = sym::any_u64("effective balance");
    v.activation_eligibility_epoch = sym::any_u64("eligibility");
    s.balances[1] = sym::any_u64("balance");
    if sym::pick_bool("queue") {
        s.pending_balance_deposits.push(deposit(0, 5));
    }
    let mut r = s.clone();
    match sym::pick("helper", 0, 2) {
        0 => {
            h::switch_to_compounding_validator(&mut s, 1, &c).unwrap();
            compound(&mut r, 1, &c);
        }
        1 => {
            h::queue_entire_balance_and_reset_validator(&mut s, 1);
            r.pending_balance_deposits.push(deposit(1, r.balances[1]));
            r.balances[1] = 0;
            r.validators[1].effective_balance = 0;
            r.validators[1].activation_eligibility_epoch = FAR;
        }
        _ => {
            let k = r.validators[1].withdrawal_credentials[0];
            let max = sym::ite(k == 2, c.max_effective_balance_electra, c.min_activation_balance);
            let b = r.balances[1];
            sym::check(h::get_active_balance(&s, 1, &c) == sym::ite(b < max, b, max), "the active balance");
            sym::check(h::has_compounding_withdrawal_credential(&s.validators[1]) == (k == 2), "compounding credentials");
            sym::check(h::has_execution_withdrawal_credential(&s.validators[1]) == ((k == 1) | (k == 2)), "execution credentials");
            sym::check(h::get_validator_max_effective_balance(&s.validators[1], &c) == max, "the maximum effective balance");
        }
    }
    sym::cover("end");
    same_state!(electra, s, r, "helper");
}
/// Churn limits for any totals.
fn limits() {
    let mut c = ctx();
    let unit = 4;
    c.effective_balance_increment = unit;
    c.churn_limit_quotient = 3;
    c.min_per_epoch_churn_limit_electra = 22;
    c.max_per_epoch_activation_exit_churn_limit = [20, 24, 31][sym::pick("max", 0, 2) as usize];
    let mut s = start(2);
    for i in 0..2 {
        s.validators[i].effective_balance = sym::range("effective balance", 0, 1 << 10);
    }
    s.validators[1].exit_epoch = epoch_or_far("exit", 1 << 10);
    let t = total_active(&s.validators, EPOCH, &c);
    let all = balance_churn_electra(t, &c);
    let some = exit_churn_electra(t, &c);
    sym::check(h::get_balance_churn_limit(&s, &c).unwrap() == all, "the balance churn limit");
    sym::check(h::get_activation_exit_churn_limit(&s, &c).unwrap() == some, "the activation and exit churn limit");
    sym::check(h::get_consolidation_churn_limit(&s, &c).unwrap() == all - some, "the consolidation churn limit");
    sym::cover("end");
}

sym::harness! {
    fn h_request() { request() }
    fn h_receipt() { receipt() }
    fn h_consolidation() { consolidation() }
    fn h_pending_deposits() { deposits() }
    fn h_pending_consolidations() { consolidations() }
    fn h_helpers() { helpers() }
    fn h_limits() { limits() }
}
