//! C19: withdrawals.
#![no_main]
use ethereum_consensus::capella::Withdrawal;
use harness::refs::*;
use harness::*;

const EPOCH: u64 = 7;
type Sweep = fn(&Validator, u64, &Context) -> Option<u64>;

/// What the sweep takes from a validator.
fn old(v: &Validator, balance: u64, c: &Context) -> Option<u64> {
    let may = v.withdrawal_credentials[0] == 1;
    if may & (v.withdrawable_epoch <= EPOCH) & (balance > 0) {
        Some(balance)
    } else if may & (v.effective_balance == c.max_effective_balance) & (balance > c.max_effective_balance) {
        Some(balance - c.max_effective_balance)
    } else {
        None
    }
}
fn new(v: &Validator, balance: u64, c: &Context) -> Option<u64> {
    let k = v.withdrawal_credentials[0];
    let may = (k == 1) | (k == 2);
    let max = sym::ite(k == 2, c.max_effective_balance_electra, c.min_activation_balance);
    if may & (v.withdrawable_epoch <= EPOCH) & (balance > 0) {
        Some(balance)
    } else if may & (v.effective_balance == max) & (balance > max) {
        Some(balance - max)
    } else {
        None
    }
}
fn withdrawal(index: usize, i: usize, v: &Validator, amount: u64) -> Withdrawal {
    let mut w = Withdrawal::default();
    w.index = index;
    w.validator_index = i;
    for k in 0..20 {
        w.address[k] = v.withdrawal_credentials[12 + k];
    }
    w.amount = amount;
    w
}
macro_rules! setup {
    ($f:ident, $m:ident, $s:ident, $c:ident, $n:expr, $sweeps:expr) => {
        sym::merge(false);
        $c.max_withdrawals_per_payload = 2;
        $c.max_validators_per_withdrawals_sweep = [2, 16, 3][sym::pick("sweep", 0, $sweeps) as usize];
        $s.slot = 4 * EPOCH + 2;
        $s.next_withdrawal_index = sym::range("next withdrawal", 0, 1 << 40) as usize;
        $s.next_withdrawal_validator_index = sym::pick("next validator", 0, $n - 1) as usize;
        for i in 0..$n as u8 {
            let mut v = active_validator(i);
            v.slashed = sym::any_bool("slashed");
            v.activation_eligibility_epoch = sym::any_u64("eligibility");
            v.activation_epoch = sym::any_u64("activation");
            v.withdrawal_credentials = bytes32(i + 1);
            v.withdrawal_credentials[0] = 0;
            $s.validators.push(v);
            $s.balances.push(40 * GWEI);
        }
    };
}
// all about who is swept
macro_rules! swept {
    ($s:ident, $n:expr) => {
        for i in 0..$n {
            let v = &mut $s.validators[i];
            v.withdrawal_credentials[0] = sym::any_u8("credentials");
            v.withdrawable_epoch = epoch_or_far("withdrawable", 20);
            v.exit_epoch = sym::any_u64("exit");
            v.effective_balance = sym::range("effective", 0, 2048) * GWEI;
            $s.balances[i] = sym::range("balance", 0, 1 << 50);
        }
    };
}
// $left: pending withdrawals paid for, $paid: withdrawals so far
macro_rules! run {
    ($f:ident, $m:ident, $s:ident, $c:ident, $sweep:expr, $paid:expr, $done:expr, $all:expr) => {
        let mut want: Vec<Withdrawal> = $paid;
        let n = $s.validators.len();
        let limit = $c.max_withdrawals_per_payload;
        let sweep: Sweep = $sweep;
        let mut i = $s.next_withdrawal_validator_index;
        for _ in 0..std::cmp::min(n, $c.max_validators_per_withdrawals_sweep) {
            if let Some(a) = sweep(&$s.validators[i], $s.balances[i], &$c) {
                want.push(withdrawal($s.next_withdrawal_index + want.len(), i, &$s.validators[i], a));
            }
            if want.len() == limit {
                break;
            }
            i = (i + 1) % n;
        }
        // the payload may differ in one way
        let mut p = $m::ExecutionPayload::default();
        let mut given = want.clone();
        let fault = if $all { sym::pick("fault", 0, 6) } else { 4 * sym::pick("fault", 0, 1) };
        if fault == 1 {
            given.push(Withdrawal::default());
        } else if fault > 1 {
            sym::assume(!given.is_empty());
            let k = given.len() - 1;
            match fault {
                2 => {
                    given.pop();
                }
                3 => given[0].index = sym::range("index", 0, 1 << 41) as usize,
                4 => given[0].validator_index = sym::range("validator", 0, 9) as usize,
                5 => given[k].amount = sym::any_u64("amount"),
                _ => given[k].address[19] = sym::any_u8("address"),
            }
        }
        let mut right = given.len() == want.len();
        for (a, b) in given.iter().zip(&want) {
            right &= (a.index == b.index) & (a.validator_index == b.validator_index) & (a.amount == b.amount) & sym::eq_bytes(a.address.as_ref(), b.address.as_ref());
        }
        p.withdrawals = given.try_into().unwrap();
        let mut r = $s.clone();
        let ok = $m::process_withdrawals(&mut $s, &p, &$c).is_ok();
        sym::check(ok == right, "the withdrawals are accepted exactly when they are the expected ones");
        if ok {
            for w in &want {
                let b = r.balances[w.validator_index];
                r.balances[w.validator_index] = sym::ite(b < w.amount, 0, b.wrapping_sub(w.amount));
            }
            r.next_withdrawal_index += want.len();
            r.next_withdrawal_validator_index = if want.len() == limit {
                (want[limit - 1].validator_index + 1) % n
            } else {
                (r.next_withdrawal_validator_index + $c.max_validators_per_withdrawals_sweep) % n
            };
            let done: fn(&mut $m::BeaconState, usize) = $done;
            done(&mut r, want.len());
            same_state!($f, $s, r, "withdrawals");
            sym::cover(if want.len() == limit { "full" } else if want.is_empty() { "none" } else { "some" });
        } else {
            sym::cover("refused");
        }
    };
}
macro_rules! sweep {
    ($f:ident, $sweep:expr) => {{
        use harness::small::$f as m;
        let mut c = context();
        let mut s = m::BeaconState::default();
        let n = if sym::thorough() { 4 } else { 3 };
        setup!($f, m, s, c, n, 2);
        swept!(s, n as usize);
        let first = s.next_withdrawal_index;
        let _ = first;
        run!($f, m, s, c, $sweep, vec![], |_, _| (), true);
    }};
}
fn pending() {
    use harness::small::electra as m;
    let mut c = context();
    let mut s = m::BeaconState::default();
    setup!(electra, m, s, c, 3, 0);
    c.max_pending_partials_per_withdrawals_sweep = sym::pick("pending per sweep", 1, 2) as usize;
    c.max_withdrawals_per_payload = 3;
    // one validator with all kinds of standing, one that the sweep takes from
    let v = &mut s.validators[0];
    v.withdrawal_credentials[0] = 2;
    v.exit_epoch = epoch_or_far("exit", 20);
    v.effective_balance = sym::range("effective", 31, 33) * GWEI;
    s.balances[0] = sym::range("balance", 0, 1 << 50);
    s.validators[1].withdrawal_credentials[0] = 1;
    for _ in 0..sym::pick("pending", 0, 3) {
        let mut p = ethereum_consensus::electra::PendingPartialWithdrawal::default();
        p.index = sym::pick("of", 0, 1) as usize;
        p.amount = sym::range("amount", 0, 1 << 50);
        p.withdrawable_epoch = EPOCH + sym::pick("due", 0, 1);
        s.pending_partial_withdrawals.push(p);
    }
    let mut paid: Vec<Withdrawal> = vec![];
    for p in s.pending_partial_withdrawals.iter() {
        if p.withdrawable_epoch > EPOCH || paid.len() == c.max_pending_partials_per_withdrawals_sweep {
            break;
        }
        let v = &s.validators[p.index];
        let b = s.balances[p.index];
        if (v.exit_epoch == FAR) & (v.effective_balance >= c.min_activation_balance) & (b > c.min_activation_balance) {
            let over = b - c.min_activation_balance;
            paid.push(withdrawal(s.next_withdrawal_index + paid.len(), p.index, v, sym::ite(over < p.amount, over, p.amount)));
        }
    }
        let count = paid.len();
    sym::cover(if count > 0 { "pending paid" } else { "no pending paid" });
    PAID.store(count, std::sync::atomic::Ordering::Relaxed);
    run!(electra, m, s, c, new, paid, |r, _| {
        let n = PAID.load(std::sync::atomic::Ordering::Relaxed);
        r.pending_partial_withdrawals = r.pending_partial_withdrawals.iter().skip(n).cloned().collect::<Vec<_>>().try_into().unwrap();
    }, false);
}
static PAID: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
sym::harness! {
    fn h_sweep_capella() { sweep!(capella, old) }
    fn h_sweep_deneb() { sweep!(deneb, old) }
    fn h_sweep_electra() { sweep!(electra, new) }
    fn h_pending_electra() { pending() }
}
