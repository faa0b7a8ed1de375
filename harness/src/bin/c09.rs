//! C09: activation queue, ejections and the exit churn queue.
#![no_main]
use harness::refs::*;
use harness::*;

fn limits(c: &mut Context) {
    c.min_per_epoch_churn_limit = 1;
    c.churn_limit_quotient = 2;
    c.max_per_epoch_activation_churn_limit = 1;
}
fn n() -> usize {
    if sym::thorough() { 4 } else { 3 }
}
fn any_validators(c: &Context) -> Vec<Validator> {
    (0..n())
        .map(|i| {
            let mut v = Validator::default();
            v.public_key = key(i as u8);
            v.effective_balance = sym::range("effective_balance", 0, 40) * GWEI;
            v.slashed = sym::any_bool("slashed");
            v.activation_eligibility_epoch = epoch_or_far("eligibility", 1 << 20);
            v.activation_epoch = epoch_or_far("activation", 1 << 20);
            v.exit_epoch = epoch_or_far("exit", 1 << 20);
            v.withdrawable_epoch = epoch_or_far("withdrawable", 1 << 20);
            let _ = c;
            v
        })
        .collect()
}
fn queue(vs: &mut [Validator], epoch: u64, c: &Context, threshold_electra: bool, mut exit: impl FnMut(&mut [Validator], usize, bool)) {
    for i in 0..vs.len() {
        let v = &mut vs[i];
        let big = if threshold_electra {
            v.effective_balance >= c.min_activation_balance
        } else {
            v.effective_balance == c.max_effective_balance
        };
        let el = (v.activation_eligibility_epoch == FAR) & big;
        v.activation_eligibility_epoch = sym::ite(el, epoch + 1, v.activation_eligibility_epoch);
        let out = active(v, epoch) & (v.effective_balance <= c.ejection_balance);
        exit(vs, i, out);
    }
}
fn activate(vs: &mut [Validator], epoch: u64, finalized: u64, c: &Context, limit: u64) {
    let old = vs.to_vec();
    let ready = |v: &Validator| (v.activation_eligibility_epoch <= finalized) & (v.activation_epoch == FAR);
    for i in 0..vs.len() {
        let mut rank = 0u64;
        for j in 0..old.len() {
            let (a, b) = (old[j].activation_eligibility_epoch, old[i].activation_eligibility_epoch);
            rank += (ready(&old[j]) & ((a < b) | ((a == b) & (j < i)))) as u64;
        }
        let go = ready(&old[i]) & (rank < limit);
        vs[i].activation_epoch = sym::ite(go, epoch + 1 + c.max_seed_lookahead, vs[i].activation_epoch);
    }
}

macro_rules! updates {
    ($f:ident, $limit:expr) => {{
        use harness::small::$f as m;
        let mut c = context();
        limits(&mut c);
        let mut s = m::BeaconState::default();
        s.slot = sym::range("slot", 0, 1 << 22);
        s.finalized_checkpoint.epoch = sym::range("finalized", 0, 1 << 20);
        for v in any_validators(&c) {
            s.validators.push(v);
            s.balances.push(32 * GWEI);
        }
        let mut r = s.clone();
        let epoch = s.slot / 4;
        let mut vs = r.validators.to_vec();
        queue(&mut vs, epoch, &c, false, |vs, i, on| exit(vs, i, epoch, &c, on));
        let l: u64 = $limit(churn(&vs, epoch, &c), &c);
        activate(&mut vs, epoch, r.finalized_checkpoint.epoch, &c, l);
        for (i, v) in vs.into_iter().enumerate() {
            r.validators[i] = v;
        }
        let ok = m::process_registry_updates(&mut s, &c).is_ok();
        sym::check(ok, "registry updates succeed");
        same_state!($f, s, r, "registry updates");
        sym::cover("end");
    }};
}

/// A direct call of the exit function on an arbitrary registry.
macro_rules! exits {
    ($f:ident) => {{
        use harness::small::$f as m;
        let mut c = context();
        limits(&mut c);
        let mut s = m::BeaconState::default();
        s.slot = sym::range("slot", 0, 1 << 22);
        for v in any_validators(&c) {
            s.validators.push(v);
        }
        let mut vs = s.validators.to_vec();
        let epoch = s.slot / 4;
        exit(&mut vs, 1, epoch, &c, true);
        let ok = m::initiate_validator_exit(&mut s, 1, &c).is_ok();
        sym::check(ok, "initiating an exit succeeds");
        same_validators(&s.validators, &vs, "exit queue");
        sym::cover("end");
    }};
}

mod e {
    use super::*;
    use harness::small::electra as m;
    use ethereum_consensus::electra::{epoch_processing as ep, helpers as h};

    pub fn ctx() -> Context {
        let mut c = context();
        c.churn_limit_quotient = 3;
        c.min_per_epoch_churn_limit_electra = 20 * GWEI;
        c.max_per_epoch_activation_exit_churn_limit = 30 * GWEI;
        c
    }
    fn take1(s: &mut m::BeaconState, amount: u64, limit: u64, c: &Context) -> u64 {
        let (e, l) = take(s.slot, s.earliest_exit_epoch, s.exit_balance_to_consume, amount, limit, c);
        s.earliest_exit_epoch = e;
        s.exit_balance_to_consume = l;
        e
    }
    pub fn total(s: &m::BeaconState, c: &Context) -> u64 {
        let e = s.slot / c.slots_per_epoch;
        let mut t = 0;
        for v in s.validators.iter() {
            if v.activation_epoch <= e && e < v.exit_epoch {
                t += v.effective_balance;
            }
        }
        std::cmp::max(t, c.effective_balance_increment)
    }
    pub fn queue_state(s: &mut m::BeaconState) {
        s.slot = sym::range("slot", 0, 1 << 22);
        s.earliest_exit_epoch = sym::range("earliest exit", 0, 1 << 21);
        s.exit_balance_to_consume = sym::range("exit balance to consume", 0, 1 << 40);
    }
    pub fn churn() {
        // small units keep the divisions within the solver's reach
        const U: u64 = 1;
        let top = if sym::thorough() { 1 << 20 } else { 1 << 12 };
        let mut c = ctx();
        c.effective_balance_increment = 4 * U;
        c.min_per_epoch_churn_limit_electra = 22 * U;
        c.max_per_epoch_activation_exit_churn_limit = 31 * U;
        let mut s = m::BeaconState::default();
        queue_state(&mut s);
        for i in 0..2 {
            let mut v = active_validator(i);
            v.effective_balance = [10, 32, 45, 2048][sym::pick("eb", 0, 3) as usize] * U;
            s.validators.push(v);
            s.balances.push(32 * GWEI);
        }
        s.exit_balance_to_consume = sym::range("exit balance to consume", 0, top);
        let mut r = s.clone();
        let amount = sym::range("amount", 0, top);
        let l = exit_churn_electra(total(&r, &c), &c);
        let want = take1(&mut r, amount, l, &c);
        let got = h::compute_exit_epoch_and_update_churn(&mut s, amount, &c).unwrap();
        sym::check(got == want, "exit epoch of an amount");
        same_state!(electra, s, r, "exit balance queue");
        sym::cover("end");
    }
    pub fn updates() {
        let c = ctx();
        let mut s = m::BeaconState::default();
        queue_state(&mut s);
        let epoch = s.slot / 4;
        s.finalized_checkpoint.epoch = sym::range("finalized", 0, 1 << 20);
        let n = if sym::thorough() { 3 } else { 2 };
        for i in 0..n {
            let mut v = Validator::default();
            v.public_key = key(i);
            odd(&mut v);
            v.activation_eligibility_epoch = epoch_or_far("eligibility", 1 << 20);
            v.activation_epoch = FAR;
            v.exit_epoch = FAR;
            match sym::pick("kind", 0, 4) {
                0 => v.effective_balance = sym::range("pending balance", 0, 2048) * GWEI,
                1 => {
                    v.effective_balance = 40 * GWEI;
                    v.activation_epoch = 0;
                }
                2 => {
                    v.effective_balance = 16 * GWEI;
                    v.activation_epoch = 0;
                }
                3 => {
                    v.effective_balance = 16 * GWEI;
                    v.activation_epoch = 0;
                    v.exit_epoch = sym::range("exit", 0, 1 << 20);
                    v.withdrawable_epoch = v.exit_epoch + 100;
                    sym::assume(v.exit_epoch > epoch);
                }
                _ => {
                    v.effective_balance = sym::range("exited balance", 0, 2048) * GWEI;
                    v.activation_epoch = 0;
                    v.exit_epoch = sym::range("exit", 0, 1 << 20);
                    v.withdrawable_epoch = v.exit_epoch + 100;
                    sym::assume(v.exit_epoch <= epoch);
                }
            }
            s.validators.push(v);
            s.balances.push(32 * GWEI);
        }
        let mut r = s.clone();
        let limit = exit_churn_electra(total(&r, &c), &c);
        let mut vs = r.validators.to_vec();
        queue(&mut vs, epoch, &c, true, |vs, i, on| {
            if on && vs[i].exit_epoch == FAR {
                let e = take1(&mut r, vs[i].effective_balance, limit, &c);
                vs[i].exit_epoch = e;
                vs[i].withdrawable_epoch = e + c.min_validator_withdrawability_delay;
            }
        });
        activate(&mut vs, epoch, r.finalized_checkpoint.epoch, &c, u64::MAX);
        for (i, v) in vs.into_iter().enumerate() {
            r.validators[i] = v;
        }
        let ok = ep::process_registry_updates(&mut s, &c).is_ok();
        sym::check(ok, "registry updates succeed");
        same_state!(electra, s, r, "registry updates");
        sym::cover("end");
    }
}

sym::harness! {
    fn h_updates_phase0() { updates!(phase0, |k, _: &Context| k) }
    fn h_updates_deneb() { updates!(deneb, |k: u64, c: &Context| sym::ite(k < c.max_per_epoch_activation_churn_limit, k, c.max_per_epoch_activation_churn_limit)) }
    fn h_updates_electra() { e::updates() }
    fn h_churn_electra() { e::churn() }
    fn h_exit_phase0() { exits!(phase0) }
    fn h_exit_altair() { exits!(altair) }
    fn h_exit_bellatrix() { exits!(bellatrix) }
    fn h_exit_capella() { exits!(capella) }
    fn h_exit_deneb() { exits!(deneb) }
}
