//! C10: what a slashing does, and the correlated penalty half-way to withdrawal.
#![no_main]
use harness::refs::*;
use harness::*;

#[derive(Clone, Copy)]
struct Q {
    penalty: u64,
    whistleblower: u64,
    /// proposer share as (numerator, denominator)
    share: (u64, u64),
}

macro_rules! slash {
    ($f:ident, $m:path, $q:expr, $electra:tt, $known_split:expr) => {{
        use harness::small::$f as m;
        use $m as h;
        let mut c = context();
        c.min_per_epoch_churn_limit = 1;
        c.churn_limit_quotient = 2;
        let q: Q = $q(&c);
        let mut s = m::BeaconState::default();
        s.slot = [1, 18, 4_000_003][sym::pick("slot", 0, 2) as usize];
        let epoch = s.slot / 4;
        for i in 0..3 {
            let mut v = active_validator(i);
            odd(&mut v);
            if i == 0 {
                v.effective_balance = [0, 17, 32, 2048][sym::pick("effective balance", 0, 3) as usize] * GWEI;
                let out = sym::pick_bool("already leaving");
                if out {
                    v.exit_epoch = epoch + sym::range("exit in", 1, 1000);
                    v.withdrawable_epoch = epoch + sym::range("withdrawable in", 1, 100000);
                }
            }
            s.validators.push(v);
            s.balances.push(sym::range("balance", 0, 1 << 50));
        }
        for i in 0..4 {
            s.slashings[i] = sym::range("slashings", 0, 1 << 50);
        }
        slash!(@queue $electra, s);
        let w = sym::pick("whistleblower", 0, 3);
        let whistle = if w == 3 { None } else { Some(w as usize) };
        let mut r = s.clone();
        let ok = h::slash_validator(&mut s, 0, whistle, &c).is_ok();
        // reference
        let mut vs = r.validators.to_vec();
        let eb = vs[0].effective_balance;
        slash!(@exit $electra, r, vs, epoch, c);
        vs[0].slashed = true;
        let wd = epoch + c.epochs_per_slashings_vector;
        vs[0].withdrawable_epoch = sym::ite(vs[0].withdrawable_epoch < wd, wd, vs[0].withdrawable_epoch);
        for (i, v) in vs.iter().enumerate() {
            r.validators[i] = v.clone();
        }
        r.slashings[(epoch % 4) as usize] += eb;
        r.balances[0] = sub_floor(r.balances[0], eb / q.penalty);
        let p = proposer(&vs, &r.randao_mixes, r.slot, c.max_effective_balance, &c);
        let reward = eb / q.whistleblower;
        let share = reward * q.share.0 / q.share.1;
        let w = whistle.unwrap_or(p);
        let mut all_to_whistleblower = r.clone();
        all_to_whistleblower.balances[w] += reward;
        r.balances[p] += share;
        r.balances[w] += reward - share;
        sym::check(ok, "slashing succeeds");
        if $known_split && whistle.is_some() {
            same_state!($f, s, all_to_whistleblower, "slashing, reward to the whistleblower alone");
            sym::check(eq_u64s(&s.balances, &r.balances), "KF proposer share of the whistleblower reward");
        } else {
            same_state!($f, s, r, "slashing");
        }
        sym::cover(if whistle.is_some() { "whistleblower" } else { "proposer" });
    }};
    (@queue old, $s:ident) => {};
    (@queue electra, $s:ident) => {
        $s.earliest_exit_epoch = sym::range("earliest exit", 0, 1 << 30);
        $s.exit_balance_to_consume = sym::range("exit balance", 0, 1 << 38);
    };
    (@exit old, $r:ident, $vs:ident, $epoch:ident, $c:ident) => { exit(&mut $vs, 0, $epoch, &$c, true) };
    (@exit electra, $r:ident, $vs:ident, $epoch:ident, $c:ident) => {
        if $vs[0].exit_epoch == FAR {
            let l = exit_churn_electra(total_active(&$vs, $epoch, &$c), &$c);
            let (e, left) = take($r.slot, $r.earliest_exit_epoch, $r.exit_balance_to_consume, $vs[0].effective_balance, l, &$c);
            $r.earliest_exit_epoch = e;
            $r.exit_balance_to_consume = left;
            $vs[0].exit_epoch = e;
            $vs[0].withdrawable_epoch = e + $c.min_validator_withdrawability_delay;
        }
    };
}

macro_rules! correlated {
    ($f:ident, $m:path, $mult:ident) => {{
        use harness::small::$f as m;
        use $m as h;
        let c = context();
        let mut s = m::BeaconState::default();
        s.slot = sym::range("slot", 0, 1 << 30);
        let epoch = s.slot / 4;
        let mut total = 0;
        for i in 0..2 {
            let mut v = active_validator(i);
            v.effective_balance = [17, 32][sym::pick("eb", 0, 1) as usize] * GWEI;
            odd(&mut v);
            v.withdrawable_epoch = sym::range("withdrawable", 0, 1 << 30);
            if i == 0 || sym::pick_bool("active") {
                total += v.effective_balance;
            } else {
                v.activation_epoch = FAR;
            }
            s.validators.push(v);
            s.balances.push(sym::range("balance", 0, 1 << 50));
        }
        let total = std::cmp::max(total, GWEI);
        let mut sum = 0;
        for i in 0..4 {
            s.slashings[i] = sym::range("slashings", 0, 1 << 36);
            sum += s.slashings[i];
        }
        let mut r = s.clone();
        let adj = sum * c.$mult;
        let adj = sym::ite(adj < total, adj, total);
        for i in 0..2 {
            let v = &r.validators[i];
            let hit = v.slashed & (epoch + 2 == v.withdrawable_epoch);
            let pen = (v.effective_balance / GWEI) * adj / total * GWEI;
            r.balances[i] = sub_floor(r.balances[i], sym::ite(hit, pen, 0));
        }
        let ok = h::process_slashings(&mut s, &c).is_ok();
        sym::check(ok, "slashings succeed");
        same_state!($f, s, r, "correlated penalty");
        sym::cover("end");
    }};
}

sym::harness! {
    fn h_slash_phase0() {
        slash!(phase0, harness::small::phase0, |c: &Context| Q { penalty: c.min_slashing_penalty_quotient, whistleblower: c.whistleblower_reward_quotient, share: (1, c.proposer_reward_quotient) }, old, false)
    }
    fn h_slash_altair() {
        slash!(altair, harness::small::altair, |c: &Context| Q { penalty: c.min_slashing_penalty_quotient_altair, whistleblower: c.whistleblower_reward_quotient, share: (8, 64) }, old, false)
    }
    fn h_slash_bellatrix() {
        slash!(bellatrix, harness::small::bellatrix, |c: &Context| Q { penalty: c.min_slashing_penalty_quotient_bellatrix, whistleblower: c.whistleblower_reward_quotient, share: (8, 64) }, old, false)
    }
    fn h_slash_capella() {
        slash!(capella, harness::small::capella, |c: &Context| Q { penalty: c.min_slashing_penalty_quotient_bellatrix, whistleblower: c.whistleblower_reward_quotient, share: (8, 64) }, old, true)
    }
    fn h_slash_deneb() {
        slash!(deneb, harness::small::deneb, |c: &Context| Q { penalty: c.min_slashing_penalty_quotient_bellatrix, whistleblower: c.whistleblower_reward_quotient, share: (8, 64) }, old, true)
    }
    fn h_slash_electra() {
        slash!(electra, ethereum_consensus::electra::helpers, |c: &Context| Q { penalty: c.min_slashing_penalty_quotient_electra, whistleblower: c.whistleblower_reward_quotient_electra, share: (8, 64) }, electra, false)
    }
    fn h_correlated_phase0() { correlated!(phase0, harness::small::phase0, proportional_slashing_multiplier) }
    fn h_correlated_altair() { correlated!(altair, harness::small::altair, proportional_slashing_multiplier_altair) }
    fn h_correlated_bellatrix() { correlated!(bellatrix, harness::small::bellatrix, proportional_slashing_multiplier_bellatrix) }
    fn h_correlated_capella() { correlated!(capella, harness::small::capella, proportional_slashing_multiplier_bellatrix) }
    fn h_correlated_deneb() { correlated!(deneb, harness::small::deneb, proportional_slashing_multiplier_bellatrix) }
    fn h_correlated_electra() { correlated!(electra, harness::small::electra, proportional_slashing_multiplier_bellatrix) }
}
