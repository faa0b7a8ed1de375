//! C08: attestation rewards, penalties and inactivity scores.
#![no_main]
use harness::refs::{active, committee, sub_floor, total_active};
use harness::*;

fn eligible(v: &Validator, prev: u64) -> bool {
    active(v, prev) | (v.slashed & (prev + 1 < v.withdrawable_epoch))
}
/// One validator of each interesting standing at `epoch`.
fn standing(v: &mut Validator, how: u64, epoch: u64) {
    match how {
        1 => v.slashed = true,
        2 => v.exit_epoch = epoch - 1,
        // left, slashed, and still within or just past the window
        3 | 4 => {
            v.slashed = true;
            v.exit_epoch = epoch - 1;
            v.withdrawable_epoch = epoch + (how == 3) as u64;
        }
        5 => v.activation_epoch = epoch,
        _ => {}
    }
}
const WEIGHTS: [u64; 3] = [14, 26, 14];

macro_rules! flags {
    ($f:ident, $quotient:ident) => {{
        use harness::small::$f as m;
        let mut c = context();
        c.inactivity_penalty_quotient_altair = 1 << 10;
        c.inactivity_penalty_quotient_bellatrix = 1 << 12;
        let mut s = m::BeaconState::default();
        let epoch = 9u64;
        s.slot = 4 * epoch + 3;
        let delay = sym::range("finality delay", 0, epoch - 1);
        s.finalized_checkpoint.epoch = epoch - 1 - delay;
        let how = sym::pick("standing", 0, 5);
        // two balances that always add up to the same total, or chosen ones
        let shared = how == 0 && sym::pick_bool("shared");
        let (a, b) = if shared {
            let k = sym::range("share", 1, 63);
            (k * GWEI, (64 - k) * GWEI)
        } else if how == 3 {
            (31 * GWEI, sym::range("share", 0, 63) * GWEI)
        } else {
            let k = sym::pick("balances", 0, 1) as usize;
            ([2048, 17][k] * GWEI, [32, 0][k] * GWEI)
        };
        for i in 0..2u8 {
            let mut v = active_validator(i);
            odd(&mut v);
            v.slashed = false;
            v.effective_balance = if i == 0 { a } else { b };
            if i == 1 {
                standing(&mut v, how, epoch);
            }
            s.validators.push(v);
            s.balances.push(sym::range("balance", 0, 1 << 50));
            s.inactivity_scores.push(sym::range("score", 0, 1 << 20));
            // the shared case samples few flag combinations: rewards are products of the shares there
            s.previous_epoch_participation.push(if shared { [7, 2][sym::pick("flags", 0, 1) as usize] } else { sym::pick("flags", 0, 7) as u8 });
            s.current_epoch_participation.push(sym::range("flags", 0, 7) as u8);
        }
        let mut r = s.clone();
        m::process_rewards_and_penalties(&mut s, &c).unwrap();
        let prev = epoch - 1;
        let total = total_active(&r.validators, epoch, &c);
        let per = GWEI * c.base_reward_factor / sym::isqrt(total);
        let leak = delay > c.min_epochs_to_inactivity_penalty;
        let took = |i: usize, f: usize| {
            let v = &r.validators[i];
            active(v, prev) & !v.slashed & ((r.previous_epoch_participation[i] >> f) & 1 == 1)
        };
        let mut balances = r.balances.to_vec();
        for f in 0..3 {
            let mut t = 0;
            for i in 0..2 {
                t += sym::ite(took(i, f), r.validators[i].effective_balance, 0);
            }
            let t = sym::ite(t < GWEI, GWEI, t);
            for i in 0..2 {
                let v = &r.validators[i];
                let base = v.effective_balance / GWEI * per;
                if eligible(v, prev) {
                    if took(i, f) {
                        balances[i] += sym::ite(leak, 0, base * WEIGHTS[f] * (t / GWEI) / (total / GWEI * 64));
                    } else if f != 2 {
                        balances[i] = sub_floor(balances[i], base * WEIGHTS[f] / 64);
                    }
                }
            }
        }
        for i in 0..2 {
            let v = &r.validators[i];
            if eligible(v, prev) && !took(i, 1) {
                let p = v.effective_balance * r.inactivity_scores[i] / (c.inactivity_score_bias * c.$quotient);
                balances[i] = sub_floor(balances[i], p);
            }
        }
        for i in 0..2 {
            sym::check(s.balances[i] == balances[i], "balance after rewards and penalties");
            r.balances[i] = s.balances[i];
        }
        same_state!($f, s, r, "only balances change");
        sym::cover(["active", "slashed", "left", "left and slashed", "past the window", "just activated"][how as usize]);
    }};
}
macro_rules! scores {
    ($f:ident) => {{
        use harness::small::$f as m;
        let c = context();
        let mut s = m::BeaconState::default();
        let epoch = sym::pick("epoch", 0, 1) * 9;
        s.slot = 4 * epoch + 3;
        let delay = sym::range("finality delay", 0, 8);
        s.finalized_checkpoint.epoch = if epoch == 0 { 0 } else { epoch - 1 - delay };
        let how = sym::pick("standing", 0, 5);
        for i in 0..2u8 {
            let mut v = active_validator(i);
            if i == 1 && epoch > 0 {
                standing(&mut v, how, epoch);
            }
            s.validators.push(v);
            s.balances.push(32 * GWEI);
            s.inactivity_scores.push(sym::range("score", 0, 1 << 40));
            s.previous_epoch_participation.push(sym::pick("flags", 0, 7) as u8);
            s.current_epoch_participation.push(sym::range("flags", 0, 7) as u8);
        }
        let mut r = s.clone();
        m::process_inactivity_updates(&mut s, &c).unwrap();
        if epoch > 0 {
            for i in 0..2 {
                let v = &r.validators[i];
                let mut x = r.inactivity_scores[i];
                if eligible(v, epoch - 1) {
                    let took = active(v, epoch - 1) & !v.slashed & (r.previous_epoch_participation[i] & 2 != 0);
                    x = sym::ite(took, sub_floor(x, 1), x + c.inactivity_score_bias);
                    let leak = delay > c.min_epochs_to_inactivity_penalty;
                    x = sym::ite(leak, x, sub_floor(x, c.inactivity_score_recovery_rate));
                }
                sym::check(s.inactivity_scores[i] == x, "inactivity score");
                r.inactivity_scores[i] = s.inactivity_scores[i];
            }
        }
        same_state!($f, s, r, "only inactivity scores change");
        sym::cover(if epoch == 0 { "genesis epoch" } else { "later" });
    }};
}
macro_rules! genesis {
    ($f:ident) => {{
        use harness::small::$f as m;
        let c = context();
        let mut s = m::BeaconState::default();
        s.slot = sym::range("slot", 0, 3);
        for i in 0..2u8 {
            s.validators.push(active_validator(i));
            s.balances.push(sym::range("balance", 0, 1 << 50));
        }
        let r = s.clone();
        m::process_rewards_and_penalties(&mut s, &c).unwrap();
        same_state!($f, s, r, "no rewards in the first epoch");
        sym::cover("end");
    }};
}
/// Pending attestations of the previous epoch.
fn attested() {
    use harness::small::phase0 as m;
    let mut c = context();
    c.slots_per_epoch = 2;
    c.shuffle_round_count = 1;
    c.inactivity_penalty_quotient = 1 << 20;
    let mut s = m::BeaconState::default();
    let epoch = 7u64;
    let prev = epoch - 1;
    s.slot = 2 * epoch + 1;
    for i in 0..s.block_roots.len() {
        s.block_roots[i] = root(i as u8);
    }
    let delay = sym::range("finality delay", 0, prev);
    s.finalized_checkpoint.epoch = prev - delay;
    let how = sym::pick("standing of one validator", 0, 5);
    // with everyone active and attesting two balances vary and their sum does not
    let shared = how == 0 && sym::pick_bool("shared");
    let share = sym::range("share", 1, 63);
    for i in 0..3u8 {
        let mut v = active_validator(i);
        odd(&mut v);
        v.slashed = false;
        v.effective_balance = GWEI * if !shared { [32, 40, 17][i as usize] } else if i == 0 { 32 } else if i == 1 { share } else { 64 - share };
        if i == 1 {
            standing(&mut v, how, epoch);
        }
        s.validators.push(v);
        s.balances.push(sym::range("balance", 0, 1 << 50));
    }
    // who, kind (2: right head, 1: right target, 0: source only), delay, proposer
    let mut atts: Vec<(Vec<usize>, u64, u64, usize)> = vec![];
    let shapes = sym::pick("overlap", 0, 2);
    for (n, slot) in [2 * prev, 2 * prev + 1, 2 * prev + 1].into_iter().take(2 + (shapes > 0) as usize).enumerate() {
        let mut a = m::PendingAttestation::default();
        a.data.slot = slot;
        a.data.target.epoch = prev;
        let kind = if n == 2 { shapes } else { sym::pick("kind", 0, 2) };
        a.data.target.root = if kind >= 1 { root((2 * prev % 16) as u8) } else { root(77) };
        a.data.beacon_block_root = if kind == 1 { root(78) } else { root((slot % 16) as u8) };
        a.inclusion_delay = [3, 2, shapes][n];
        a.proposer_index = [0, 2, 1][n];
        let com = committee(&s.validators, &s.randao_mixes, slot, 0, &c);
        let mut b = vec![];
        let mut who = vec![];
        for &v in &com {
            let on = n == 2 || shared || sym::pick_bool("attested");
            b.push(on);
            if on {
                who.push(v);
            }
        }
        a.aggregation_bits = b.as_slice().try_into().unwrap();
        atts.push((who, kind, a.inclusion_delay, a.proposer_index));
        s.previous_epoch_attestations.push(a);
    }
    let mut r = s.clone();
    m::process_rewards_and_penalties(&mut s, &c).unwrap();
    let vs = &r.validators;
    let total = total_active(vs, epoch, &c);
    let leak = delay > c.min_epochs_to_inactivity_penalty;
    let sq = sym::isqrt(total);
    let base = |i: usize| vs[i].effective_balance * c.base_reward_factor / sq / 4;
    let (mut rew, mut pen) = ([0u64; 3], [0u64; 3]);
    let took = |i: usize, k: u64| !vs[i].slashed && atts.iter().any(|a| a.1 >= k && a.0.contains(&i));
    for k in 0..3 {
        let mut t = 0;
        for i in 0..3 {
            if took(i, k) {
                t += vs[i].effective_balance;
            }
        }
        let t = sym::ite(t < GWEI, GWEI, t);
        for i in 0..3 {
            if eligible(&vs[i], prev) {
                if took(i, k) {
                    rew[i] += sym::ite(leak, base(i), base(i) * (t / GWEI) / (total / GWEI));
                } else {
                    pen[i] += base(i);
                }
            }
        }
    }
    for i in 0..3 {
        let mut best: Option<(u64, usize)> = None;
        for a in &atts {
            if !vs[i].slashed && a.0.contains(&i) && best.map_or(true, |b| a.2 < b.0) {
                best = Some((a.2, a.3));
            }
        }
        if let Some((d, p)) = best {
            let share = base(i) / c.proposer_reward_quotient;
            rew[p] += share;
            rew[i] += (base(i) - share) / d;
        }
        if eligible(&vs[i], prev) {
            let mut x = 4 * base(i) - base(i) / c.proposer_reward_quotient;
            if !took(i, 1) {
                x += vs[i].effective_balance * delay / c.inactivity_penalty_quotient;
            }
            pen[i] += sym::ite(leak, x, 0);
        }
    }
    for i in 0..3 {
        sym::check(s.balances[i] == sub_floor(r.balances[i] + rew[i], pen[i]), "balance after rewards and penalties");
        r.balances[i] = s.balances[i];
    }
    same_state!(phase0, s, r, "only balances change");
    sym::cover(["active", "slashed", "left", "left and slashed", "past the window", "just activated"][how as usize]);
}
sym::harness! {
    fn h_attested_phase0() { attested() }
    fn h_flags_altair() { flags!(altair, inactivity_penalty_quotient_altair) }
    fn h_flags_bellatrix() { flags!(bellatrix, inactivity_penalty_quotient_bellatrix) }
    fn h_flags_capella() { flags!(capella, inactivity_penalty_quotient_bellatrix) }
    fn h_flags_deneb() { flags!(deneb, inactivity_penalty_quotient_bellatrix) }
    fn h_flags_electra() { flags!(electra, inactivity_penalty_quotient_bellatrix) }
    fn h_scores_altair() { scores!(altair) }
    fn h_scores_bellatrix() { scores!(bellatrix) }
    fn h_scores_electra() { scores!(electra) }
    fn h_genesis_phase0() { genesis!(phase0) }
    fn h_genesis_altair() { genesis!(altair) }
}
