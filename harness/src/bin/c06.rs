//! C06: proposer selection.
//! features: shuffling
#![no_main]
use harness::refs::{active_indices, seed};
use harness::*;

/// One swap-or-not round count at a time, without splitting on bits.
fn shuffled(index: u64, count: u64, seed: &[u8; 32], rounds: u64) -> u64 {
    let mut index = index;
    for r in 0..rounds {
        let mut d = seed.to_vec();
        d.push(r as u8);
        let h = sym::sha256(&d);
        let pivot = u64::from_le_bytes(h[..8].try_into().unwrap()) % count;
        let flip = (pivot + count - index) % count;
        let position = sym::ite(index > flip, index, flip);
        d.extend_from_slice(&((position / 256) as u32).to_le_bytes());
        let s = sym::sha256(&d);
        let byte = s[(position % 256 / 8) as usize];
        index = sym::ite((byte >> (position % 8)) % 2 != 0, flip, index);
    }
    index
}
struct Pick {
    accepted: bool,
    who: u64,
    round: u64,
}
/// The candidate accepted within `limit` rounds.
fn sampled(vs: &[Validator], idx: &[usize], sd: &[u8; 32], max: u64, limit: u64, c: &Context) -> Pick {
    let n = idx.len() as u64;
    let mut p = Pick { accepted: false, who: 0, round: 0 };
    for r in 0..limit {
        let j = shuffled(r % n, n, sd, c.shuffle_round_count);
        let (mut who, mut eb) = (0, 0);
        for (k, &i) in idx.iter().enumerate() {
            who = sym::ite(j == k as u64, i as u64, who);
            eb = sym::ite(j == k as u64, vs[i].effective_balance, eb);
        }
        let mut d = sd.to_vec();
        d.extend_from_slice(&(r / 32).to_le_bytes());
        let byte = sym::sha256(&d)[(r % 32) as usize] as u64;
        let hit = (eb * 255 >= max * byte) & !p.accepted;
        p.who = sym::ite(hit, who, p.who);
        p.round = sym::ite(hit, r, p.round);
        p.accepted |= hit;
    }
    p
}

macro_rules! proposer {
    ($f:ident, $max:expr, $electra:expr) => {{
        use harness::small::$f as m;
        let mut c = context();
        c.shuffle_round_count = 1;
        // one candidate many times over, or several a few times
        let long = sym::pick_bool("long");
        let (n, limit) = if long { (1, 34) } else { (if sym::thorough() { 3 } else { 2 }, if sym::thorough() { 3 } else { 2 }) };
        let epoch = 5u64;
        let mut s = m::BeaconState::default();
        s.slot = 4 * epoch + sym::range("slot in epoch", 0, 3);
        for i in 0..n + 2 {
            let mut v = active_validator(i as u8);
            odd(&mut v);
            // the long run weighs one fixed balance against every byte
            v.effective_balance = if long { 17 * GWEI } else { sym::range("effective balance", 0, 2048 * GWEI) };
            if i == 0 {
                v.exit_epoch = epoch;
            }
            if i == 2 {
                v.activation_epoch = epoch + 1;
            }
            s.validators.push(v);
        }
        s.randao_mixes[((epoch + 8 - c.min_seed_lookahead - 1) % 8) as usize] = any_bytes32("mix");
        let idx = active_indices(&s.validators, epoch);
        let mut d = seed(&s.randao_mixes, epoch, 0, &c).to_vec();
        d.extend_from_slice(&s.slot.to_le_bytes());
        let sd = sym::sha256(&d);
        let want = sampled(&s.validators, &idx, &sd, c.max_effective_balance, limit, &c);
        sym::assume(want.accepted);
        if long {
            sym::assume(want.round >= 31);
        }
        let got = m::get_beacon_proposer_index(&s, &c).unwrap() as u64;
        sym::check(got == want.who, "the proposer of a slot");
        sym::check(idx.iter().any(|&i| i as u64 == got), "the proposer is an active validator");
        if want.round >= 32 {
            sym::cover("past the first 32 candidates");
        } else if want.round > 0 {
            sym::cover("later candidate");
        } else {
            sym::cover("first candidate");
        }
        if $electra {
            let e = sampled(&s.validators, &idx, &sd, $max(&c), limit, &c);
            sym::check(!e.accepted | (e.who == got), "KF candidates are weighed against the electra maximum");
        }
    }};
}
macro_rules! nobody {
    ($f:ident) => {{
        use harness::small::$f as m;
        let c = context();
        let mut s = m::BeaconState::default();
        s.slot = sym::range("slot", 0, 1 << 30);
        let epoch = s.slot / 4;
        for i in 0..2 {
            let mut v = active_validator(i);
            if sym::pick_bool("exited") {
                v.exit_epoch = sym::range("exit", 0, 1 << 20);
                sym::assume(v.exit_epoch <= epoch);
            } else {
                v.activation_epoch = epoch_or_far("activation", 1 << 30);
                sym::assume(v.activation_epoch > epoch);
            }
            s.validators.push(v);
        }
        sym::check(m::get_beacon_proposer_index(&s, &c).is_err(), "without active validators there is no proposer");
        sym::cover("nobody");
    }};
}
sym::harness! {
    fn h_proposer_phase0() { proposer!(phase0, |_: &Context| 0, false) }
    fn h_proposer_altair() { proposer!(altair, |_: &Context| 0, false) }
    fn h_proposer_bellatrix() { proposer!(bellatrix, |_: &Context| 0, false) }
    fn h_proposer_capella() { proposer!(capella, |_: &Context| 0, false) }
    fn h_proposer_deneb() { proposer!(deneb, |_: &Context| 0, false) }
    fn h_proposer_electra() { proposer!(electra, |c: &Context| c.max_effective_balance_electra, true) }
    fn h_nobody_phase0() { nobody!(phase0) }
    fn h_nobody_electra() { nobody!(electra) }
}
