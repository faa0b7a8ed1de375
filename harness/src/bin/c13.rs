//! C13: attestations in a block.
#![no_main]
use harness::refs::*;
use harness::*;

const EPOCH: u64 = 7;

macro_rules! setup {
    ($f:ident, $s:ident, $c:ident, $n:expr) => {
        free_signatures();
        $c.shuffle_round_count = 1;
        $c.min_attestation_inclusion_delay = 1;
        $s.slot = 4 * EPOCH + sym::pick("slot in epoch", 0, 2);
        $s.fork.epoch = 7;
        $s.fork.previous_version = [1, 0, 0, 9];
        $s.fork.current_version = [2, 0, 0, 9];
        $s.genesis_validators_root = root(3);
        for i in 0..16u8 {
            $s.block_roots[i as usize] = root(i);
        }
        for i in 0..8u8 {
            $s.randao_mixes[i as usize] = bytes32(i + 70);
        }
        $s.current_justified_checkpoint.epoch = 6;
        $s.current_justified_checkpoint.root = root(90);
        $s.previous_justified_checkpoint.epoch = 5;
        $s.previous_justified_checkpoint.root = root(91);
        for i in 0..$n as u8 {
            let mut v = active_validator(i);
            odd(&mut v);
            v.effective_balance = (17 + i as u64) * GWEI;
            $s.validators.push(v);
            $s.balances.push(sym::range("balance", 0, 1 << 60));
        }
    };
}
/// What is wrong with the vote, if anything, besides its age.
const FINE: u64 = 0;
const EPOCH_WRONG: u64 = 1;
const SOURCE: u64 = 2;
const COMMITTEE: u64 = 3;
const LENGTH: u64 = 4;
macro_rules! vote {
    ($s:ident, $a:ident, $fault:ident) => {
        // from before the previous epoch to the slot after this one
        let d = &mut $a.data;
        d.slot = $s.slot + 1 - sym::pick("age", 0, 8);
        let e = d.slot / 4;
        let $fault = sym::pick("fault", 0, 4);
        d.target.epoch = if $fault == EPOCH_WRONG { 13 - e } else { e };
        d.target.root = if $fault != FINE || sym::pick_bool("right target") { root((d.target.epoch * 4 % 16) as u8) } else { root(50) };
        d.beacon_block_root = if $fault != FINE || sym::pick_bool("right head") { root((d.slot % 16) as u8) } else { root(51) };
        d.source = if d.target.epoch == EPOCH { $s.current_justified_checkpoint.clone() } else { $s.previous_justified_checkpoint.clone() };
        if $fault == SOURCE {
            if sym::pick_bool("source epoch") {
                d.source.epoch = sym::any_u64("source epoch");
            } else {
                d.source.root = any_root("source root");
            }
        }
        $a.signature = any_signature("signature");
    };
}
/// Are target, slot and source of the vote in order?
fn timely(d: &ethereum_consensus::phase0::AttestationData, slot: u64, current: &Checkpoint, previous: &Checkpoint, bounded: bool) -> bool {
    if d.target.epoch != EPOCH && d.target.epoch != EPOCH - 1 || d.target.epoch != d.slot / 4 {
        return false;
    }
    let j = if d.target.epoch == EPOCH { current } else { previous };
    let source = (d.source.epoch == j.epoch) & sym::eq_bytes(d.source.root.as_ref(), j.root.as_ref());
    source && d.slot + 1 <= slot && (!bounded || slot <= d.slot + 4)
}
fn bits(n: usize, fault: u64) -> Vec<bool> {
    (0..n).map(|_| fault != FINE || sym::pick_bool("bit")).collect()
}
macro_rules! signed_by {
    ($r:ident, $who:ident, $a:ident) => {{
        let d = domain(1, &$r.fork, $a.data.target.epoch, &$r.genesis_validators_root);
        let mut w: Vec<usize> = $who.clone();
        w.sort();
        let k: Vec<_> = w.iter().map(|i| &$r.validators[*i].public_key).collect();
        !w.is_empty() && signed(&k, &attestation_data_root(&$a.data), &d, &$a.signature)
    }};
}
fn pending() {
    use harness::small::phase0 as m;
    let mut c = context();
    let mut s = m::BeaconState::default();
    setup!(phase0, s, c, 8);
    let mut a = m::Attestation::default();
    vote!(s, a, fault);
    a.data.index = if fault == COMMITTEE { sym::range("committee", 1, 1 << 40) as usize } else { 0 };
    let com = if a.data.slot / 4 <= EPOCH { committee(&s.validators, &s.randao_mixes, a.data.slot, 0, &c) } else { vec![] };
    let extra = if fault == LENGTH { sym::pick("bits", 0, 1) as usize * 2 } else { 1 };
    let b = bits(com.len() + extra - 1, fault);
    a.aggregation_bits = b.as_slice().try_into().unwrap();
    let mut r = s.clone();
    let ok = m::process_attestation(&mut s, &a, &c).is_ok();
    let mut want = timely(&a.data, r.slot, &r.current_justified_checkpoint, &r.previous_justified_checkpoint, true)
        && a.data.index == 0
        && extra == 1;
    if want {
        let who: Vec<usize> = com.iter().zip(&b).filter(|x| *x.1).map(|x| *x.0).collect();
        want = signed_by!(r, who, a);
    }
    sym::check(ok == want, "an attestation is accepted exactly when it is valid");
    if ok {
        let mut p = m::PendingAttestation::default();
        p.aggregation_bits = a.aggregation_bits.clone();
        p.data = a.data.clone();
        p.inclusion_delay = r.slot - a.data.slot;
        p.proposer_index = proposer(&r.validators, &r.randao_mixes, r.slot, c.max_effective_balance, &c);
        if a.data.target.epoch == EPOCH {
            r.current_epoch_attestations.push(p);
            sym::cover("current epoch");
        } else {
            r.previous_epoch_attestations.push(p);
            sym::cover("previous epoch");
        }
        same_state!(phase0, s, r, "recorded");
    } else {
        sym::cover("refused");
    }
}
macro_rules! rewarded {
    ($f:ident, $s:ident, $r:ident, $c:ident, $a:ident, $who:ident, $deneb:expr) => {{
        let d = &$a.data;
        let delay = $r.slot - d.slot;
        let target = sym::eq_bytes(d.target.root.as_ref(), $r.block_roots[(d.target.epoch * 4 % 16) as usize].as_ref());
        let head = target && sym::eq_bytes(d.beacon_block_root.as_ref(), $r.block_roots[(d.slot % 16) as usize].as_ref());
        let flags = [delay <= 2, target && ($deneb || delay <= 4), head && delay == 1];
        let mut total = 0;
        for v in $r.validators.iter() {
            total += v.effective_balance;
        }
        let per = GWEI * $c.base_reward_factor / sym::isqrt(total);
        let mut numerator = 0u64;
        let current = d.target.epoch == EPOCH;
        for &i in &$who {
            for (k, w) in [14u64, 26, 14].iter().enumerate() {
                let p = if current { &mut $r.current_epoch_participation[i] } else { &mut $r.previous_epoch_participation[i] };
                if flags[k] {
                    let old = *p;
                    let had = old & (1 << k) == 1 << k;
                    numerator = sym::ite(had, numerator, numerator + $r.validators[i].effective_balance / GWEI * per * w);
                    *p = sym::ite(had, old as u64, (old | (1 << k)) as u64) as u8;
                }
            }
        }
        let p = proposer(&$r.validators, &$r.randao_mixes, $r.slot, $c.max_effective_balance, &$c);
        $r.balances[p] += numerator / (56 * 64 / 8);
        same_state!($f, $s, $r, "participation and proposer reward");
        sym::cover(if current { "current epoch" } else { "previous epoch" });
        if flags[2] {
            sym::cover("timely head");
        }
    }};
}
macro_rules! flags {
    ($f:ident, $deneb:expr) => {{
        use harness::small::$f as m;
        let mut c = context();
        let mut s = m::BeaconState::default();
        setup!($f, s, c, 8);
        for _ in 0..8 {
            s.previous_epoch_participation.push(sym::range("flags", 0, 7) as u8);
            s.current_epoch_participation.push(sym::range("flags", 0, 7) as u8);
        }
        let mut a = m::Attestation::default();
        vote!(s, a, fault);
        a.data.index = if fault == COMMITTEE { sym::range("committee", 1, 1 << 40) as usize } else { 0 };
        let com = if a.data.slot / 4 <= EPOCH { committee(&s.validators, &s.randao_mixes, a.data.slot, 0, &c) } else { vec![] };
        let extra = if fault == LENGTH { sym::pick("bits", 0, 1) as usize * 2 } else { 1 };
        let b = bits(com.len() + extra - 1, fault);
        a.aggregation_bits = b.as_slice().try_into().unwrap();
        let mut r = s.clone();
        let ok = m::process_attestation(&mut s, &a, &c).is_ok();
        let mut want = timely(&a.data, r.slot, &r.current_justified_checkpoint, &r.previous_justified_checkpoint, !$deneb)
            && a.data.index == 0
            && extra == 1;
        let mut who: Vec<usize> = vec![];
        if want {
            who = com.iter().zip(&b).filter(|x| *x.1).map(|x| *x.0).collect();
            want = signed_by!(r, who, a);
        }
        sym::check(ok == want, "an attestation is accepted exactly when it is valid");
        if ok {
            rewarded!($f, s, r, c, a, who, $deneb);
        } else {
            sym::cover("refused");
        }
    }};
}
/// From electra on an attestation covers several committees.
fn committees() {
    use harness::small::electra as m;
    let mut c = context();
    c.target_committee_size = 1;
    c.max_committees_per_slot = 2;
    let mut s = m::BeaconState::default();
    // committees of one and of two
    setup!(electra, s, c, 13);
    for i in 0..13u8 {
        let known = i % 3 != 0;
        s.previous_epoch_participation.push(if known { i % 8 } else { sym::range("flags", 0, 7) as u8 });
        s.current_epoch_participation.push(if known { 7 - i % 8 } else { sym::range("flags", 0, 7) as u8 });
    }
    let mut a = m::Attestation::default();
    vote!(s, a, fault);
    a.data.index = if fault == COMMITTEE { sym::range("index", 0, 1 << 40) as usize } else { 0 };
    let mut com = vec![];
    let chosen = if fault == FINE { sym::pick("committees", 0, 3) } else { 2 + 2 * sym::pick("committees", 0, 1) };
    for k in 0..3 {
        if chosen >> k & 1 == 1 {
            a.committee_bits.set(k, true);
            if k < 2 && a.data.slot / 4 <= EPOCH {
                com.extend(committee(&s.validators, &s.randao_mixes, a.data.slot, k as u64, &c));
            }
        }
    }
    let extra = if fault == LENGTH { sym::pick("bits", 0, 1) as usize * 2 } else { 1 };
    sym::assume(com.len() + extra > 0);
    let b = bits(com.len() + extra - 1, fault);
    a.aggregation_bits = b.as_slice().try_into().unwrap();
    let mut r = s.clone();
    let ok = m::process_attestation(&mut s, &a, &c).is_ok();
    let mut want = timely(&a.data, r.slot, &r.current_justified_checkpoint, &r.previous_justified_checkpoint, false)
        && a.data.index == 0
        && chosen < 4
        && extra == 1;
    let mut who: Vec<usize> = vec![];
    if want {
        who = com.iter().zip(&b).filter(|x| *x.1).map(|x| *x.0).collect();
        want = signed_by!(r, who, a);
    }
    sym::check(ok == want, "an attestation is accepted exactly when it is valid");
    if ok {
        rewarded!(electra, s, r, c, a, who, true);
        if chosen == 3 {
            sym::cover("two committees");
        }
    } else {
        sym::cover("refused");
    }
}
sym::harness! {
    fn h_pending_phase0() { pending() }
    fn h_flags_altair() { flags!(altair, false) }
    fn h_flags_bellatrix() { flags!(bellatrix, false) }
    fn h_flags_capella() { flags!(capella, false) }
    fn h_flags_deneb() { flags!(deneb, true) }
    fn h_committees_electra() { committees() }
}
