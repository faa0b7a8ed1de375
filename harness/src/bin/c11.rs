//! C11: housekeeping at the end of an epoch.
#![no_main]
use harness::*;

fn valid_keys() {
    blst::ENCODINGS_VALID.store(true, std::sync::atomic::Ordering::Relaxed);
}
/// The new effective balance of one validator.
fn effective(balance: u64, old: u64, cap: u64, c: &Context) -> u64 {
    let step = c.effective_balance_increment / c.hysteresis_quotient;
    let moved = (balance + step * c.hysteresis_downward_multiplier < old) | (old + step * c.hysteresis_upward_multiplier < balance);
    let down = balance - balance % c.effective_balance_increment;
    let new = sym::ite(down < cap, down, cap);
    sym::ite(moved, new, old)
}
macro_rules! effective {
    ($f:ident, $cap:expr) => {{
        use harness::small::$f as m;
        let c = context();
        let mut s = m::BeaconState::default();
        s.slot = 4 * sym::range("epoch", 0, 1 << 40) + 3;
        for i in 0..3u8 {
            let mut v = active_validator(i);
            let kind = sym::pick("credentials", 0, 2) as u8;
            v.withdrawal_credentials = Bytes32::try_from([i; 32].as_ref()).unwrap();
            v.withdrawal_credentials[0] = kind;
            v.slashed = sym::any_bool("slashed");
            v.activation_eligibility_epoch = sym::any_u64("eligibility");
            v.activation_epoch = sym::any_u64("activation");
            v.withdrawable_epoch = sym::any_u64("withdrawable");
            v.exit_epoch = epoch_or_far("exit", 1 << 40);
            v.effective_balance = sym::range("effective", 0, 4096) * GWEI;
            s.validators.push(v);
            s.balances.push(sym::range("balance", 0, 1 << 62));
        }
        let mut r = s.clone();
        m::process_effective_balance_updates(&mut s, &c);
        for i in 0..3 {
            let kind = r.validators[i].withdrawal_credentials[0];
            let cap: fn(&Context, u8) -> u64 = $cap;
            let e = effective(r.balances[i], r.validators[i].effective_balance, cap(&c, kind), &c);
            sym::check(s.validators[i].effective_balance == e, "effective balance");
            r.validators[i].effective_balance = s.validators[i].effective_balance;
        }
        same_state!($f, s, r, "only effective balances change");
        sym::cover("end");
    }};
}
macro_rules! resets {
    ($f:ident) => {{
        use harness::small::$f as m;
        let mut c = context();
        c.epochs_per_eth1_voting_period = 3;
        let mut s = m::BeaconState::default();
        let epoch = sym::pick("epoch", 0, 25);
        s.slot = 4 * epoch + sym::range("slot in epoch", 0, 3);
        for i in 0..s.randao_mixes.len() {
            s.randao_mixes[i] = any_bytes32("mix");
        }
        for i in 0..s.slashings.len() {
            s.slashings[i] = sym::any_u64("slashed");
        }
        for n in 0..sym::pick("votes", 0, 2) {
            let mut d = s.eth1_data.clone();
            d.deposit_count = n;
            s.eth1_data_votes.push(d);
        }
        let mut r = s.clone();
        m::process_eth1_data_reset(&mut s, &c);
        if (epoch + 1) % 3 == 0 {
            r.eth1_data_votes = Default::default();
            sym::cover("votes cleared");
        }
        same_state!($f, s, r, "eth1 data reset");
        m::process_slashings_reset(&mut s, &c);
        r.slashings[((epoch + 1) % 4) as usize] = 0;
        same_state!($f, s, r, "slashings reset");
        m::process_randao_mixes_reset(&mut s, &c);
        r.randao_mixes[((epoch + 1) % 8) as usize] = r.randao_mixes[(epoch % 8) as usize].clone();
        same_state!($f, s, r, "mixes reset");
        sym::cover("end");
    }};
}
fn pair(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut d = a.to_vec();
    d.extend_from_slice(b);
    sym::sha256(&d).to_vec()
}
fn merkle(leaves: &[Root]) -> Vec<u8> {
    let mut l: Vec<Vec<u8>> = leaves.iter().map(|r| r.as_ref().to_vec()).collect();
    while l.len() > 1 {
        l = l.chunks(2).map(|p| pair(&p[0], &p[1])).collect();
    }
    l.pop().unwrap()
}
fn as_root(b: &[u8]) -> Root {
    Root::try_from(b).unwrap()
}
macro_rules! history {
    ($f:ident, $process:ident, |$r:ident, $b:ident, $t:ident| $push:expr) => {{
        use harness::small::$f as m;
        let c = context();
        let mut s = m::BeaconState::default();
        let k = sym::pick("epoch in history", 0, 3);
        let epoch = 4 * sym::range("histories", 0, 1 << 40) + k;
        s.slot = 4 * epoch + 3;
        for i in 0..16u8 {
            s.block_roots[i as usize] = if i % 5 == 0 { any_root("block root") } else { root(i) };
            s.state_roots[i as usize] = if i % 7 == 0 { any_root("state root") } else { root(i + 40) };
        }
        let mut $r = s.clone();
        m::$process(&mut s, &c).unwrap();
        if k == 3 {
            let ($b, $t) = (merkle(&$r.block_roots), merkle(&$r.state_roots));
            $push
        }
        same_state!($f, s, $r, "history");
        sym::cover(if k == 3 { "recorded" } else { "not yet" });
    }};
}
macro_rules! roots {
    ($f:ident) => {
        history!($f, process_historical_roots_update, |r, b, t| r.historical_roots.push(as_root(&pair(&b, &t))))
    };
}
macro_rules! summaries {
    ($f:ident) => {
        history!($f, process_historical_summaries_update, |r, b, t| {
            let mut h = ethereum_consensus::capella::HistoricalSummary::default();
            h.block_summary_root = as_root(&b);
            h.state_summary_root = as_root(&t);
            r.historical_summaries.push(h)
        })
    };
}
fn records() {
    use harness::small::phase0 as m;
    let mut s = m::BeaconState::default();
    for (n, l) in [&mut s.previous_epoch_attestations, &mut s.current_epoch_attestations].into_iter().enumerate() {
        for i in 0..sym::pick("attestations", 0, 2) {
            let mut a = m::PendingAttestation::default();
            a.inclusion_delay = sym::any_u64("delay");
            a.proposer_index = 10 * n + i as usize;
            l.push(a);
        }
    }
    let mut r = s.clone();
    m::process_participation_record_updates(&mut s);
    r.previous_epoch_attestations = r.current_epoch_attestations.clone();
    r.current_epoch_attestations = Default::default();
    same_state!(phase0, s, r, "attestations move to the previous epoch");
    sym::cover("end");
}
macro_rules! participation {
    ($f:ident) => {{
        use harness::small::$f as m;
        let mut s = m::BeaconState::default();
        let n = sym::pick("validators", 0, 4);
        for i in 0..n {
            s.validators.push(active_validator(i as u8));
            s.previous_epoch_participation.push(sym::any_u8("flags"));
            s.current_epoch_participation.push(sym::any_u8("flags"));
        }
        let mut r = s.clone();
        m::process_participation_flag_updates(&mut s).unwrap();
        r.previous_epoch_participation = r.current_epoch_participation.clone();
        for i in 0..n as usize {
            r.current_epoch_participation[i] = 0;
        }
        same_state!($f, s, r, "flags move to the previous epoch");
        sym::cover("end");
    }};
}
macro_rules! committees {
    ($f:ident) => {{
        use harness::small::$f as m;
        let mut c = context();
        valid_keys();
        c.epochs_per_sync_committee_period = 3;
        let mut s = m::BeaconState::default();
        let k = sym::pick("epoch in period", 0, 2);
        s.slot = 4 * (3 * sym::pick("periods", 0, 2) + k) + 3;
        s.validators.push(active_validator(0));
        s.validators.push(active_validator(1));
        for i in 0..4u8 {
            s.current_sync_committee.public_keys[i as usize] = key(i + 10);
            s.next_sync_committee.public_keys[i as usize] = key(i + 20);
        }
        s.current_sync_committee.aggregate_public_key = key(30);
        s.next_sync_committee.aggregate_public_key = key(31);
        let mut r = s.clone();
        m::process_sync_committee_updates(&mut s, &c).unwrap();
        if k == 2 {
            let next = m::get_next_sync_committee(&r, &c).unwrap();
            r.current_sync_committee = r.next_sync_committee.clone();
            r.next_sync_committee = next;
        }
        same_state!($f, s, r, "sync committees");
        sym::cover(if k == 2 { "period ends" } else { "within a period" });
    }};
}
/// The whole epoch transition is its parts in the specified order.
macro_rules! epoch_state {
    ($f:ident, $s:ident, $c:ident) => {
        valid_keys();
        $c.epochs_per_eth1_voting_period = 4;
        $c.epochs_per_sync_committee_period = 4;
        $c.shuffle_round_count = 1;
        let epoch = 7u64;
        $s.slot = 4 * epoch + 3;
        for i in 0..16u8 {
            $s.block_roots[i as usize] = root(i);
            $s.state_roots[i as usize] = root(i + 40);
        }
        for i in 0..8u8 {
            $s.randao_mixes[i as usize] = Bytes32::try_from([i; 32].as_ref()).unwrap();
        }
        for i in 0..4u64 {
            $s.slashings[i as usize] = (i + 1) * GWEI;
        }
        // what was finalized before decides whether there is a leak and who may be activated
        $s.finalized_checkpoint.epoch = sym::pick("finalized", 0, 1) * 5;
        $s.current_justified_checkpoint.epoch = 6;
        $s.previous_justified_checkpoint.epoch = 5;
        $s.justification_bits.set(0, true);
        $s.justification_bits.set(1, true);
        $s.eth1_data_votes.push(Default::default());
        for i in 0..5u8 {
            let mut v = active_validator(i);
            match i {
                // about to be slashed for real, in the middle of its window
                1 => {
                    v.slashed = true;
                    v.exit_epoch = 6;
                    v.withdrawable_epoch = epoch + 2;
                }
                // to be ejected only in the next epoch
                2 => v.effective_balance = 17 * GWEI,
                // in the activation queue
                3 => {
                    v.activation_eligibility_epoch = 6;
                    v.activation_epoch = FAR;
                }
                4 => {
                    v.activation_eligibility_epoch = FAR;
                    v.activation_epoch = FAR;
                }
                _ => {}
            }
            $s.validators.push(v);
            // near the edge where the effective balance changes
            $s.balances.push(sym::range("balance", 31, 34) * (GWEI / 4) + 24 * GWEI * (i != 2) as u64);
        }
    };
}
macro_rules! in_order {
    ($f:ident, $s:ident, $c:ident; $( ($($p:tt)*) ),*) => {{
        let mut r = $s.clone();
        m::process_epoch(&mut $s, &$c).unwrap();
        $( in_order!(step r, $c, $($p)*); )*
        same_state!($f, $s, r, "epoch transition");
        sym::cover("end");
    }};
    (step $r:ident, $c:ident, $p:ident ?) => { m::$p(&mut $r, &$c).unwrap(); };
    (step $r:ident, $c:ident, $p:ident) => { m::$p(&mut $r, &$c); };
    (step $r:ident, $c:ident, $p:ident !) => { m::$p(&mut $r).unwrap(); };
    (step $r:ident, $c:ident, $p:ident .) => { m::$p(&mut $r); };
}
fn epoch_phase0() {
    use harness::small::phase0 as m;
    let mut c = context();
    let mut s = m::BeaconState::default();
    epoch_state!(phase0, s, c);
    for (slot, previous) in [(4 * 6, true), (4 * 6 + 2, true), (4 * 7, false), (4 * 7 + 1, false)] {
        let mut a = m::PendingAttestation::default();
        a.data.slot = slot;
        a.data.target.epoch = slot / 4;
        a.data.target.root = root((slot / 4 * 4 % 16) as u8);
        a.data.beacon_block_root = root((slot % 16) as u8);
        a.inclusion_delay = 1;
        let n = harness::refs::committee(&s.validators, &s.randao_mixes, slot, 0, &c).len();
        a.aggregation_bits = vec![true; n].as_slice().try_into().unwrap();
        if previous { s.previous_epoch_attestations.push(a) } else { s.current_epoch_attestations.push(a) }
    }
    in_order!(phase0, s, c; (process_justification_and_finalization ?), (process_rewards_and_penalties ?),
        (process_registry_updates ?), (process_slashings ?), (process_eth1_data_reset),
        (process_effective_balance_updates), (process_slashings_reset), (process_randao_mixes_reset),
        (process_historical_roots_update ?), (process_participation_record_updates .));
}
macro_rules! epoch {
    ($f:ident, $history:ident, |$s:ident| $init:expr, $($mid:tt),*) => {{
        use harness::small::$f as m;
        let mut c = context();
        let mut s = m::BeaconState::default();
        epoch_state!($f, s, c);
        for i in 0..5u8 {
            s.previous_epoch_participation.push([7, 3, 2, 0, 0][i as usize]);
            s.current_epoch_participation.push([7, 2, 0, 0, 0][i as usize]);
            s.inactivity_scores.push(i as u64 + 3);
        }
        let $s = &mut s;
        $init;
        in_order!($f, s, c; (process_justification_and_finalization ?), (process_inactivity_updates ?),
            (process_rewards_and_penalties ?), (process_registry_updates ?), (process_slashings ?),
            (process_eth1_data_reset), $($mid,)*
            (process_effective_balance_updates), (process_slashings_reset), (process_randao_mixes_reset),
            ($history ?), (process_participation_flag_updates !), (process_sync_committee_updates ?));
    }};
    ($f:ident, $history:ident) => {{
        use harness::small::$f as m;
        let mut c = context();
        let mut s = m::BeaconState::default();
        epoch_state!($f, s, c);
        for i in 0..5u8 {
            s.previous_epoch_participation.push([7, 3, 2, 0, 0][i as usize]);
            s.current_epoch_participation.push([7, 2, 0, 0, 0][i as usize]);
            s.inactivity_scores.push(i as u64 + 3);
        }
        in_order!($f, s, c; (process_justification_and_finalization ?), (process_inactivity_updates ?),
            (process_rewards_and_penalties ?), (process_registry_updates ?), (process_slashings ?),
            (process_eth1_data_reset),
            (process_effective_balance_updates), (process_slashings_reset), (process_randao_mixes_reset),
            ($history ?), (process_participation_flag_updates !), (process_sync_committee_updates ?));
    }};
}
fn old_cap(c: &Context, _: u8) -> u64 {
    c.max_effective_balance
}
fn electra_cap(c: &Context, kind: u8) -> u64 {
    if kind == 2 { c.max_effective_balance_electra } else { c.min_activation_balance }
}
sym::harness! {
    fn h_effective_phase0() { effective!(phase0, old_cap) }
    fn h_effective_deneb() { effective!(deneb, old_cap) }
    fn h_effective_electra() { effective!(electra, electra_cap) }
    fn h_resets_phase0() { resets!(phase0) }
    fn h_resets_capella() { resets!(capella) }
    fn h_resets_electra() { resets!(electra) }
    fn h_history_phase0() { roots!(phase0) }
    fn h_history_bellatrix() { roots!(bellatrix) }
    fn h_history_capella() { summaries!(capella) }
    fn h_history_electra() { summaries!(electra) }
    fn h_records_phase0() { records() }
    fn h_participation_altair() { participation!(altair) }
    fn h_participation_electra() { participation!(electra) }
    fn h_committees_altair() { committees!(altair) }
    fn h_committees_deneb() { committees!(deneb) }
    fn h_epoch_phase0() { epoch_phase0() }
    fn h_epoch_altair() { epoch!(altair, process_historical_roots_update) }
    fn h_epoch_bellatrix() { epoch!(bellatrix, process_historical_roots_update) }
    fn h_epoch_capella() { epoch!(capella, process_historical_summaries_update) }
    fn h_epoch_deneb() { epoch!(deneb, process_historical_summaries_update) }
    fn h_epoch_electra() {
        epoch!(electra, process_historical_summaries_update, |s| {
            let mut d = ethereum_consensus::electra::PendingBalanceDeposit::default();
            d.index = 1;
            d.amount = 3 * GWEI;
            s.pending_balance_deposits.push(d);
            let mut p = ethereum_consensus::electra::PendingConsolidation::default();
            p.source_index = 1;
            p.target_index = 0;
            s.validators[1].withdrawable_epoch = 7;
            s.validators[1].slashed = false;
            s.balances[1] -= 20 * GWEI;
            s.validators[0].withdrawal_credentials[0] = 2;
            s.pending_consolidations.push(p);
        }, (process_pending_balance_deposits ?), (process_pending_consolidations ?))
    }
}
