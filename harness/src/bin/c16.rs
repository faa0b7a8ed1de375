//! C16: voluntary exits.
#![no_main]
use ethereum_consensus::phase0::SignedVoluntaryExit;
use harness::refs::*;
use harness::*;

// $pinned: whether the domain is always that of capella; $known: whether time is measured from the eligibility epoch
macro_rules! exit {
    ($f:ident, $pinned:expr, $known:expr, |$s:ident, $r:ident, $i:ident| $setup:expr, $pending:expr) => {{
        use harness::small::$f as m;
        free_signatures();
        let mut c = context();
        c.capella_fork_version = [3, 0, 0, 9];
        c.shard_committee_period = sym::range("shard committee period", 0, 1 << 16);
        let mut $s = m::BeaconState::default();
        let epoch = sym::range("epoch", 2, 1 << 24);
        $s.slot = epoch * c.slots_per_epoch + sym::range("slot in epoch", 0, 3);
        $s.fork.epoch = sym::any_u64("fork epoch");
        $s.fork.previous_version = [1, 0, 0, 9];
        $s.fork.current_version = [2, 0, 0, 9];
        $s.genesis_validators_root = root(3);
        let $i = [0usize, 1, 2, usize::MAX][sym::pick("index", 0, 3) as usize];
        for j in 0..2u8 {
            let mut v = active_validator(j);
            odd(&mut v);
            if j as usize == $i {
                v.activation_eligibility_epoch = sym::range("eligible", 0, 1 << 24);
                v.activation_epoch = epoch_or_far("activated", 1 << 24);
                v.exit_epoch = epoch_or_far("exit", 1 << 24);
            }
            $s.validators.push(v);
            $s.balances.push(32 * GWEI);
        }
        $setup;
        let mut op = SignedVoluntaryExit::default();
        op.message.validator_index = $i;
        op.message.epoch = sym::any_u64("epoch of the exit");
        op.signature = any_signature("signature");
        let mut $r = $s.clone();
        let ok = m::process_voluntary_exit(&mut $s, &op, &c).is_ok();
        let (mut want, mut deviant) = (false, false);
        if $i < 2 {
            let v = &$r.validators[$i];
            want = active(v, epoch) & (v.exit_epoch == FAR) & (op.message.epoch <= epoch) & $pending;
            deviant = want & (v.activation_eligibility_epoch + c.shard_committee_period <= epoch);
            want &= v.activation_epoch.wrapping_add(c.shard_committee_period) <= epoch;
            if want | deviant {
                let d = if $pinned {
                    domain_of(4, &[3, 0, 0, 9], $r.genesis_validators_root.as_ref())
                } else {
                    domain(4, &$r.fork, op.message.epoch, &$r.genesis_validators_root)
                };
                let good = signed(&[&v.public_key], &pair(&num(op.message.epoch), &num($i as u64)), &d, &op.signature);
                want &= good;
                deviant &= good;
            }
        }
        if $known {
            sym::check(ok == deviant, "accepted exactly when the exit is valid, counting from eligibility");
            sym::check(ok == want, "KF an exit needs a shard committee period since activation");
        } else {
            sym::check(ok == want, "a voluntary exit is accepted exactly when it is valid");
        }
        if ok {
            m::initiate_validator_exit(&mut $r, $i, &c).unwrap();
            same_state!($f, $s, $r, "exit");
            sym::cover("exits");
        } else {
            sym::cover("refused");
        }
    }};
}
sym::harness! {
    fn h_exit_phase0() { exit!(phase0, false, false, |s, r, i| (), true) }
    fn h_exit_altair() { exit!(altair, false, true, |s, r, i| (), true) }
    fn h_exit_bellatrix() { exit!(bellatrix, false, true, |s, r, i| (), true) }
    fn h_exit_capella() { exit!(capella, false, true, |s, r, i| (), true) }
    fn h_exit_deneb() { exit!(deneb, true, false, |s, r, i| (), true) }
    fn h_exit_electra() {
        exit!(electra, true, false, |s, r, i| {
            for w in 0..2u8 {
                if sym::pick_bool("pending withdrawal") {
                    let mut p = ethereum_consensus::electra::PendingPartialWithdrawal::default();
                    p.index = sym::pick("of", 0, 1) as usize;
                    p.amount = sym::range("amount", 0, 1 << 50);
                    p.withdrawable_epoch = w as u64;
                    s.pending_partial_withdrawals.push(p);
                }
            }
        }, {
            let mut t = 0;
            for p in r.pending_partial_withdrawals.iter() {
                t += sym::ite(p.index == i, p.amount, 0);
            }
            t == 0
        })
    }
}
