//! C15: deposits.
#![no_main]
use ethereum_consensus::phase0::Deposit;
use harness::refs::*;
use harness::*;

macro_rules! proven {
    ($f:ident) => {{
        use harness::small::$f as m;
        free_signatures();
        let c = context();
        let mut s = m::BeaconState::default();
        s.slot = 29;
        for i in 0..2u8 {
            let mut v = active_validator(i);
            strange(&mut v);
            s.validators.push(v);
            s.balances.push(33 * GWEI);
        }
        s.eth1_deposit_index = [0, 5, (1 << 32) - 1][sym::pick("deposit index", 0, 2) as usize];
        let mut d = Deposit::default();
        d.data.public_key = key(sym::pick("key", 1, 2) as u8);
        d.data.withdrawal_credentials = bytes32(1);
        d.data.amount = 5 * GWEI;
        d.data.signature[0] = 1;
        for i in 0..33u8 {
            d.proof[i as usize] = root(i + 100);
        }
        // one step of the proof is arbitrary
        let at = [0, 20, 31, 32][sym::pick("step", 0, 3) as usize];
        d.proof[at] = any_root("step");
        let mut v = merkle(
            &[
                key_root(d.data.public_key.as_ref()),
                chunk(d.data.withdrawal_credentials.as_ref()),
                num(d.data.amount),
                signature_root(d.data.signature.as_ref()),
            ],
            2,
        );
        for i in 0..33 {
            let n = &d.proof[i];
            v = if i < 32 && s.eth1_deposit_index >> i & 1 == 1 { pair(n.as_ref(), &v) } else { pair(&v, n.as_ref()) };
        }
        s.eth1_data.deposit_root = if sym::pick_bool("proven") { Root::try_from(v.as_ref()).unwrap() } else { any_root("deposit root") };
        harness::with_flags!($f, s, 2);
        let mut r = s.clone();
        let ok = m::process_deposit(&mut s, &d, &c).is_ok();
        let want = sym::eq_bytes(s.eth1_data.deposit_root.as_ref(), &v);
        sym::check(ok == want, "a deposit is accepted exactly when it is proven");
        if ok {
            sym::cover("proven");
            r.eth1_deposit_index += 1;
            m::apply_deposit(&mut r, &d.data.public_key, &d.data.withdrawal_credentials, d.data.amount, &d.data.signature, &c).unwrap();
            same_state!($f, s, r, "proven deposit");
        } else {
            sym::cover("not proven");
        }
    }};
}
macro_rules! deposit {
    ($f:ident, |$s:ident, $r:ident, $c:ident, $d:ident, $valid:ident| $push:expr, $known:expr) => {{
        use harness::small::$f as m;
        free_signatures();
        let mut $c = context();
        $c.genesis_fork_version = [7, 6, 5, 4];
        let mut s = m::BeaconState::default();
        s.slot = 29;
        s.fork.current_version = [1, 1, 1, 1];
        s.genesis_validators_root = root(3);
        for i in 0..3u8 {
            let mut v = active_validator(i);
            strange(&mut v);
            v.withdrawal_credentials = bytes32(i);
            // of a known key, any credentials
            v.withdrawal_credentials[0] = if i == 1 { sym::pick("credentials", 0, 2) as u8 } else { 0 };
            s.validators.push(v);
            s.balances.push(sym::range("balance", 0, 1 << 60));
        }
        s.eth1_deposit_index = sym::any_u64("deposit index");
        let mut $d = Deposit::default();
        let who = sym::pick("key", 0, 2) as u8;
        $d.data.public_key = key([1, 2, 9][who as usize]);
        $d.data.withdrawal_credentials = any_bytes32("credentials");
        $d.data.withdrawal_credentials[0] = sym::pick("kind", 0, 2) as u8;
        $d.data.amount = sym::range("amount", 0, 1 << 60);
        $d.data.signature = any_signature("signature");
        harness::with_flags!($f, s, 3);
        let mut $r = s.clone();
        let ok = m::apply_deposit(&mut s, &$d.data.public_key, &$d.data.withdrawal_credentials, $d.data.amount, &$d.data.signature, &$c).is_ok();
        sym::check(ok, "a proven deposit is never an error");
        let object = merkle(&[key_root($d.data.public_key.as_ref()), chunk($d.data.withdrawal_credentials.as_ref()), num($d.data.amount)], 2);
        let $valid = || signed(&[&$d.data.public_key], &object, &domain_of(3, &[7, 6, 5, 4], &[0; 32]), &$d.data.signature);
        let $s = &s;
        if who < 2 {
            let known: fn(&mut m::BeaconState, usize, u64, bool, &dyn Fn() -> bool) = $known;
            known(&mut $r, who as usize + 1, $d.data.amount, $d.data.withdrawal_credentials[0] == 2, &$valid);
            sym::cover("known key");
        } else if $valid() {
            sym::cover("new key");
            $push
        } else {
            sym::cover("invalid signature");
        }
        same_state!($f, $s, $r, "deposit");
    }};
}
macro_rules! new_validator {
    ($r:ident, $c:ident, $d:ident) => {
        let mut v = Validator::default();
        v.public_key = $d.data.public_key.clone();
        v.withdrawal_credentials = $d.data.withdrawal_credentials.clone();
        let down = $d.data.amount - $d.data.amount % $c.effective_balance_increment;
        v.effective_balance = std::cmp::min(down, $c.max_effective_balance);
        v.activation_eligibility_epoch = FAR;
        v.activation_epoch = FAR;
        v.exit_epoch = FAR;
        v.withdrawable_epoch = FAR;
        v.slashed = false;
        $r.validators.push(v);
    };
}
macro_rules! old {
    ($f:ident) => {
        deposit!($f, |s, r, c, d, valid| {
            new_validator!(r, c, d);
            r.balances.push(d.data.amount);
            harness::push_flags!($f, r);
        }, |r, i, amount, _, _| r.balances[i] += amount)
    };
}
fn pending(index: usize, amount: u64) -> ethereum_consensus::electra::PendingBalanceDeposit {
    let mut p = ethereum_consensus::electra::PendingBalanceDeposit::default();
    p.index = index;
    p.amount = amount;
    p
}
sym::harness! {
    fn h_proven_phase0() { proven!(phase0) }
    fn h_proven_capella() { proven!(capella) }
    fn h_proven_electra() { proven!(electra) }
    fn h_deposit_phase0() { old!(phase0) }
    fn h_deposit_altair() { old!(altair) }
    fn h_deposit_bellatrix() { old!(bellatrix) }
    fn h_deposit_deneb() { old!(deneb) }
    fn h_deposit_electra() {
        deposit!(electra, |s, r, c, d, valid| {
            new_validator!(r, c, d);
            r.validators[3].effective_balance = 0;
            r.balances.push(0);
            harness::push_flags!(electra, r);
            r.pending_balance_deposits.push(pending(3, d.data.amount));
        }, |r, i, amount, compounding, valid| {
            r.pending_balance_deposits.push(pending(i, amount));
            if compounding && r.validators[i].withdrawal_credentials[0] == 1 && valid() {
                r.validators[i].withdrawal_credentials[0] = 2;
                sym::cover("switched to compounding");
                if r.balances[i] > 32 * GWEI {
                    let excess = r.balances[i] - 32 * GWEI;
                    r.balances[i] = 32 * GWEI;
                    r.pending_balance_deposits.push(pending(i, excess));
                }
            }
        })
    }
}
