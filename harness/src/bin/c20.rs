//! C20: changes from BLS to execution withdrawal credentials.
#![no_main]
use ethereum_consensus::capella::SignedBlsToExecutionChange;
use harness::refs::*;
use harness::*;

macro_rules! change {
    ($f:ident) => {{
        use harness::small::$f as m;
        free_signatures();
        let mut c = context();
        c.genesis_fork_version = [7, 6, 5, 4];
        let mut s = m::BeaconState::default();
        s.slot = sym::any_u64("slot");
        s.fork.epoch = sym::any_u64("fork epoch");
        s.fork.previous_version = [1, 0, 0, 9];
        s.fork.current_version = [2, 0, 0, 9];
        s.genesis_validators_root = root(3);
        for i in 0..3u8 {
            let mut v = active_validator(i);
            strange(&mut v);
            v.withdrawal_credentials = bytes32(i);
            s.validators.push(v);
            s.balances.push(sym::any_u64("balance"));
        }
        let mut op = SignedBlsToExecutionChange::default();
        let i = [0usize, 2, 3, usize::MAX][sym::pick("index", 0, 3) as usize];
        op.message.validator_index = i;
        op.message.from_bls_public_key = key(20);
        let a = sym::any_bytes::<20>("address");
        for k in 0..20 {
            op.message.to_execution_address[k] = a[k];
        }
        op.signature = any_signature("signature");
        let mut h = sym::sha256(key(20).as_ref());
        h[0] = sym::any_u8("prefix");
        // one odd byte anywhere in the credentials
        let odd = sym::pick("odd", 0, 31) as usize;
        if odd > 0 {
            h[odd] = sym::any_u8("credentials");
        }
        if i < 3 {
            s.validators[i].withdrawal_credentials = Bytes32::try_from(h.as_ref()).unwrap();
        }
        let mut r = s.clone();
        let ok = m::process_bls_to_execution_change(&mut s, &op, &c).is_ok();
        let mut want = i < 3;
        if want {
            let h = sym::sha256(key(20).as_ref());
            let w = &r.validators[i].withdrawal_credentials;
            want = (w[0] == 0) & sym::eq_bytes(&w.as_ref()[1..], &h[1..]);
        }
        if want {
            let object = merkle(&[num(i as u64), key_root(key(20).as_ref()), chunk(&a)], 2);
            want = signed(&[&key(20)], &object, &domain_of(10, &[7, 6, 5, 4], r.genesis_validators_root.as_ref()), &op.signature);
        }
        sym::check(ok == want, "a change is accepted exactly when the holder of the credentials signed it");
        if ok {
            let mut w = [0u8; 32];
            w[0] = 1;
            w[12..].copy_from_slice(&a);
            r.validators[i].withdrawal_credentials = Bytes32::try_from(w.as_ref()).unwrap();
            sym::cover("changed");
        } else {
            sym::cover("refused");
        }
        same_state!($f, s, r, "change");
    }};
}
sym::harness! {
    fn h_change_capella() { change!(capella) }
    fn h_change_deneb() { change!(deneb) }
    fn h_change_electra() { change!(electra) }
}
