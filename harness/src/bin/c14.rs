//! C14: evidence for slashing.
#![no_main]
use ethereum_consensus::phase0::{AttestationData, BeaconBlockHeader, ProposerSlashing};
use harness::refs::*;
use harness::*;

const EPOCH: u64 = 7;
macro_rules! setup {
    ($s:ident, $c:ident, $two:expr) => {
        free_signatures();
        $c.shuffle_round_count = 1;
        $s.slot = 4 * EPOCH + 1;
        $s.fork.epoch = 7;
        $s.fork.previous_version = [1, 0, 0, 9];
        $s.fork.current_version = [2, 0, 0, 9];
        $s.genesis_validators_root = root(3);
        for i in 0..3u8 {
            let mut v = active_validator(i);
            v.withdrawal_credentials = any_bytes32("withdrawal credentials");
            v.activation_eligibility_epoch = sym::any_u64("eligibility");
            // the first is there to propose
            if i > 0 {
                match sym::pick("standing", 0, if i == 1 { 4 } else { $two }) {
                    1 => v.slashed = true,
                    2 => {
                        v.activation_epoch = EPOCH + 1;
                    }
                    3 => v.activation_epoch = EPOCH,
                    4 => {
                        v.exit_epoch = 5;
                        v.withdrawable_epoch = EPOCH + sym::pick("withdrawable", 0, 1);
                    }
                    _ => {}
                }
            }
            $s.validators.push(v);
            $s.balances.push(32 * GWEI);
        }
    };
}
fn slashable(v: &Validator) -> bool {
    !v.slashed && v.activation_epoch <= EPOCH && EPOCH < v.withdrawable_epoch
}
fn eq_header(a: &BeaconBlockHeader, b: &BeaconBlockHeader) -> bool {
    (a.slot == b.slot)
        & (a.proposer_index == b.proposer_index)
        & sym::eq_bytes(a.parent_root.as_ref(), b.parent_root.as_ref())
        & sym::eq_bytes(a.state_root.as_ref(), b.state_root.as_ref())
        & sym::eq_bytes(a.body_root.as_ref(), b.body_root.as_ref())
}
macro_rules! proposer {
    ($f:ident) => {{
        use harness::small::$f as m;
        let mut c = context();
        let mut s = m::BeaconState::default();
        setup!(s, c, 0);
        let mut op = ProposerSlashing::default();
        let h = &mut op.signed_header_1.message;
        h.slot = [0, 4 * EPOCH - 1, 4 * EPOCH, 1 << 40][sym::pick("slot", 0, 3) as usize];
        h.proposer_index = sym::pick("proposer", 0, 2) as usize * 2 + 1;
        h.parent_root = root(1);
        h.state_root = root(2);
        h.body_root = root(3);
        let mut g = h.clone();
        match sym::pick("difference", 0, 4) {
            0 => g.slot = sym::any_u64("slot"),
            1 => g.proposer_index = sym::any_usize("proposer"),
            2 => g.parent_root = any_root("parent"),
            3 => g.state_root = any_root("state"),
            _ => g.body_root = any_root("body"),
        }
        op.signed_header_2.message = g;
        op.signed_header_1.signature = any_signature("signature");
        op.signed_header_2.signature = any_signature("signature");
        let mut r = s.clone();
        let ok = m::process_proposer_slashing(&mut s, &op, &c).is_ok();
        let (a, b) = (&op.signed_header_1, &op.signed_header_2);
        let i = a.message.proposer_index;
        let mut want = (a.message.slot == b.message.slot) & (i == b.message.proposer_index) & !eq_header(&a.message, &b.message);
        if want {
            want = i < 3 && slashable(&r.validators[i]);
        }
        if want {
            let d = domain(0, &r.fork, a.message.slot / 4, &r.genesis_validators_root);
            let k = &r.validators[i].public_key;
            want = signed(&[k], &header_root(&a.message), &d, &a.signature) && signed(&[k], &header_root(&b.message), &d, &b.signature);
        }
        sym::check(ok == want, "a proposer slashing is accepted exactly when the evidence is valid");
        if ok {
            m::slash_validator(&mut r, i, None, &c).unwrap();
            same_state!($f, s, r, "slashed");
            sym::cover("slashed");
        } else {
            sym::cover("refused");
        }
    }};
}
fn any_data() -> AttestationData {
    let mut d = AttestationData::default();
    d.slot = sym::any_u64("slot");
    d.index = sym::any_usize("index");
    d.beacon_block_root = any_root("block");
    d.source.epoch = sym::any_u64("source epoch");
    d.source.root = any_root("source");
    d.target.epoch = sym::any_u64("target epoch");
    d.target.root = any_root("target");
    d
}
fn conflict(a: &AttestationData, b: &AttestationData) -> bool {
    let same = (a.slot == b.slot)
        & (a.index == b.index)
        & sym::eq_bytes(a.beacon_block_root.as_ref(), b.beacon_block_root.as_ref())
        & (a.source.epoch == b.source.epoch)
        & sym::eq_bytes(a.source.root.as_ref(), b.source.root.as_ref())
        & (a.target.epoch == b.target.epoch)
        & sym::eq_bytes(a.target.root.as_ref(), b.target.root.as_ref());
    (!same & (a.target.epoch == b.target.epoch)) | ((a.source.epoch < b.source.epoch) & (b.target.epoch < a.target.epoch))
}
macro_rules! data {
    ($f:ident) => {{
        use harness::small::$f as m;
        let (a, b) = (any_data(), any_data());
        let got = m::is_slashable_attestation_data(&a, &b);
        sym::check(got == conflict(&a, &b), "double and surround votes, and nothing else, are slashable");
        sym::cover("end");
    }};
}
macro_rules! predicate {
    ($f:ident) => {{
        use harness::small::$f as m;
        let mut v = active_validator(0);
        v.slashed = sym::any_bool("slashed");
        v.activation_epoch = sym::any_u64("activation");
        v.withdrawable_epoch = sym::any_u64("withdrawable");
        v.exit_epoch = sym::any_u64("exit");
        let e = sym::any_u64("epoch");
        let want = !v.slashed & (v.activation_epoch <= e) & (e < v.withdrawable_epoch);
        sym::check(m::is_slashable_validator(&v, e) == want, "who can be slashed");
        sym::cover("end");
    }};
}
const LISTS: [&[usize]; 9] = [&[0, 1, 2], &[1, 2], &[1], &[2], &[], &[2, 1], &[1, 1], &[1, 3], &[0]];
macro_rules! attester {
    ($f:ident) => {{
        use harness::small::$f as m;
        let mut c = context();
        let mut s = m::BeaconState::default();
        setup!(s, c, 1);
        let mut op = m::AttesterSlashing::default();
        sym::merge(false);
        // votes: the same, a double vote, surrounding, surrounded
        let kind = sym::pick("votes", 0, 3);
        for (n, a) in [&mut op.attestation_1, &mut op.attestation_2].into_iter().enumerate() {
            a.data.source.epoch = 4;
            a.data.target.epoch = 7;
            a.data.target.root = root(1);
            match kind {
                1 => a.data.beacon_block_root = root(n as u8),
                2 if n == 1 => {
                    a.data.source.epoch = 5;
                    a.data.target.epoch = 6
                }
                3 if n == 0 => {
                    a.data.source.epoch = 5;
                    a.data.target.epoch = 6
                }
                _ => {}
            }
            a.signature = any_signature("signature");
        }
        let first = sym::pick("first", 0, 8) as usize;
        let second = sym::pick("second", 0, 8) as usize;
        // one odd list at a time
        sym::assume(first < 3 && second < 3 || first == 1 || second == 1);
        op.attestation_1.attesting_indices = LISTS[first].to_vec().try_into().unwrap();
        op.attestation_2.attesting_indices = LISTS[second].to_vec().try_into().unwrap();
        let mut r = s.clone();
        let ok = m::process_attester_slashing(&mut s, &op, &c).is_ok();
        let mut want = kind == 1 || kind == 2;
        for a in [&op.attestation_1, &op.attestation_2] {
            let l = &a.attesting_indices;
            want = want && !l.is_empty() && l.windows(2).all(|p| p[0] < p[1]) && l.iter().all(|i| *i < 3);
            if want {
                let d = domain(1, &r.fork, a.data.target.epoch, &r.genesis_validators_root);
                let k: Vec<_> = l.iter().map(|i| &r.validators[*i].public_key).collect();
                want = signed(&k, &attestation_data_root(&a.data), &d, &a.signature);
            }
        }
        let both: Vec<usize> = LISTS[first].iter().filter(|i| LISTS[second].contains(i)).cloned().filter(|i| *i < 3 && slashable(&r.validators[*i])).collect();
        want = want && !both.is_empty();
        sym::check(ok == want, "an attester slashing is accepted exactly when the evidence is valid");
        if ok {
            for i in &both {
                m::slash_validator(&mut r, *i, None, &c).unwrap();
            }
            same_state!($f, s, r, "slashed");
            sym::cover(if both.len() > 1 { "several" } else { "one" });
        } else {
            sym::cover("refused");
        }
    }};
}
sym::harness! {
    fn h_proposer_phase0() { proposer!(phase0) }
    fn h_proposer_altair() { proposer!(altair) }
    fn h_proposer_bellatrix() { proposer!(bellatrix) }
    fn h_proposer_electra() { proposer!(electra) }
    fn h_data_phase0() { data!(phase0) }
    fn h_data_electra() { data!(electra) }
    fn h_predicate_phase0() { predicate!(phase0) }
    fn h_predicate_electra() { predicate!(electra) }
    fn h_attester_phase0() { attester!(phase0) }
    fn h_attester_deneb() { attester!(deneb) }
    fn h_attester_electra() { attester!(electra) }
}
