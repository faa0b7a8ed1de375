//! C23: slots and the state transition.
#![no_main]
use harness::refs::*;
use harness::*;
use ethereum_consensus::state_transition::Validation;
use ssz_rs::prelude::*;

macro_rules! slot {
    ($f:ident) => {{
        use harness::small::$f as m;
        let c = context();
        let mut s = m::BeaconState::default();
        s.slot = sym::range("slot", 0, 1 << 40);
        for i in 0..16u8 {
            s.block_roots[i as usize] = root(i);
            s.state_roots[i as usize] = root(i + 20);
        }
        let h = &mut s.latest_block_header;
        h.slot = sym::any_u64("header slot");
        h.proposer_index = sym::any_usize("proposer");
        h.parent_root = any_root("parent");
        h.body_root = any_root("body");
        // zero apart from one byte
        let k = sym::pick("byte", 0, 31) as usize;
        h.state_root = {
            let mut r = [0u8; 32];
            r[k] = sym::any_u8("state root");
            Root::try_from(r.as_ref()).unwrap()
        };
        s.validators.push(active_validator(1));
        s.balances.push(32 * GWEI);
        harness::with_flags!($f, s, 1);
        let mut r = s.clone();
        m::process_slot(&mut s, &c).unwrap();
        let before = r.hash_tree_root().unwrap();
        let i = (r.slot % 16) as usize;
        r.state_roots[i] = before;
        if r.latest_block_header.state_root[k] == 0 {
            r.latest_block_header.state_root = before;
            sym::cover("first slot after a block");
        } else {
            sym::cover("later slot");
        }
        r.block_roots[i] = Root::try_from(header_root(&r.latest_block_header).as_ref()).unwrap();
        same_state!($f, s, r, "slot");
    }};
}
macro_rules! members {
    (phase0, $s:ident) => {};
    ($f:ident, $s:ident) => {
        $s.current_sync_committee.public_keys = (0..4u8).map(key).collect::<Vec<_>>().try_into().unwrap();
        $s.next_sync_committee.public_keys = (1..5u8).map(key).collect::<Vec<_>>().try_into().unwrap();
    };
}
macro_rules! scene {
    ($f:ident, $s:ident, $c:ident, $slot:expr) => {
        $c.shuffle_round_count = 1;
        $s.slot = $slot;
        $s.fork.epoch = 8;
        $s.fork.previous_version = [1, 0, 0, 9];
        $s.fork.current_version = [2, 0, 0, 9];
        $s.genesis_validators_root = root(3);
        for i in 0..8u8 {
            $s.randao_mixes[i as usize] = bytes32(i + 70);
        }
        for i in 0..5u8 {
            let mut v = active_validator(i);
            // leaves at the boundary
            if i == 4 {
                v.exit_epoch = 8;
            }
            $s.validators.push(v);
            $s.balances.push((31 + i as u64) * GWEI);
            harness::push_flags!($f, $s);
        }
        members!($f, $s);
    };
}
macro_rules! slots {
    ($f:ident) => {{
        use harness::small::$f as m;
        sym::merge(false);
        free_signatures();
        let mut c = context();
        let mut s = m::BeaconState::default();
        scene!($f, s, c, 24 + sym::pick("slot", 0, 4));
        let to = 23 + sym::pick("to", 0, 10);
        let mut r = s.clone();
        let ok = m::process_slots(&mut s, to, &c).is_ok();
        sym::check(ok == (to > r.slot), "only later slots are processed");
        if ok {
            for x in r.slot..to {
                m::process_slot(&mut r, &c).unwrap();
                if x % 4 == 3 {
                    m::process_epoch(&mut r, &c).unwrap();
                    sym::cover("epoch");
                }
                r.slot = x + 1;
            }
            sym::cover("processed");
        } else {
            sym::cover("refused");
        }
        same_state!($f, s, r, "slots");
    }};
}
macro_rules! transition {
    ($f:ident, $max:ident, |$s:ident, $b:ident, $c:ident| $more:expr) => {{
        use harness::small::$f as m;
        free_signatures();
        sym::merge(false);
        let mut c = context();
        let mut s = m::BeaconState::default();
        scene!($f, s, c, 30);
        s.latest_block_header.body_root = root(60);
        let mut signed_block = m::SignedBeaconBlock::default();
        let block = &mut signed_block.message;
        // before, within and past the epoch's end
        block.slot = 30 + sym::pick("slots", 0, 3);
        let fault = sym::pick("fault", 0, 3);
        let mut r = s.clone();
        let late = block.slot > 30;
        if late {
            m::process_slots(&mut r, block.slot, &c).unwrap();
        }
        block.proposer_index = proposer(&r.validators, &r.randao_mixes, block.slot, c.$max, &c);
        if fault == 1 {
            block.proposer_index = [(block.proposer_index + 1) % 5, 5, usize::MAX][sym::pick("proposer", 0, 2) as usize];
        }
        block.parent_root = Root::try_from(header_root(&r.latest_block_header).as_ref()).unwrap();
        {
            let ($s, $b, $c) = (&r, &mut *block, &mut c);
            $more;
        }
        if fault == 2 {
            block.parent_root[4] ^= 1;
        }
        block.body.randao_reveal = any_signature("reveal");
        let mut want = late && m::process_block(&mut r, block, &c).is_ok();
        let validated = sym::pick_bool("validated");
        block.state_root = if want && validated && fault == 3 { any_root("state root") } else if want { r.hash_tree_root().unwrap() } else { root(1) };
        signed_block.signature = any_signature("signature");
        let b = &signed_block.message;
        if validated && want {
            let object = merkle(&[num(b.slot), num(b.proposer_index as u64), chunk(b.parent_root.as_ref()), chunk(b.state_root.as_ref()), chunk(b.body.clone().hash_tree_root().unwrap().as_ref())], 3);
            let d = domain(0, &r.fork, b.slot / 4, &r.genesis_validators_root);
            want = signed(&[&r.validators[b.proposer_index].public_key], &object, &d, &signed_block.signature)
                && sym::eq_bytes(b.state_root.as_ref(), r.hash_tree_root().unwrap().as_ref());
        }
        let v = if validated { Validation::Enabled } else { Validation::Disabled };
        let ok = m::state_transition(&mut s, &signed_block, v, &c).is_ok();
        sym::check(ok == want, "a block is applied exactly when it is valid, signed and leads to its state root");
        if ok {
            same_state!($f, s, r, "transition");
            sym::cover(if validated { "validated" } else { "trusted" });
        } else {
            sym::cover("refused");
        }
    }};
}
macro_rules! infinite {
    ($b:ident) => {{
        let mut x = [0u8; 96];
        x[0] = 0xc0;
        $b.body.sync_aggregate.sync_committee_signature = BlsSignature::try_from(x.as_ref()).unwrap();
    }};
}
macro_rules! payload {
    ($s:ident, $b:ident, $c:ident) => {{
        infinite!($b);
        let p = &mut $b.body.execution_payload;
        p.prev_randao = $s.randao_mixes[($b.slot / 4 % 8) as usize].clone();
        p.timestamp = $b.slot * $c.seconds_per_slot;
        p.parent_hash = $s.latest_execution_payload_header.block_hash.clone();
    }};
}
sym::harness! {
    fn h_slot_phase0() { slot!(phase0) }
    fn h_slot_altair() { slot!(altair) }
    fn h_slot_electra() { slot!(electra) }
    fn h_slots_phase0() { slots!(phase0) }
    fn h_slots_altair() { slots!(altair) }
    fn h_slots_capella() { slots!(capella) }
    fn h_slots_electra() { slots!(electra) }
    fn h_transition_phase0() { transition!(phase0, max_effective_balance, |s, b, c| ()) }
    fn h_transition_altair() { transition!(altair, max_effective_balance, |s, b, c| infinite!(b)) }
    fn h_transition_bellatrix() { transition!(bellatrix, max_effective_balance, |s, b, c| infinite!(b)) }
    fn h_transition_capella() { transition!(capella, max_effective_balance, |s, b, c| payload!(s, b, c)) }
    fn h_transition_deneb() { transition!(deneb, max_effective_balance, |s, b, c| payload!(s, b, c)) }
    fn h_transition_electra() { transition!(electra, max_effective_balance, |s, b, c| payload!(s, b, c)) }
}
