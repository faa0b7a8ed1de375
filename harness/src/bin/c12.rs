//! C12: block header, RANDAO and eth1 data.
#![no_main]
use harness::refs::*;
use harness::*;
use ssz_rs::prelude::*;

macro_rules! header {
    ($f:ident, $max:ident) => {{
        use harness::small::$f as m;
        let c = context();
        let mut s = m::BeaconState::default();
        s.slot = 20 + sym::pick("slot", 0, 2);
        for i in 0..3u8 {
            let mut v = active_validator(i);
            odd(&mut v);
            s.validators.push(v);
            s.balances.push(sym::any_u64("balance"));
        }
        let h = &mut s.latest_block_header;
        h.slot = sym::any_u64("latest header slot");
        h.proposer_index = 1;
        h.parent_root = any_root("latest parent");
        h.state_root = any_root("latest state");
        h.body_root = root(4);
        let mut b = m::BeaconBlock::default();
        b.slot = sym::any_u64("block slot");
        b.proposer_index = sym::pick("proposer", 0, 3) as usize;
        // either the root of the latest header or anything at all
        let parent = header_root(&s.latest_block_header);
        b.parent_root = if sym::pick_bool("right parent") { Root::try_from(parent.as_ref()).unwrap() } else { any_root("parent") };
        b.state_root = root(9);
        b.body.graffiti = Bytes32::try_from([7u8; 32].as_ref()).unwrap();
        let mut r = s.clone();
        let ok = m::process_block_header(&mut s, &b, &c).is_ok();
        let p = proposer(&r.validators, &r.randao_mixes, r.slot, c.$max, &c);
        let want = (b.slot == r.slot)
            & (b.slot > r.latest_block_header.slot)
            & (b.proposer_index == p)
            & sym::eq_bytes(b.parent_root.as_ref(), &parent)
            & !r.validators[p].slashed;
        sym::check(ok == want, "a block header is accepted exactly when it extends the chain");
        if ok {
            sym::cover("accepted");
            let h = &mut r.latest_block_header;
            h.slot = b.slot;
            h.proposer_index = b.proposer_index;
            h.parent_root = b.parent_root;
            h.state_root = Root::default();
            h.body_root = b.body.hash_tree_root().unwrap();
            same_state!($f, s, r, "header recorded");
        } else {
            sym::cover("refused");
        }
    }};
}
macro_rules! randao {
    ($f:ident, $max:ident) => {{
        use harness::small::$f as m;
        free_signatures();
        let c = context();
        let mut s = m::BeaconState::default();
        let epoch = sym::pick("epoch", 6, 9);
        s.slot = 4 * epoch + sym::pick("slot in epoch", 0, 1);
        s.fork.epoch = sym::pick("fork epoch", 7, 8);
        s.fork.previous_version = [1, 0, 0, 9];
        s.fork.current_version = [2, 0, 0, 9];
        s.genesis_validators_root = root(3);
        for i in 0..3u8 {
            s.validators.push(active_validator(i));
            s.balances.push(32 * GWEI);
        }
        for i in 0..8u8 {
            s.randao_mixes[i as usize] = Bytes32::try_from([i; 32].as_ref()).unwrap();
        }
        let p = proposer(&s.validators, &s.randao_mixes, s.slot, c.$max, &c);
        s.randao_mixes[(epoch % 8) as usize] = any_bytes32("mix");
        let mut b = m::BeaconBlockBody::default();
        b.randao_reveal = any_signature("reveal");
        let mut r = s.clone();
        let ok = m::process_randao(&mut s, &b, &c).is_ok();
        let d = domain(2, &r.fork, epoch, &r.genesis_validators_root);
        let want = signed(&[&r.validators[p].public_key], &num(epoch), &d, &b.randao_reveal);
        sym::check(ok == want, "the reveal is the proposer's signature over the epoch");
        if ok {
            let h = sym::sha256(b.randao_reveal.as_ref());
            let mix = &mut r.randao_mixes[(epoch % 8) as usize];
            for i in 0..32 {
                mix[i] ^= h[i];
            }
            same_state!($f, s, r, "mixed in");
            sym::cover("mixed in");
        } else {
            sym::cover("refused");
        }
    }};
}
macro_rules! eth1 {
    ($f:ident) => {{
        use harness::small::$f as m;
        let mut c = context();
        c.slots_per_epoch = 2;
        c.epochs_per_eth1_voting_period = sym::pick("epochs per period", 1, 2);
        let mut s = m::BeaconState::default();
        s.eth1_data.deposit_count = sym::any_u64("count");
        let mut b = m::BeaconBlockBody::default();
        b.eth1_data.deposit_count = sym::any_u64("count");
        b.eth1_data.deposit_root = any_root("root");
        b.eth1_data.block_hash = bytes32(5);
        let n = sym::pick("votes", 0, 3);
        for _ in 0..n {
            let mut d = b.eth1_data.clone();
            match sym::pick("vote", 0, 2) {
                0 => d.deposit_count = sym::any_u64("count"),
                1 => d.deposit_root = any_root("root"),
                _ => d.block_hash = any_bytes32("hash"),
            }
            s.eth1_data_votes.push(d);
        }
        let mut r = s.clone();
        m::process_eth1_data(&mut s, &b, &c);
        r.eth1_data_votes.push(b.eth1_data.clone());
        let mut same = 1u64;
        for v in r.eth1_data_votes.iter().take(n as usize) {
            same += ((v.deposit_count == b.eth1_data.deposit_count)
                & sym::eq_bytes(v.deposit_root.as_ref(), b.eth1_data.deposit_root.as_ref())
                & sym::eq_bytes(v.block_hash.as_ref(), b.eth1_data.block_hash.as_ref())) as u64;
        }
        if same > c.epochs_per_eth1_voting_period {
            r.eth1_data = b.eth1_data.clone();
            sym::cover("adopted");
        } else {
            sym::cover("voted");
        }
        same_state!($f, s, r, "eth1 data");
    }};
}
sym::harness! {
    fn h_header_phase0() { header!(phase0, max_effective_balance) }
    fn h_header_capella() { header!(capella, max_effective_balance) }
    fn h_header_electra() { header!(electra, max_effective_balance) }
    fn h_randao_phase0() { randao!(phase0, max_effective_balance) }
    fn h_randao_bellatrix() { randao!(bellatrix, max_effective_balance) }
    fn h_randao_electra() { randao!(electra, max_effective_balance) }
    fn h_eth1_phase0() { eth1!(phase0) }
    fn h_eth1_deneb() { eth1!(deneb) }
    fn h_eth1_electra() { eth1!(electra) }
}
