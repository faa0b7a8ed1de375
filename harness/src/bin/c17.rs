//! C17: sync committees and their rewards.
#![no_main]
use harness::refs::*;
use harness::*;

macro_rules! sample {
    ($f:ident, |$c:ident| $real:expr, $known:expr) => {{
        use harness::small::$f as m;
        let mut $c = context();
        free_signatures();
        $c.shuffle_round_count = if sym::thorough() { 10 } else { 3 };
        let mut s = m::BeaconState::default();
        let epoch = 5u64;
        s.slot = 4 * epoch + sym::pick("slot in epoch", 0, 1) * 3;
        sym::merge(false);
        let low = sym::pick_bool("low balances");
        for i in 0..5u8 {
            let mut v = active_validator(i);
            odd(&mut v);
            v.effective_balance = if low { GWEI } else if i < 3 { sym::range("effective balance", 20 * GWEI, 33 * GWEI) } else { 32 * GWEI };
            match i {
                0 => v.exit_epoch = epoch + 1,
                1 => v.activation_epoch = epoch + 1,
                4 => v.activation_epoch = epoch + 2,
                _ => {}
            }
            s.validators.push(v);
        }
        let k = sym::pick("mix", 0, if sym::thorough() { 15 } else { 3 }) as u8;
        s.randao_mixes[((epoch + 1 + 8 - $c.min_seed_lookahead - 1) % 8) as usize] = bytes32(k);
        let mut got = vec![];
        for i in m::get_next_sync_committee_indices(&s, &$c).unwrap() {
            got.push(i as u64);
        }
        let want = sync_committee(&s.validators, &s.randao_mixes, epoch + 1, $c.max_effective_balance, &$c);
        sym::check(got == want, "the members of the next sync committee");
        let keys: Vec<BlsPublicKey> = want.iter().map(|i| s.validators[*i as usize].public_key.clone()).collect();
        let n = m::get_next_sync_committee(&s, &$c).unwrap();
        sym::check(n.public_keys.iter().zip(&keys).all(|(a, b)| a == b) && n.public_keys.len() == keys.len(), "the keys of the next sync committee");
        let a = ethereum_consensus::crypto::eth_aggregate_public_keys(&keys).unwrap();
        sym::check(n.aggregate_public_key == a, "the aggregate key of the next sync committee");
        sym::cover(if low { "low balances" } else { "chosen" });
        if $known {
            let real = sync_committee(&s.validators, &s.randao_mixes, epoch + 1, $real, &$c);
            sym::check(got == real, "KF candidates are weighed against the electra maximum");
        }
    }};
}
fn isqrt(n: u64) -> u64 {
    let mut r = 0u64;
    for b in (0..32).rev() {
        let t = r | 1 << b;
        if t * t <= n {
            r = t;
        }
    }
    r
}
macro_rules! aggregate {
    ($f:ident, $max:ident) => {{
        use harness::small::$f as m;
        free_signatures();
        sym::merge(false);
        let mut c = context();
        c.shuffle_round_count = 1;
        let mut s = m::BeaconState::default();
        s.slot = [1, 27, 28, 29][sym::pick("slot", 0, 3) as usize];
        s.fork.epoch = 7;
        s.fork.previous_version = [1, 0, 0, 9];
        s.fork.current_version = [2, 0, 0, 9];
        s.genesis_validators_root = root(3);
        for i in 0..8u8 {
            s.randao_mixes[i as usize] = bytes32(i + 70);
        }
        for i in 0..16u8 {
            s.block_roots[i as usize] = root(i + 90);
        }
        for i in 0..4u8 {
            let mut v = active_validator(i);
            odd(&mut v);
            v.effective_balance = (17 + 5 * i as u64) * GWEI;
            // gone: still in the committee, not in the total
            if i == 3 {
                v.exit_epoch = 7;
            }
            s.validators.push(v);
            s.balances.push(if i == 1 { sym::range("balance", 0, 1 << 50) } else { 32 * GWEI });
        }
        // members may sit twice
        let members = [[0u8, 1, 2, 3], [1, 1, 3, 1]][sym::pick("members", 0, 1) as usize];
        s.current_sync_committee.public_keys = members.iter().map(|i| key(*i)).collect::<Vec<_>>().try_into().unwrap();
        let mut a = m::SyncAggregate::default();
        let mut keys = vec![];
        let mask = if s.slot == 28 { sym::pick("bits", 0, 15) } else { 5 * sym::pick("bits", 0, 2) };
        for i in 0..4 {
            a.sync_committee_bits.set(i, mask >> i & 1 == 1);
            if mask >> i & 1 == 1 {
                keys.push(key(members[i]));
            }
        }
        a.sync_committee_signature = any_signature("signature");
        let mut b = [0u8; 96];
        b[0] = 0xc0;
        let infinity = BlsSignature::try_from(b.as_ref()).unwrap();
        if sym::pick_bool("infinite") {
            a.sync_committee_signature = infinity.clone();
        }
        let infinite = sym::eq_bytes(a.sync_committee_signature.as_ref(), infinity.as_ref());
        harness::with_flags!($f, s, 4);
        let mut r = s.clone();
        let ok = m::process_sync_aggregate(&mut s, &a, &c).is_ok();
        let mut want = true;
        if !(mask == 0 && infinite) {
            let d = domain(7, &r.fork, (s.slot - 1) / 4, &r.genesis_validators_root);
            let k: Vec<&BlsPublicKey> = keys.iter().collect();
            want = mask != 0 && signed(&k, r.block_roots[((s.slot - 1) % 16) as usize].as_ref(), &d, &a.sync_committee_signature);
        }
        sym::check(ok == want, "a sync aggregate is accepted exactly when its participants signed the previous block");
        if ok {
            let total = total_active(&r.validators, s.slot / 4, &c);
            let per_increment = c.effective_balance_increment * c.base_reward_factor / isqrt(total);
            let member = per_increment * (total / c.effective_balance_increment) * 2 / 64 / c.slots_per_epoch / 4;
            let p = proposer(&r.validators, &r.randao_mixes, s.slot, c.$max, &c);
            for (i, v) in members.iter().enumerate() {
                let b = &mut r.balances;
                if mask >> i & 1 == 1 {
                    b[*v as usize] += member;
                    b[p] += member * 8 / 56;
                } else {
                    let x = b[*v as usize];
                    b[*v as usize] = sym::ite(x < member, 0, x.wrapping_sub(member));
                }
            }
            same_state!($f, s, r, "sync aggregate");
            sym::cover(if mask == 0 { "nobody took part" } else { "some took part" });
        } else {
            sym::cover("refused");
        }
    }};
}
sym::harness! {
    fn h_sample_altair() { sample!(altair, |c| 0, false) }
    fn h_sample_bellatrix() { sample!(bellatrix, |c| 0, false) }
    fn h_sample_electra() { sample!(electra, |c| c.max_effective_balance_electra, true) }
    fn h_aggregate_altair() { aggregate!(altair, max_effective_balance) }
    fn h_aggregate_capella() { aggregate!(capella, max_effective_balance) }
    fn h_aggregate_electra() { aggregate!(electra, max_effective_balance) }
}
