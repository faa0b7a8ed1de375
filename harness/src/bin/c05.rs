//! C05: shuffling and committee assignment.
//! features: shuffling
#![no_main]
use harness::refs::*;
use harness::*;
use ethereum_consensus::phase0::helpers as h;

fn sd(b: &[u8; 32]) -> Bytes32 {
    Bytes32::try_from(b.as_ref()).unwrap()
}

/// The list shuffle and the index shuffle are the same code in both builds.
fn only_once() -> bool {
    sym::cover("start");
    !cfg!(feature = "shuffling")
}
fn index_matches(counts: &[u64], rounds: u64, near_edges: bool) {
    let mut c = context();
    c.shuffle_round_count = rounds;
    let n = counts[sym::pick("count", 0, counts.len() as u64 - 1) as usize];
    let seed = sym::any_bytes::<32>("seed");
    let i = if near_edges {
        let e = [0, 1, 254, 255, 256, n - 1, n, n + 5];
        e[sym::pick("index", 0, e.len() as u64 - 1) as usize]
    } else {
        sym::pick("index", 0, n)
    };
    let got = h::compute_shuffled_index(i as usize, n as usize, &sd(&seed), &c);
    if i >= n {
        sym::check(got.is_err(), "an index outside the list is refused");
        sym::cover("outside");
    } else {
        let want = ref_index(i, n, &seed, c.shuffle_round_count);
        let got = got.unwrap() as u64;
        sym::check(got == want, "shuffled index");
        sym::check(got < n, "shuffled index stays inside the list");
        sym::cover("inside");
    }
}
/// As `refs::shuffled_index`, without splitting on the bit.
fn ref_index(index: u64, count: u64, seed: &[u8; 32], rounds: u64) -> u64 {
    let mut index = index;
    for r in 0..rounds {
        let mut d = seed.to_vec();
        d.push(r as u8);
        let hh = sym::sha256(&d);
        let pivot = u64::from_le_bytes(hh[..8].try_into().unwrap()) % count;
        let flip = (pivot + count - index) % count;
        let position = std::cmp::max(index, flip);
        d.extend_from_slice(&((position / 256) as u32).to_le_bytes());
        let s = sym::sha256(&d);
        let byte = s[(position % 256 / 8) as usize];
        index = sym::ite((byte >> (position % 8)) % 2 != 0, flip, index);
    }
    index
}
fn list_is_permutation() {
    let mut c = context();
    let n = sym::pick("count", 0, 5);
    c.shuffle_round_count = if n < 4 || sym::thorough() { 2 } else { 1 };
    let seed = sym::any_bytes::<32>("seed");
    let indices: Vec<usize> = (0..n as usize).map(|i| [70, 3, 18, 9, 200, 5][i]).collect();
    let out = h::compute_shuffled_indices(&indices, &sd(&seed), &c);
    sym::check(out.len() == indices.len(), "length is kept");
    for &x in &indices {
        let mut k = 0;
        for &y in &out {
            k += (x == y) as u32;
        }
        sym::check(k == 1, "every element appears exactly once");
    }
    for i in 0..n {
        let j = ref_index(i, n, &seed, c.shuffle_round_count);
        let mut want = 0;
        for (k, &x) in indices.iter().enumerate() {
            want = sym::ite(j == k as u64, x as u64, want);
        }
        sym::check(out[i as usize] as u64 == want, "list agrees with the per-index shuffle");
    }
    sym::cover("end");
}
fn long_list() {
    let mut c = context();
    c.shuffle_round_count = 1;
    let n = 258u64;
    let seed = sym::any_bytes::<32>("seed");
    let mut d = seed.to_vec();
    d.push(0);
    let hh = sym::sha256(&d);
    let pivot = u64::from_le_bytes(hh[..8].try_into().unwrap());
    let p = [7, 256, 0, 128, 255, 257][sym::pick("pivot", 0, if sym::thorough() { 5 } else { 1 }) as usize];
    sym::assume(pivot == p);
    let indices: Vec<usize> = (0..n as usize).collect();
    let out = h::compute_shuffled_indices(&indices, &sd(&seed), &c);
    let mut src = vec![];
    for b in 0..2u32 {
        let mut e = d.clone();
        e.extend_from_slice(&b.to_le_bytes());
        src.push(sym::sha256(&e));
    }
    let mut differ = 0;
    for i in 0..n {
        let flip = (p + n - i) % n;
        let position = std::cmp::max(i, flip);
        let byte = src[(position / 256) as usize][(position % 256 / 8) as usize];
        let want = sym::ite((byte >> (position % 8)) & 1 == 1, flip, i);
        differ |= out[i as usize] as u64 ^ want;
        if i % 32 == 31 || i == n - 1 {
            sym::check(differ == 0, "long list agrees with the per-index shuffle");
            differ = 0;
        }
    }
    sym::cover("end");
}

macro_rules! committees {
    ($f:ident, $all:expr) => {{
        use harness::small::$f as m;
        let mut c = context();
        c.shuffle_round_count = 1;
        c.slots_per_epoch = 2;
        c.target_committee_size = 1;
        c.max_committees_per_slot = 2;
        let mut s = m::BeaconState::default();
        let wide = sym::thorough() || ($all && !cfg!(feature = "shuffling"));
        let n = [5, 1, 3][sym::pick("active", 0, 2 * wide as u64) as usize];
        let epoch = sym::pick("epoch", 5 - wide as u64, 5);
        s.slot = 2 * epoch;
        // one validator that is not active sits in front
        for i in 0..n + 2 {
            let mut v = active_validator(i as u8);
            odd(&mut v);
            if i == 0 {
                v.exit_epoch = epoch;
            }
            if i == 2 {
                v.activation_epoch = epoch + 1;
            }
            s.validators.push(v);
        }
        let at = epoch + 8 - c.min_seed_lookahead - 1;
        let mix = sym::any_bytes::<32>("mix");
        s.randao_mixes[(at % 8) as usize] = Bytes32::try_from(mix.as_ref()).unwrap();
        let idx = active_indices(&s.validators, epoch);
        sym::check(m::get_active_validator_indices(&s, epoch) == idx, "active validators");
        let per_slot = m::get_committee_count_per_slot(&s, epoch, &c) as u64;
        sym::check(per_slot == committees_per_slot(n, &c), "committees per slot");
        let sd = seed(&s.randao_mixes, epoch, 1, &c);
        let sd2 = m::get_seed(&s, epoch, ethereum_consensus::domains::DomainType::BeaconAttester, &c);
        sym::check(sym::eq_bytes(sd2.as_ref(), &sd), "committee seed");
        let mut seen = vec![0u32; n as usize + 2];
        let count = per_slot * 2;
        for slot in 2 * epoch..2 * epoch + 2 {
            for k in 0..per_slot {
                let got = m::get_beacon_committee(&s, slot, k as usize, &c).unwrap();
                let g = (slot % 2) * per_slot + k;
                let (a, b) = (n * g / count, n * (g + 1) / count);
                sym::check(got.len() as u64 == b - a, "committee size");
                for (p, x) in (a..b).zip(&got) {
                    let j = ref_index(p, n, &sd, 1);
                    let mut want = 0;
                    for (k, &x) in idx.iter().enumerate() {
                        want = sym::ite(j == k as u64, x as u64, want);
                    }
                    sym::check(*x as u64 == want, "committee member");
                    for (v, s) in seen.iter_mut().enumerate() {
                        *s += (v == *x) as u32;
                    }
                }
            }
        }
        for (v, k) in seen.iter().enumerate() {
            sym::check(*k == (idx.contains(&v)) as u32, "every active validator is in exactly one committee of the epoch");
        }
        sym::cover("end");
    }};
}

macro_rules! seeds {
    ($f:ident) => {{
        use ethereum_consensus::domains::DomainType as D;
        use harness::small::$f as m;
        let mut c = context();
        c.min_seed_lookahead = sym::pick("lookahead", 0, 2);
        let mut s = m::BeaconState::default();
        for i in 0..s.randao_mixes.len() {
            s.randao_mixes[i] = Bytes32::try_from(root(i as u8).as_ref()).unwrap();
        }
        let k = sym::pick("in history", 0, 7);
        let epoch = 8 * sym::range("histories passed", 0, 1 << 50) + k;
        let mix = root(((k + 8 + 7 - c.min_seed_lookahead) % 8) as u8);
        for (d, t) in [(D::BeaconProposer, 0u8), (D::BeaconAttester, 1), (D::SyncCommittee, 7)] {
            let mut x = vec![t, 0, 0, 0];
            x.extend_from_slice(&epoch.to_le_bytes());
            x.extend_from_slice(mix.as_ref());
            sym::check(m::get_seed(&s, epoch, d, &c).as_ref() == &sym::sha256(&x)[..], "the seed of an epoch");
        }
        let now = m::get_randao_mix(&s, epoch);
        sym::check(*now == s.randao_mixes[k as usize], "the mix of an epoch");
        sym::cover("end");
    }};
}
sym::harness! {
    fn h_seeds_phase0() { if only_once() { seeds!(phase0) } }
    fn h_seeds_electra() { if only_once() { seeds!(electra) } }
    fn h_index_small() { index_matches(if sym::thorough() { &[1, 2, 3, 5, 7] } else { &[1, 2, 5] }, if sym::thorough() { 3 } else { 2 }, false) }
    fn h_index_large() { index_matches(if sym::thorough() { &[255, 256, 257, 600, 70000] } else { &[257, 600] }, 1, true) }
    fn h_permutation() { if only_once() { list_is_permutation() } }
    fn h_long_list() { if only_once() { long_list() } }
    fn h_committees_phase0() { committees!(phase0, true) }
    fn h_committees_altair() { committees!(altair, false) }
    fn h_committees_bellatrix() { committees!(bellatrix, false) }
    fn h_committees_capella() { committees!(capella, false) }
    fn h_committees_deneb() { committees!(deneb, false) }
    fn h_committees_electra() { committees!(electra, true) }
}
