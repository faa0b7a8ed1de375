//! Independent transcriptions of consensus-spec functions shared by several harnesses.
use crate::*;

pub fn active(v: &Validator, e: u64) -> bool {
    (v.activation_epoch <= e) & (e < v.exit_epoch)
}
pub fn active_indices(vs: &[Validator], e: u64) -> Vec<usize> {
    let mut r = vec![];
    for (i, v) in vs.iter().enumerate() {
        if active(v, e) {
            r.push(i);
        }
    }
    r
}
pub fn total_active(vs: &[Validator], e: u64, c: &Context) -> u64 {
    let mut t = 0u64;
    for v in vs {
        t += sym::ite(active(v, e), v.effective_balance, 0);
    }
    sym::ite(t < c.effective_balance_increment, c.effective_balance_increment, t)
}
/// Seats per epoch in the activation and exit queues before electra.
pub fn churn(vs: &[Validator], epoch: u64, c: &Context) -> u64 {
    let mut k = 0u64;
    for v in vs {
        k += active(v, epoch) as u64;
    }
    let q = k / c.churn_limit_quotient;
    sym::ite(q < c.min_per_epoch_churn_limit, c.min_per_epoch_churn_limit, q)
}
/// `initiate_validator_exit` up to deneb.
pub fn exit(vs: &mut [Validator], i: usize, epoch: u64, c: &Context, on: bool) {
    let mut q = epoch + 1 + c.max_seed_lookahead;
    for v in vs.iter() {
        q = sym::ite((v.exit_epoch != FAR) & (v.exit_epoch > q), v.exit_epoch, q);
    }
    let mut at = 0u64;
    for v in vs.iter() {
        at += (v.exit_epoch == q) as u64;
    }
    q = sym::ite(at >= churn(vs, epoch, c), q + 1, q);
    let on = on & (vs[i].exit_epoch == FAR);
    vs[i].exit_epoch = sym::ite(on, q, vs[i].exit_epoch);
    vs[i].withdrawable_epoch = sym::ite(on, q + c.min_validator_withdrawability_delay, vs[i].withdrawable_epoch);
}
/// Balance that may leave per epoch from electra on.
pub fn exit_churn_electra(total: u64, c: &Context) -> u64 {
    std::cmp::min(c.max_per_epoch_activation_exit_churn_limit, balance_churn_electra(total, c))
}
pub fn balance_churn_electra(total: u64, c: &Context) -> u64 {
    let x = std::cmp::max(c.min_per_epoch_churn_limit_electra, total / c.churn_limit_quotient);
    x - x % c.effective_balance_increment
}
/// The balance-weighted queue: the epoch for `amount` and the new (earliest epoch, balance left).
pub fn take(slot: u64, earliest: u64, left: u64, amount: u64, limit: u64, c: &Context) -> (u64, u64) {
    let floor = slot / c.slots_per_epoch + 1 + c.max_seed_lookahead;
    let fresh = earliest < floor;
    let mut epoch = sym::ite(fresh, floor, earliest);
    let mut avail = sym::ite(fresh, limit, left);
    let short = amount > avail;
    let missing = sym::ite(short, amount.wrapping_sub(avail), 1);
    let more = (missing - 1) / limit + 1;
    epoch = sym::ite(short, epoch + more, epoch);
    avail = sym::ite(short, avail + more * limit, avail);
    (epoch, avail - amount)
}

pub fn seed(mixes: &[Bytes32], epoch: u64, domain: u32, c: &Context) -> [u8; 32] {
    let n = c.epochs_per_historical_vector;
    let mix = &mixes[((epoch + n - c.min_seed_lookahead - 1) % n) as usize];
    let mut d = vec![];
    d.extend_from_slice(&domain.to_le_bytes());
    d.extend_from_slice(&epoch.to_le_bytes());
    d.extend_from_slice(mix.as_ref());
    sym::sha256(&d)
}
/// Swap-or-not, one index at a time.
pub fn shuffled_index(index: u64, count: u64, seed: &[u8; 32], rounds: u64) -> u64 {
    let mut index = index;
    for r in 0..rounds {
        let mut d = seed.to_vec();
        d.push(r as u8);
        let h = sym::sha256(&d);
        let pivot = u64::from_le_bytes(h[..8].try_into().unwrap()) % count;
        let flip = (pivot + count - index) % count;
        let position = std::cmp::max(index, flip);
        d.extend_from_slice(&((position / 256) as u32).to_le_bytes());
        let s = sym::sha256(&d);
        let byte = s[(position % 256 / 8) as usize];
        if (byte >> (position % 8)) & 1 == 1 {
            index = flip;
        }
    }
    index
}
/// The proposer of `slot` for a concrete seed.
pub fn proposer(vs: &[Validator], mixes: &[Bytes32], slot: u64, max_balance: u64, c: &Context) -> usize {
    let epoch = slot / c.slots_per_epoch;
    let mut d = seed(mixes, epoch, 0, c).to_vec();
    d.extend_from_slice(&slot.to_le_bytes());
    let sd = sym::sha256(&d);
    let idx = active_indices(vs, epoch);
    let n = idx.len() as u64;
    let mut i = 0u64;
    loop {
        let cand = idx[shuffled_index(i % n, n, &sd, c.shuffle_round_count) as usize];
        let mut d = sd.to_vec();
        d.extend_from_slice(&(i / 32).to_le_bytes());
        let b = sym::sha256(&d)[(i % 32) as usize] as u64;
        if vs[cand].effective_balance * 255 >= max_balance * b {
            return cand;
        }
        i += 1;
    }
}
/// The members of the sync committee for `epoch` and a concrete seed.
pub fn sync_committee(vs: &[Validator], mixes: &[Bytes32], epoch: u64, max_balance: u64, c: &Context) -> Vec<u64> {
    let sd = seed(mixes, epoch, 7, c);
    let idx = active_indices(vs, epoch);
    let n = idx.len() as u64;
    let mut r = vec![];
    let mut i = 0u64;
    while r.len() < c.sync_committee_size {
        let cand = idx[shuffled_index(i % n, n, &sd, c.shuffle_round_count) as usize];
        let mut d = sd.to_vec();
        d.extend_from_slice(&(i / 32).to_le_bytes());
        let b = sym::sha256(&d)[(i % 32) as usize] as u64;
        if vs[cand].effective_balance * 255 >= max_balance * b {
            r.push(cand as u64);
        }
        i += 1;
    }
    r
}
/// Committee `index` of `slot`.
pub fn committee(vs: &[Validator], mixes: &[Bytes32], slot: u64, index: u64, c: &Context) -> Vec<usize> {
    let epoch = slot / c.slots_per_epoch;
    let idx = active_indices(vs, epoch);
    let per_slot = committees_per_slot(idx.len() as u64, c);
    let sd = seed(mixes, epoch, 1, c);
    let n = idx.len() as u64;
    let count = per_slot * c.slots_per_epoch;
    let k = (slot % c.slots_per_epoch) * per_slot + index;
    (n * k / count..n * (k + 1) / count)
        .map(|i| idx[shuffled_index(i, n, &sd, c.shuffle_round_count) as usize])
        .collect()
}
pub fn committees_per_slot(active: u64, c: &Context) -> u64 {
    std::cmp::max(1, std::cmp::min(c.max_committees_per_slot, active / c.slots_per_epoch / c.target_committee_size))
}
pub fn sub_floor(a: u64, b: u64) -> u64 {
    sym::ite(a < b, 0, a.wrapping_sub(b))
}

// ---- hashing, domains and signatures
pub fn pair(a: &[u8], b: &[u8]) -> [u8; 32] {
    let mut d = a.to_vec();
    d.extend_from_slice(b);
    sym::sha256(&d)
}
/// Merkle root of `chunks` padded with zeros to `1 << depth` leaves.
pub fn merkle(chunks: &[[u8; 32]], depth: usize) -> [u8; 32] {
    let mut zero = [0u8; 32];
    let mut l = chunks.to_vec();
    for _ in 0..depth {
        if l.len() % 2 == 1 {
            l.push(zero);
        }
        l = l.chunks(2).map(|p| pair(&p[0], &p[1])).collect();
        zero = pair(&zero, &zero);
    }
    if l.is_empty() { zero } else { l[0] }
}
pub fn chunk(b: &[u8]) -> [u8; 32] {
    let mut r = [0u8; 32];
    r[..b.len()].copy_from_slice(b);
    r
}
pub fn num(v: u64) -> [u8; 32] {
    chunk(&v.to_le_bytes())
}
pub fn key_root(k: &[u8]) -> [u8; 32] {
    pair(&chunk(&k[..32]), &chunk(&k[32..]))
}
pub fn signature_root(k: &[u8]) -> [u8; 32] {
    merkle(&[chunk(&k[..32]), chunk(&k[32..64]), chunk(&k[64..])], 2)
}
pub fn domain_of(kind: u32, version: &[u8], genesis_validators_root: &[u8]) -> [u8; 32] {
    let h = pair(&chunk(version), genesis_validators_root);
    let mut d = [0u8; 32];
    d[..4].copy_from_slice(&kind.to_le_bytes());
    d[4..].copy_from_slice(&h[..28]);
    d
}
/// The domain of `kind` at `epoch` for the given fork.
pub fn domain(kind: u32, fork: &ethereum_consensus::phase0::Fork, epoch: u64, gvr: &Root) -> [u8; 32] {
    let v: &[u8] = if epoch < fork.epoch { fork.previous_version.as_ref() } else { fork.current_version.as_ref() };
    domain_of(kind, v, gvr.as_ref())
}
pub fn checkpoint_root(c: &Checkpoint) -> [u8; 32] {
    pair(&num(c.epoch), c.root.as_ref())
}
pub fn attestation_data_root(d: &ethereum_consensus::phase0::AttestationData) -> [u8; 32] {
    merkle(&[num(d.slot), num(d.index as u64), chunk(d.beacon_block_root.as_ref()), checkpoint_root(&d.source), checkpoint_root(&d.target)], 3)
}
pub fn header_root(h: &ethereum_consensus::phase0::BeaconBlockHeader) -> [u8; 32] {
    merkle(&[num(h.slot), num(h.proposer_index as u64), chunk(h.parent_root.as_ref()), chunk(h.state_root.as_ref()), chunk(h.body_root.as_ref())], 3)
}
const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
/// Does `sig` verify for the object with root `object` under all of `keys` in `domain`?
pub fn signed(keys: &[&BlsPublicKey], object: &[u8], domain: &[u8; 32], sig: &BlsSignature) -> bool {
    let m = pair(object, domain);
    let k: Vec<&[u8]> = keys.iter().map(|k| k.as_ref()).collect();
    blst::verify_outcome(&k, &m, DST, sig.as_ref())
}
/// Keys and signatures decode; every verification has an arbitrary outcome.
pub fn free_signatures() {
    blst::ENCODINGS_VALID.store(true, std::sync::atomic::Ordering::Relaxed);
    sym::free_uf("bls_verify", true);
}

/// The `width`-byte (32) field elements holding the bits of `data`, 254 at a time, `count` of them:
/// the two most significant bits of each are zero and so is what follows the data.
pub fn field_elements(data: &[u8], count: usize) -> Vec<u8> {
    let byte = |i: usize| if i < data.len() { data[i] } else { 0 };
    let mut out = vec![0u8; 32 * count];
    for e in 0..count {
        for j in 0..32 {
            // bits first..first + 8 of the data, of which the first two are dropped when j is 0
            let first = 254 * e + 8 * j;
            let b = if first >= 2 {
                let (at, shift) = ((first - 2) / 8, (first - 2) % 8);
                let w = ((byte(at) as u16) << 8) | byte(at + 1) as u16;
                (w >> (8 - shift)) as u8
            } else {
                byte(0) >> 2
            };
            out[32 * e + j] = if j == 0 { b & 0x3f } else { b };
        }
    }
    out
}
/// How many field elements the bits of `n` bytes take.
pub fn field_elements_for(n: usize) -> usize {
    (8 * n + 253) / 254
}
