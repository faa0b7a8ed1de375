//! EIP-2333: keys from a seed.
pub fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut k = key.to_vec();
    k.resize(64, 0);
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(data);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&sym::sha256(&inner));
    sym::sha256(&outer)
}
pub fn expand(prk: &[u8; 32], info: &[u8], len: usize) -> Vec<u8> {
    if *hkdf::ZERO.lock().unwrap() == Some(*prk) {
        return vec![0; len];
    }
    let mut out = vec![];
    let mut t = vec![];
    let mut i = 1;
    while out.len() < len {
        let mut d = t.clone();
        d.extend_from_slice(info);
        d.push(i);
        t = hmac(prk, &d).to_vec();
        out.extend_from_slice(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(len);
    out
}
/// The order of the curve's group, big-endian.
pub const R: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd,
    0xa4, 0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];
/// The pseudorandom key of an attempt.
pub fn attempt(ikm: &[u8], n: u32) -> [u8; 32] {
    let mut salt = b"BLS-SIG-KEYGEN-SALT-".to_vec();
    for _ in 0..=n {
        salt = sym::sha256(&salt).to_vec();
    }
    let mut d = ikm.to_vec();
    d.push(0);
    hmac(&salt, &d)
}
/// hkdf_mod_r, when the first `zeros` attempts give zero.
pub fn mod_r(ikm: &[u8], zeros: u32) -> [u8; 32] {
    let okm = expand(&attempt(ikm, zeros), &[0, 48], 48);
    let mut d: Vec<u8> = okm.iter().rev().copied().collect();
    d.extend(R.iter().rev());
    d.resize(96, 0);
    let mut r = ruint::remainder(d[..].try_into().unwrap());
    r.reverse();
    r
}
pub fn child(parent: &[u8; 32], index: u32, zeros: u32) -> [u8; 32] {
    mod_r(&lamport(parent, index), zeros)
}
pub fn lamport(parent: &[u8; 32], index: u32) -> [u8; 32] {
    let salt = index.to_be_bytes();
    let mut pk = vec![];
    for ikm in [*parent, parent.map(|b| !b)] {
        let okm = expand(&hmac(&salt, &ikm), &[], 255 * 32);
        for c in okm.chunks(32) {
            pk.extend_from_slice(&sym::sha256(c));
        }
    }
    sym::sha256(&pk)
}
