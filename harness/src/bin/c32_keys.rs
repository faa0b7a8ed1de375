//! C32: keys derived from a seed (bin/ec/validator/keys.rs) according to EIP-2333 and EIP-2334.
#![no_main]
#![allow(dead_code)]
#[path = "/repo/ethereum-consensus/src/bin/ec/bls.rs"]
mod bls;
mod validator {
    pub mod mnemonic {
        pub type Seed = [u8; 64];
    }
    #[path = "/repo/ethereum-consensus/src/bin/ec/validator/keys.rs"]
    pub mod keys;
}
use harness::eip2333::*;
use validator::keys;

fn check(pair: &keys::KeyPair, sk: &[u8; 32], path: &str) {
    sym::check(sym::eq_bytes(&pair.private_key.clone().to_bytes(), sk), "the private key");
    let pk = ethereum_consensus::crypto::SecretKey::try_from(&sk[..]).unwrap().public_key();
    sym::check(sym::eq_bytes(&pair.public_key, &pk), "the public key is the private key's");
    sym::check(pair.path == path, "the path");
}
sym::harness! {
    fn h_master_and_children() {
        blst::ENCODINGS_VALID.store(true, core::sync::atomic::Ordering::Relaxed);
        ruint::ANY.store(true, core::sync::atomic::Ordering::Relaxed);
        let seed: [u8; 64] = sym::any_bytes("seed");
        let (start, n) = [(0u32, 1u32), (1, 1), (7, 0), (256, 1), (0x1234_5678, 1), (u32::MAX - 1, 1)]
            [sym::pick("range", 0, 5) as usize];
        let (signing, withdrawal) = keys::generate(&seed, start, start + n);
        sym::check(signing.len() == n as usize && withdrawal.len() == n as usize, "one pair of keys for each index");
        for k in 0..n as usize {
            let i = start + k as u32;
            let mut key = mod_r(&seed, 0);
            for x in [12381, 3600, i, 0] {
                key = child(&key, x, 0);
            }
            check(&withdrawal[k], &key, &format!("m/12381/3600/{i}/0"));
            check(&signing[k], &child(&key, 0, 0), &format!("m/12381/3600/{i}/0/0"));
        }
        sym::cover(if n == 0 { "none" } else { "derived" });
    }
    fn h_range() {
        blst::ENCODINGS_VALID.store(true, core::sync::atomic::Ordering::Relaxed);
        let seed = core::array::from_fn(|i| i as u8);
        let (start, end) = [(0u32, 3u32), (5, 5), (6, 5), (9, 11), (u32::MAX - 1, u32::MAX)][sym::pick("range", 0, 4) as usize];
        let (signing, withdrawal) = keys::generate(&seed, start, end);
        let n = end.saturating_sub(start) as usize;
        sym::check(signing.len() == n && withdrawal.len() == n, "one pair of keys for each index");
        let mut root = mod_r(&seed, 0);
        for x in [12381, 3600] {
            root = child(&root, x, 0);
        }
        for k in 0..n {
            let i = start + k as u32;
            let key = child(&child(&root, i, 0), 0, 0);
            check(&withdrawal[k], &key, &format!("m/12381/3600/{i}/0"));
            check(&signing[k], &child(&key, 0, 0), &format!("m/12381/3600/{i}/0/0"));
        }
        sym::cover("derived");
    }
    /// Where a number is zero the salt is hashed again.
    fn h_zero() {
        blst::ENCODINGS_VALID.store(true, core::sync::atomic::Ordering::Relaxed);
        let seed = core::array::from_fn(|i| i as u8);
        let place = sym::pick("the zero", 0, 5);
        let z = |k| (k == place) as u32;
        let mut key = [0; 32];
        let mut keys = vec![];
        for (k, x) in [0, 12381, 3600, 4, 0, 0].into_iter().enumerate() {
            let ikm = if k == 0 { seed.to_vec() } else { lamport(&key, x).to_vec() };
            if k as u64 == place {
                *hkdf::ZERO.lock().unwrap() = Some(attempt(&ikm, 0));
            }
            key = mod_r(&ikm, z(k as u64));
            keys.push(key);
        }
        let (signing, withdrawal) = keys::generate(&seed, 4, 5);
        check(&withdrawal[0], &keys[4], "m/12381/3600/4/0");
        check(&signing[0], &keys[5], "m/12381/3600/4/0/0");
        sym::cover("derived");
    }
    /// The published example of EIP-2333.
    fn h_published() {
        let mut seed = [0u8; 64];
        let hex = b"c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04";
        let d = |c: u8| if c < b'a' { c - b'0' } else { c - b'a' + 10 };
        for i in 0..64 {
            seed[i] = d(hex[2 * i]) * 16 + d(hex[2 * i + 1]);
        }
        let dec = |b: &[u8; 32]| {
            let mut n = b.to_vec();
            let mut s = vec![];
            while n.iter().any(|x| *x != 0) {
                let mut r = 0u32;
                for x in n.iter_mut() {
                    let v = r * 256 + *x as u32;
                    *x = (v / 10) as u8;
                    r = v % 10;
                }
                s.push(b'0' + r as u8);
            }
            s.reverse();
            String::from_utf8(s).unwrap()
        };
        let master = mod_r(&seed, 0);
        sym::check(dec(&master) == "6083874454709270928345386274498605044986640685124978867557563392430687146096", "the reference's master key");
        sym::check(dec(&child(&master, 0, 0)) == "20397789859736650942317412262472558107875392172444076792671091975210932703118", "the reference's child key");
        sym::cover("published");
    }
}
