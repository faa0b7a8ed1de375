//! C32: keystores (bin/ec/validator/keystores.rs) according to EIP-2335.
#![no_main]
#![allow(dead_code)]
use serde_json::Value;

#[path = "/repo/ethereum-consensus/src/bin/ec/bls.rs"]
mod bls;
mod validator {
    pub mod mnemonic {
        pub type Seed = [u8; 64];
    }
    #[path = "/repo/ethereum-consensus/src/bin/ec/validator/keys.rs"]
    pub mod keys;
    #[path = "/repo/ethereum-consensus/src/bin/ec/validator/keystores.rs"]
    pub mod keystores;
}
use ethereum_consensus::crypto::SecretKey;
use harness::eip2335::*;
use validator::{keys::KeyPair, keystores};

fn pair(secret: &[u8; 32], path: &str) -> KeyPair {
    let private_key = SecretKey::try_from(&secret[..]).unwrap();
    let public_key = private_key.public_key();
    KeyPair { private_key, public_key, path: path.into() }
}
fn generate(keys: Vec<KeyPair>) -> String {
    serde_json::to_string(&keystores::generate(keys)).unwrap()
}
/// One of what is random, or the key, is symbolic: where things are in the text is taken from
/// the keystore of another key.
fn symbolic(which: u64) {
    blst::ENCODINGS_VALID.store(true, core::sync::atomic::Ordering::Relaxed);
    sym::merge(false);
    let path = "m/12381/3600/7/0/0";
    let t1 = generate(vec![pair(&[7; 32], path)]);
    let v: Value = serde_json::from_str(&t1).unwrap();
    sym::check(v.as_array().map(|a| a.len()) == Some(1), "one keystore");
    let f = read(&v[0], path);
    let draws = rand_core::GIVEN.lock().unwrap().len() as u64;
    let mut secret = [8u8; 32];
    if which == 3 {
        secret = sym::any_bytes("secret");
        sym::assume(secret[0] < 0x73 && secret[31] != 0);
    } else {
        rand_core::SYMBOLIC.store(1 << (draws + which), core::sync::atomic::Ordering::Relaxed);
    }
    let t2 = generate(vec![pair(&secret, path)]);
    sym::check(t1.len() == t2.len(), "keystores have the same form");
    let mut fixed = vec![true; t1.len()];
    let mut part = |s: &String| {
        let at = t1.find(s.as_str()).unwrap_or(0);
        fixed[at..at + s.len()].fill(false);
        // which are digits is checked below
        unsafe { String::from_utf8_unchecked(t2.as_bytes()[at..at + s.len()].to_vec()) }
    };
    let g = Fields {
        password: part(&f.password),
        salt: part(&f.salt),
        iv: part(&f.iv),
        message: part(&f.message),
        checksum: part(&f.checksum),
        pubkey: part(&f.pubkey),
        uuid: part(&f.uuid),
        ..f
    };
    for i in 0..t1.len() {
        if fixed[i] {
            sym::check(t1.as_bytes()[i] == t2.as_bytes()[i], "keystores differ in their values only");
        }
    }
    decrypt(&g, &secret);
    sym::cover("decrypted");
}
sym::harness! {
    fn h_random_1() {
        rand_core::BYTES.store(1, core::sync::atomic::Ordering::Relaxed);
        symbolic(0);
    }
    fn h_random_2() {
        symbolic(1);
    }
    fn h_random_3() {
        symbolic(2);
    }
    fn h_key() {
        symbolic(3);
    }
    /// Nothing random is used twice.
    fn h_fresh() {
        blst::ENCODINGS_VALID.store(true, core::sync::atomic::Ordering::Relaxed);
        let n = sym::pick("keys", 0, 2) as usize;
        let secrets: Vec<[u8; 32]> = (0..n).map(|i| [i as u8 + 9; 32]).collect();
        let path = |i: usize| format!("m/12381/3600/{i}/0/0");
        let t = generate((0..n).map(|i| pair(&secrets[i], &path(i))).collect());
        let v: Value = serde_json::from_str(&t).unwrap();
        sym::check(v.as_array().map(|a| a.len()) == Some(n), "a keystore for each key");
        let given: Vec<u8> = rand_core::GIVEN.lock().unwrap().concat();
        let mut used = vec![false; given.len()];
        let mut take = |b: &[u8]| {
            sym::check(b.len() >= 16, "128 bits at least");
            let at = given.windows(b.len()).position(|w| w == b);
            sym::check(at.is_some(), "is random");
            if let Some(at) = at {
                for u in &mut used[at..at + b.len()] {
                    sym::check(!*u, "is not used twice");
                    *u = true;
                }
            }
        };
        let mut ids = vec![];
        for i in 0..n {
            let f = read(&v[i], &path(i));
            decrypt(&f, &secrets[i]);
            take(&unhex(&f.password));
            take(&unhex(&f.salt));
            take(&unhex(&f.iv));
            sym::check(!ids.contains(&f.uuid), "an identifier of its own");
            ids.push(f.uuid);
        }
        sym::cover(["none", "one", "two"][n]);
    }
}
