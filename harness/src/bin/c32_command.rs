//! C32: what the commands for validators print (bin/ec/validator/mod.rs).
#![no_main]
#![allow(dead_code)]
use harness::{eip2333::*, eip2335::*};
use serde_json::Value;
use std::sync::Mutex;

static PRINTED: Mutex<String> = Mutex::new(String::new());
macro_rules! println {
    ($($t:tt)*) => {{
        let mut p = crate::PRINTED.lock().unwrap();
        p.push_str(&format!($($t)*));
        p.push('\n');
    }};
}
#[path = "/repo/ethereum-consensus/src/bin/ec/bls.rs"]
mod bls;
#[path = "/repo/ethereum-consensus/src/bin/ec/validator/mod.rs"]
mod validator;
use validator::{Command, Commands};

const PHRASE: &str = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";

sym::harness! {
    fn h_keystores() {
        blst::ENCODINGS_VALID.store(true, core::sync::atomic::Ordering::Relaxed);
        let (start, n) = [(0u32, 1u32), (0, 2), (3, 1), (2, 0), (u32::MAX - 1, 1)][sym::pick("range", 0, 4) as usize];
        let phrase = match sym::pick("phrase", 0, 2) {
            0 => PHRASE.to_string(),
            1 => format!(" {}\n", PHRASE.replace(' ', "  ")),
            _ => PHRASE.replace("about", "abandon"),
        };
        let valid = phrase.contains("about");
        let r = Command { command: Commands::GenerateLighthouseKeystores { phrase, start, end: start + n } }.execute();
        sym::check(r.is_ok() == valid, "only a valid phrase is used");
        let printed = PRINTED.lock().unwrap().clone();
        if !valid {
            sym::check(printed.is_empty(), "nothing is printed");
            sym::cover("refused");
            return;
        }
        let mut d = (PHRASE.len() as u64).to_le_bytes().to_vec();
        d.extend_from_slice(PHRASE.as_bytes());
        d.extend_from_slice(b"mnemonic");
        d.extend_from_slice(&2048u64.to_le_bytes());
        let seed: [u8; 64] = sym::uf("pbkdf2", &d);
        let v: Value = serde_json::from_str(&printed).unwrap();
        sym::check(v.as_array().map(|a| a.len()) == Some(n as usize), "a keystore for each index");
        for i in 0..n {
            let index = start + i;
            let mut key = mod_r(&seed, 0);
            for x in [12381, 3600, index, 0, 0] {
                key = child(&key, x, 0);
            }
            let f = read(&v[i as usize], &format!("m/12381/3600/{index}/0/0"));
            decrypt(&f, &key);
        }
        sym::cover("printed");
    }
    fn h_mnemonic() {
        let r = Command { command: Commands::Mnemonic }.execute();
        sym::check(r.is_ok(), "a phrase is printed");
        let given: Vec<u8> = rand_core::GIVEN.lock().unwrap().concat();
        let m: bip39::Mnemonic = PRINTED.lock().unwrap().trim().parse().unwrap();
        sym::check(m.to_entropy()[..] == given[..32], "the phrase is the system's randomness");
        sym::cover("printed");
    }
}
