//! C32: mnemonics (bin/ec/validator/mnemonic.rs) according to BIP-39.
#![no_main]
#![allow(dead_code)]
use bip39::Language;

#[path = "/repo/ethereum-consensus/src/bin/ec/validator/mnemonic.rs"]
mod mnemonic;

/// BIP-39: the entropy and the first bits of its digest, 11 bits to a word.
fn indices(entropy: &[u8]) -> Vec<u64> {
    let n = entropy.len() * 3 / 4;
    let mut all = entropy.to_vec();
    all.push(sym::sha256(entropy)[0]);
    (0..n)
        .map(|i| {
            let mut v = 0u64;
            for b in i * 11..i * 11 + 11 {
                v = v << 1 | (all[b / 8] >> (7 - b % 8) & 1) as u64;
            }
            v
        })
        .collect()
}
fn phrase(indices: &[u64]) -> Vec<&'static str> {
    indices.iter().map(|i| Language::English.word_list()[*i as usize]).collect()
}
/// PBKDF2 of the normalized phrase with the salt "mnemonic" and the normalized passphrase.
fn seed(phrase: &str, passphrase: &[u8]) -> [u8; 64] {
    let mut d = (phrase.len() as u64).to_le_bytes().to_vec();
    d.extend_from_slice(phrase.as_bytes());
    d.extend_from_slice(b"mnemonic");
    d.extend_from_slice(passphrase);
    d.extend_from_slice(&2048u64.to_le_bytes());
    sym::uf("pbkdf2", &d)
}
fn entropy() -> Vec<u8> {
    let n = [16, 20, 24, 28, 32][sym::pick("words", 0, 4) as usize];
    match sym::pick("entropy", 0, 3) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => vec![0x7f; n],
        _ => (0..n).map(|i| (i * 37 + 11) as u8).collect(),
    }
}
sym::harness! {
    fn h_generate() {
        rand_core::SYMBOLIC.store(u64::MAX, core::sync::atomic::Ordering::Relaxed);
        let m = mnemonic::generate_random_from_system_entropy();
        let given: Vec<u8> = rand_core::GIVEN.lock().unwrap().concat();
        sym::check(given.len() >= 32, "256 bits of the system's randomness are asked for");
        let m = match m {
            Ok(m) => m,
            Err(_) => return sym::check(false, "a phrase is generated"),
        };
        let got: Vec<u64> = m.word_indices().map(|i| i as u64).collect();
        sym::check(got.len() == 24, "a phrase of 24 words");
        let want = indices(&given[..32]);
        for (g, w) in got.iter().zip(&want) {
            sym::check(g == w, "the words encode the system's randomness");
        }
        sym::check(m.language() == Language::English, "English words");
        sym::cover("generated");
    }
    fn h_recover() {
        let e = entropy();
        let mut i = indices(&e);
        let n = i.len();
        let cs = n / 3;
        // another last word: the checksum decides
        i[n - 1] ^= [0, 1, 2, 8, 1 << (cs - 1), 1 << cs, 1024][sym::pick("last word", 0, 6) as usize];
        let mut bits = vec![];
        for x in &i {
            for b in 0..11 {
                bits.push((x >> (10 - b) & 1) as u8);
            }
        }
        let e: Vec<u8> = bits[..n * 11 - cs].chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | b)).collect();
        let valid = indices(&e) == i;
        let mut w: Vec<String> = phrase(&i).iter().map(|w| w.to_string()).collect();
        let mut sep = " ";
        let (mut pre, mut post) = ("", "");
        let mut well = true;
        match sym::pick("form", 0, 9) {
            0 => {}
            1 => sep = "  ",
            2 => sep = "\n",
            3 => (pre, post) = (" ", "\n"),
            4 => { w.pop(); well = false }
            5 => { w.push("abandon".into()); well = false }
            6 => { w[3] = w[3].to_uppercase(); well = false }
            7 => { w[n - 2].push('s'); well = false }
            8 => { sep = ","; well = false }
            // the first four letters do not stand for a word
            _ => { let t: String = w[0].chars().take(3).collect(); well = t == w[0]; w[0] = t }
        }
        let s = format!("{pre}{}{post}", w.join(sep));
        let r = mnemonic::recover_from_phrase(&s);
        sym::check(r.is_ok() == (well && valid), "a phrase is accepted if and only if its words and checksum are right");
        if let Ok(m) = r {
            sym::check(m.to_entropy() == e, "the phrase's entropy");
            let words = phrase(&i).join(" ");
            sym::check(format!("{m}") == words, "the phrase comes back");
            sym::cover("recovered");
            sym::check(sym::eq_bytes(&mnemonic::to_seed(m, None), &seed(&words, b"")), "the seed without a passphrase");
        } else {
            sym::cover("refused");
        }
    }
    fn h_seed() {
        let e = entropy();
        let words = phrase(&indices(&e)).join(" ");
        let m = mnemonic::recover_from_phrase(&words).unwrap();
        // composed, decomposed, compatibility, control and blank characters
        let (p, nfkd): (String, Vec<u8>) = match sym::pick("passphrase", 0, 9) {
            0 => (String::new(), vec![]),
            1 => ("TREZOR".into(), b"TREZOR".to_vec()),
            2 => (" a  b ".into(), b" a  b ".to_vec()),
            3 => ("\u{e9}".into(), "e\u{301}".into()),
            4 => ("e\u{301}".into(), "e\u{301}".into()),
            5 => ("\u{fb01}".into(), b"fi".to_vec()),
            6 => ("mnemonic".into(), b"mnemonic".to_vec()),
            7 => ("\t\u{7f}x\n".into(), b"\t\x7fx\n".to_vec()),
            8 => ("\u{1d504}".into(), b"A".to_vec()),
            _ => {
                let b: Vec<u8> = (0..sym::pick("length", 1, 4)).map(|_| sym::range("ascii", 0, 127) as u8).collect();
                (String::from_utf8(b.clone()).unwrap(), b)
            }
        };
        let got = mnemonic::to_seed(m, Some(&p));
        sym::check(sym::eq_bytes(&got, &seed(&words, &nfkd)), "the seed of a phrase and passphrase");
        sym::cover("derived");
    }
}
