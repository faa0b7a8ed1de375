//! EIP-2335: keystores.
use ethereum_consensus::crypto::SecretKey;
use serde_json::Value;
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.as_bytes();
    let mut ok = s.len() % 2 == 0;
    for c in s {
        ok &= (c.wrapping_sub(b'0') < 10) | (c.wrapping_sub(b'a') < 6);
    }
    sym::check(ok, "lower-case hexadecimal digits");
    let d = |c: u8| (c & 15) + 9 * (c >> 6);
    s.chunks(2).map(|c| d(c[0]) << 4 | d(c[c.len() - 1])).collect()
}
pub fn text<'a>(v: &'a Value, path: &[&str]) -> &'a str {
    let mut v = v;
    for p in path {
        v = &v[*p];
    }
    v.as_str().unwrap_or("(missing)")
}
pub fn number(v: &Value, path: &[&str]) -> u64 {
    let mut v = v;
    for p in path {
        v = &v[*p];
    }
    v.as_u64().unwrap_or(u64::MAX)
}
pub fn keys(v: &Value) -> Vec<&str> {
    let mut k: Vec<&str> = v.as_object().map(|o| o.keys().map(|k| k.as_str()).collect()).unwrap_or_default();
    k.sort();
    k
}
pub struct Parts {
    password: Vec<u8>,
    salt: Vec<u8>,
    iv: Vec<u8>,
    pub uuid: String,
}
/// What is in a keystore, apart from what is fixed.
pub struct Fields {
    pub password: String,
    pub salt: String,
    pub iv: String,
    pub message: String,
    pub checksum: String,
    pub pubkey: String,
    pub uuid: String,
    pub n: u64,
    pub r: u64,
    pub p: u64,
}
/// The fixed structure of a keystore.
pub fn read(v: &Value, path: &str) -> Fields {
    sym::check(keys(v) == ["voting_keystore", "voting_keystore_password"], "a keystore with its password");
    let k: Value = serde_json::from_str(text(v, &["voting_keystore"])).unwrap();
    sym::check(keys(&k) == ["crypto", "path", "pubkey", "uuid", "version"], "a keystore's fields");
    sym::check(number(&k, &["version"]) == 4, "version 4");
    sym::check(text(&k, &["path"]) == path, "the key's path");
    let c = &k["crypto"];
    sym::check(keys(c) == ["checksum", "cipher", "kdf"], "the modules");
    for m in ["checksum", "cipher", "kdf"] {
        sym::check(keys(&c[m]) == ["function", "message", "params"], "a module's fields");
    }
    sym::check(text(c, &["kdf", "function"]) == "scrypt" && text(c, &["kdf", "message"]).is_empty(), "the key derivation");
    sym::check(keys(&c["kdf"]["params"]) == ["dklen", "n", "p", "r", "salt"], "the parameters");
    sym::check(number(c, &["kdf", "params", "dklen"]) == 32, "a key of 32 bytes");
    sym::check(text(c, &["checksum", "function"]) == "sha256" && keys(&c["checksum"]["params"]).is_empty() && c["checksum"]["params"].is_object(), "the checksum's function");
    sym::check(text(c, &["cipher", "function"]) == "aes-128-ctr" && keys(&c["cipher"]["params"]) == ["iv"], "the cipher's function");
    let uuid = text(&k, &["uuid"]);
    sym::check(uuid.len() == 36 && uuid.as_bytes()[14] == b'4', "a random identifier");
    Fields {
        password: text(v, &["voting_keystore_password"]).into(),
        salt: text(c, &["kdf", "params", "salt"]).into(),
        iv: text(c, &["cipher", "params", "iv"]).into(),
        message: text(c, &["cipher", "message"]).into(),
        checksum: text(c, &["checksum", "message"]).into(),
        pubkey: text(&k, &["pubkey"]).into(),
        uuid: uuid.into(),
        n: number(c, &["kdf", "params", "n"]),
        r: number(c, &["kdf", "params", "r"]),
        p: number(c, &["kdf", "params", "p"]),
    }
}
/// Decrypts what was written and compares with the key.
pub fn decrypt(f: &Fields, secret: &[u8; 32]) {
    sym::check(f.n.is_power_of_two() && f.n >= 1 << 14 && f.r >= 8 && f.p >= 1, "a strong derivation");
    let mut d = (f.password.len() as u64).to_le_bytes().to_vec();
    d.extend_from_slice(f.password.as_bytes());
    d.extend_from_slice(&unhex(&f.salt));
    d.push(f.n.trailing_zeros() as u8);
    d.extend_from_slice(&(f.r as u32).to_le_bytes());
    d.extend_from_slice(&(f.p as u32).to_le_bytes());
    let dk: [u8; 32] = sym::uf("scrypt", &d);
    let message = unhex(&f.message);
    sym::check(message.len() == 32, "the cipher's message");
    let mut sum = dk[16..].to_vec();
    sum.extend_from_slice(&message);
    sym::check(sym::eq_bytes(&unhex(&f.checksum), &sym::sha256(&sum)), "the password is checked against the checksum");
    let iv = unhex(&f.iv);
    sym::check(iv.len() == 16, "an initialization vector");
    let mut plain = message.clone();
    let mut counter = u128::from_be_bytes(iv[..].try_into().unwrap());
    for b in plain.chunks_mut(16) {
        let mut d = dk[..16].to_vec();
        d.extend_from_slice(&counter.to_be_bytes());
        let s: [u8; 16] = sym::uf("aes", &d);
        for (x, y) in b.iter_mut().zip(s) {
            *x ^= y;
        }
        counter = counter.wrapping_add(1);
    }
    sym::check(sym::eq_bytes(&plain, secret), "the password decrypts the private key");
    let pk = SecretKey::try_from(&secret[..]).unwrap().public_key();
    sym::check(f.pubkey.len() == 96, "a public key of 48 bytes without a prefix");
    sym::check(sym::eq_bytes(&unhex(&f.pubkey), &pk), "the public key");
}
