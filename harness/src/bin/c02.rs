//! C02: the textual (JSON) encodings.
#![no_main]
use ethereum_consensus::serde as es;
use ethereum_consensus::ssz::prelude::*;
use harness::*;

fn ascii(name: &str, n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        v.push(sym::range(name, 32, 126) as u8);
    }
    String::from_utf8(v).unwrap()
}
fn nibble(c: u8) -> (bool, u8) {
    let d = (c >= b'0') & (c <= b'9');
    let l = (c >= b'a') & (c <= b'f');
    let u = (c >= b'A') & (c <= b'F');
    let v = sym::ite(d, c.wrapping_sub(b'0') as u64, sym::ite(l, c.wrapping_sub(b'a') as u64 + 10, c.wrapping_sub(b'A') as u64 + 10));
    (d | l | u, v as u8)
}
const HEX: &[u8; 16] = b"0123456789abcdef";
fn hex_of(b: &[u8]) -> Vec<u8> {
    let mut s = b"0x".to_vec();
    for x in b {
        s.push(HEX[(x >> 4) as usize]);
        s.push(HEX[(x & 15) as usize]);
    }
    s
}
fn hex_decode() {
    let n = sym::pick("length", 0, if sym::thorough() { 8 } else { 6 }) as usize;
    let prefix = sym::pick_bool("prefix");
    let body = ascii("char", n);
    let s = if prefix { format!("0x{body}") } else { body.clone() };
    // a text that itself starts with the prefix is the case above
    if !prefix && n >= 2 {
        let b = body.as_bytes();
        sym::assume(!((b[0] == b'0') & (b[1] == b'x')));
    }
    let r = es::try_bytes_from_hex_str(&s);
    let mut ok = n % 2 == 0;
    let mut want = vec![];
    for c in body.as_bytes().chunks(2) {
        for x in c {
            ok &= nibble(*x).0;
        }
        if c.len() == 2 {
            want.push(nibble(c[0]).1 << 4 | nibble(c[1]).1);
        }
    }
    match r {
        Ok(v) => {
            sym::check(ok, "only hex digits are accepted");
            sym::check(sym::eq_bytes(&v, &want), "decoded bytes");
            sym::cover("decoded");
        }
        Err(_) => {
            sym::check(!ok, "hex digits are accepted");
            sym::cover("refused");
        }
    }
}
fn quoted(b: &[u8]) -> Vec<u8> {
    let mut q = vec![b'"'];
    q.extend_from_slice(b);
    q.push(b'"');
    q
}
fn byte_vector() {
    let b = sym::any_bytes::<4>("b");
    let v = ByteVector::<4>::try_from(b.as_ref()).unwrap();
    let s = serde_json::to_string(&v).unwrap();
    sym::check(sym::eq_bytes(s.as_bytes(), &quoted(&hex_of(&b))), "bytes are written as 0x and lower-case hex");
    let r: ByteVector<4> = serde_json::from_str(&s).unwrap();
    sym::check(sym::eq_bytes(r.as_ref(), &b), "bytes read back are the bytes written");
    sym::check(sym::eq_bytes(format!("{v:?}").as_bytes(), &hex_of(&b)), "debug text");
    sym::cover("end");
}
fn byte_vector_length() {
    let n = sym::pick("length", 0, 6) as usize;
    let b = sym::any_vec("b", n);
    let q = String::from_utf8(quoted(&hex_of(&b))).unwrap();
    let r = serde_json::from_str::<ByteVector<4>>(&q);
    sym::check(r.is_ok() == (n == 4), "a fixed-size value takes its exact length only");
    let l = serde_json::from_str::<ByteList<4>>(&q);
    sym::check(l.is_ok() == (n <= 4), "a bounded list takes up to its limit only");
    if let Ok(l) = l {
        sym::check(sym::eq_bytes(l.as_ref(), &b), "list content");
        let s = serde_json::to_string(&l).unwrap();
        sym::check(sym::eq_bytes(s.as_bytes(), q.as_bytes()), "list text");
        sym::check(sym::eq_bytes(format!("{l:?}").as_bytes(), &hex_of(&b)), "list debug text");
        let mut short = hex_of(&b);
        if n >= 4 {
            short = hex_of(&b[..2]);
            short.extend_from_slice("…".as_bytes());
            short.extend_from_slice(&hex_of(&b[n - 2..])[2..]);
        }
        sym::check(sym::eq_bytes(format!("{l}").as_bytes(), &short), "list display text");
        sym::cover("list");
    }
    sym::cover("end");
}
#[derive(serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
struct Num(#[serde(with = "ethereum_consensus::serde::as_str")] u64);
#[derive(serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
struct Nums(#[serde(with = "ethereum_consensus::serde::seq_of_str")] List<u64, 3>);

/// A number with the given count of decimal digits.
fn decimal(name: &str, digits: u32) -> u64 {
    let lo = if digits == 1 { 0 } else { 10u64.pow(digits - 1) };
    sym::range(name, lo, 10u64.pow(digits) - 1)
}
fn digits_of(x: u64, n: u32) -> Vec<u8> {
    (0..n).rev().map(|k| b'0' + (x / 10u64.pow(k) % 10) as u8).collect()
}
fn numbers() {
    let k = sym::pick("digits", 1, if sym::thorough() { 4 } else { 3 }) as u32;
    let x = decimal("x", k);
    let s = serde_json::to_string(&Num(x)).unwrap();
    sym::check(sym::eq_bytes(s.as_bytes(), &quoted(&digits_of(x, k))), "a number is written as a decimal string");
    let r: Num = serde_json::from_str(&s).unwrap();
    sym::check(r.0 == x, "a number reads back");
    sym::cover("end");
}
fn extreme_numbers() {
    let x = [0, 9, 10, u32::MAX as u64, u32::MAX as u64 + 1, (1 << 53) + 1, u64::MAX - 1, u64::MAX][sym::pick("x", 0, 7) as usize];
    let s = serde_json::to_string(&Num(x)).unwrap();
    let r: Num = serde_json::from_str(&s).unwrap();
    sym::check(r.0 == x, "a number reads back");
    sym::check(s.len() >= 3 && s.as_bytes()[0] == b'"', "a number is a string");
    sym::check(serde_json::from_reader::<_, Num>("184".as_bytes()).is_err(), "a bare number is refused");
    sym::check(serde_json::from_str::<Num>("\"18446744073709551616\"").is_err(), "too large a number is refused");
    sym::cover("end");
}
fn number_text() {
    let n = sym::pick("length", 0, 3) as usize;
    let body = ascii("char", n);
    for c in body.as_bytes() {
        sym::assume((*c != b'"') & (*c != b'\\') & (*c != b'+'));
    }
    let mut ok = n > 0;
    let mut v = 0u64;
    for c in body.as_bytes() {
        ok &= (*c >= b'0') & (*c <= b'9');
        v = v.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as u64);
    }
    match serde_json::from_str::<Num>(&format!("\"{body}\"")) {
        Ok(x) => {
            sym::check(ok, "only decimal digits are accepted");
            sym::check(x.0 == v, "the value of the digits");
            sym::cover("read");
        }
        Err(_) => {
            sym::check(!ok, "decimal digits are accepted");
            sym::cover("refused");
        }
    }
}
fn sequences() {
    let n = sym::pick("length", 0, 4) as usize;
    let k = sym::pick("digits", 1, 2) as u32;
    let xs: Vec<u64> = (0..n).map(|_| decimal("x", k)).collect();
    let mut text = b"[".to_vec();
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            text.push(b',');
        }
        text.extend_from_slice(&quoted(&digits_of(*x, k)));
    }
    text.push(b']');
    let text = String::from_utf8(text).unwrap();
    match List::<u64, 3>::try_from(xs.clone()) {
        Ok(l) => {
            let s = serde_json::to_string(&Nums(l)).unwrap();
            sym::check(sym::eq_bytes(s.as_bytes(), text.as_bytes()), "a sequence of numbers is written as decimal strings");
            let r: Nums = serde_json::from_str(&s).unwrap();
            sym::check(eq_u64s(&r.0, &xs), "a sequence reads back");
            // from a source that cannot lend its text
            let r = serde_json::from_reader::<_, Nums>(s.as_bytes());
            sym::check(r.is_ok(), "a sequence reads back from a stream");
            sym::check(eq_u64s(&r.unwrap().0, &xs), "a sequence read from a stream");
            sym::cover("written");
        }
        Err(_) => {
            sym::check(serde_json::from_reader::<_, Nums>(text.as_bytes()).is_err(), "too long a sequence is refused");
            sym::cover("too long");
        }
    }
    sym::check(serde_json::from_reader::<_, Nums>("[\"1\",\"x\"]".as_bytes()).is_err(), "a broken element is refused");
    sym::check(serde_json::from_reader::<_, Nums>("[1]".as_bytes()).is_err(), "a bare number is refused");
}
/// One element of a sequence is arbitrary text.
fn sequence_text() {
    let n = sym::pick("length", 0, 2) as usize;
    let body = ascii("char", n);
    let mut ok = n > 0;
    let mut v = 0u64;
    for c in body.as_bytes() {
        sym::assume((*c != b'"') & (*c != b'\\') & (*c != b'+'));
        ok &= (*c >= b'0') & (*c <= b'9');
        v = v.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as u64);
    }
    let (text, want) = match sym::pick("place", 0, 2) {
        0 => (format!("[\"{body}\"]"), vec![v]),
        1 => (format!("[\"{body}\",\"5\"]"), vec![v, 5]),
        _ => (format!("[\"5\",\"{body}\"]"), vec![5, v]),
    };
    match serde_json::from_reader::<_, Nums>(text.as_bytes()) {
        Ok(r) => {
            sym::check(ok, "every element of a sequence is a number");
            sym::check(eq_u64s(&r.0, &want), "the elements of a sequence, in order");
            sym::cover("read");
        }
        Err(_) => {
            sym::check(!ok, "a sequence of numbers is accepted");
            sym::cover("refused");
        }
    }
}
fn short_root() -> Root {
    let mut b = [0xc5u8; 32];
    for i in [0, 1, 15, 30, 31] {
        b[i] = sym::any_u8("root");
    }
    Root::try_from(b.as_ref()).unwrap()
}
fn containers() {
    let c = Checkpoint { epoch: decimal("epoch", 2), root: short_root() };
    let s = serde_json::to_string(&c).unwrap();
    let mut want = b"{\"epoch\":".to_vec();
    want.extend_from_slice(&quoted(&digits_of(c.epoch, 2)));
    want.extend_from_slice(b",\"root\":");
    want.extend_from_slice(&quoted(&hex_of(c.root.as_ref())));
    want.push(b'}');
    sym::check(sym::eq_bytes(s.as_bytes(), &want), "a container is written field by field");
    let r: Checkpoint = serde_json::from_str(&s).unwrap();
    sym::check((r.epoch == c.epoch) & (r.root == c.root), "a container reads back");
    sym::cover("end");
}
fn validators() {
    let mut v = active_validator(3);
    let mut b = [7u8; 32];
    b[31] = 0x5a;
    v.withdrawal_credentials = Bytes32::try_from(b.as_ref()).unwrap();
    v.slashed = sym::pick_bool("slashed");
    v.activation_epoch = [0, 7, 123, u64::MAX][sym::pick("activation", 0, 3) as usize];
    let s = serde_json::to_string(&v).unwrap();
    let r: Validator = serde_json::from_str(&s).unwrap();
    sym::check(eq_validator(&r, &v), "a validator reads back");
    let j = serde_json::from_str::<serde_json::Value>(&s).unwrap();
    for f in ["effective_balance", "activation_eligibility_epoch", "activation_epoch", "exit_epoch", "withdrawable_epoch"] {
        sym::check(j[f].is_string(), "numbers are strings");
    }
    sym::check(j["exit_epoch"] == "18446744073709551615" && j["effective_balance"] == "32000000000", "the values");
    sym::check(j["slashed"].is_boolean(), "booleans are booleans");
    sym::cover("end");
}
fn forks() {
    use ethereum_consensus::Fork::*;
    for (f, n) in [(Phase0, "phase0"), (Altair, "altair"), (Bellatrix, "bellatrix"), (Capella, "capella"), (Deneb, "deneb"), (Electra, "electra")] {
        sym::check(format!("{f}") == n, "fork name");
        let s = serde_json::to_string(&f).unwrap();
        sym::check(s[1..s.len() - 1] == *n, "fork text");
        let r: ethereum_consensus::Fork = serde_json::from_str(&s).unwrap();
        sym::check(format!("{r}") == n, "fork reads back");
    }
    let n = sym::pick("length", 0, 3) as usize;
    let body = ascii("char", n);
    for c in body.as_bytes() {
        sym::assume((*c != b'"') & (*c != b'\\'));
    }
    sym::check(serde_json::from_reader::<_, ethereum_consensus::Fork>(format!("\"{body}\"").as_bytes()).is_err(), "other names are refused");
    sym::cover("end");
}

sym::harness! {
    fn h_hex_decode() { hex_decode() }
    fn h_byte_vector() { byte_vector() }
    fn h_length() { byte_vector_length() }
    fn h_numbers() { numbers() }
    fn h_extreme_numbers() { extreme_numbers() }
    fn h_number_text() { number_text() }
    fn h_sequences() { sequences() }
    fn h_sequence_text() { sequence_text() }
    fn h_containers() { containers() }
    fn h_validators() { validators() }
    fn h_forks() { forks() }
}
