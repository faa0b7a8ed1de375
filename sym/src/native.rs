//! Concrete runtime for replaying inputs found by the symbolic executor against the real code.
//! Input: lines "v <value>" (in the order the harness asks for them) and
//! "u <tag> x<hex args> x<hex out>".  Output: "CHECK-FAIL <msg>", "COVER <msg>", "OBS <v>",
//! "PANIC <location>", "END".
use std::collections::HashMap;
use std::io::Write;
use std::sync::Mutex;

struct St {
    vals: Vec<u64>,
    pos: usize,
    ufs: HashMap<(String, Vec<u8>), Vec<u8>>,
}
static ST: Mutex<Option<St>> = Mutex::new(None);

fn unhex(s: &str) -> Vec<u8> {
    let s = &s[1..];
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn out(s: String) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}

pub fn run(entries: &[(&str, extern "C" fn())]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let (name, file) = (&args[1], &args[2]);
    let mut st = St { vals: vec![], pos: 0, ufs: HashMap::new() };
    for l in std::fs::read_to_string(file).unwrap().lines() {
        let p: Vec<&str> = l.split(' ').collect();
        match p[0] {
            "v" => st.vals.push(p[1].parse().unwrap()),
            "u" => {
                st.ufs.insert((p[1].to_string(), unhex(p[2])), unhex(p[3]));
            }
            _ => {}
        }
    }
    *ST.lock().unwrap() = Some(st);
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        out(format!("PANIC {l}"));
    }));
    for (n, f) in entries {
        if n == name {
            f();
            out("END".into());
            return 0;
        }
    }
    out("NO-SUCH-ENTRY".into());
    2
}

fn next() -> u64 {
    let mut g = ST.lock().unwrap();
    let s = g.as_mut().unwrap();
    let v = s.vals.get(s.pos).copied().unwrap_or(0);
    s.pos += 1;
    v
}

#[no_mangle]
extern "C" fn __sym_var(_n: *const u8, _l: usize, bits: u32) -> u64 {
    let v = next();
    if bits >= 64 {
        v
    } else {
        v & ((1 << bits) - 1)
    }
}
#[no_mangle]
extern "C" fn __sym_range(_n: *const u8, _l: usize, lo: u64, hi: u64) -> u64 {
    if lo > hi {
        out("ASSUME-FALSE".into());
        std::process::exit(0)
    }
    next().clamp(lo, hi)
}
#[no_mangle]
extern "C" fn __sym_merge(_on: u8) {}
#[no_mangle]
extern "C" fn __sym_ite(c: u8, a: u64, b: u64) -> u64 {
    if c != 0 {
        a
    } else {
        b
    }
}
#[no_mangle]
extern "C" fn __sym_assume(c: u8) {
    if c == 0 {
        out("ASSUME-FALSE".into());
        std::process::exit(0)
    }
}
#[no_mangle]
unsafe extern "C" fn __sym_check(c: u8, m: *const u8, n: usize) {
    if c == 0 {
        out(format!("CHECK-FAIL {}", text(m, n)));
    }
}
#[no_mangle]
unsafe extern "C" fn __sym_cover(m: *const u8, n: usize) {
    out(format!("COVER {}", text(m, n)));
}
#[no_mangle]
extern "C" fn __sym_allow_panic(on: u8) {
    out(format!("ALLOW-PANIC {on}"));
}
#[no_mangle]
extern "C" fn __sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn __sym_observe(v: u64) {
    out(format!("OBS {v}"));
}
#[no_mangle]
extern "C" fn __sym_same(a: *const u8, b: *const u8, n: usize) -> u8 {
    unsafe { (std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)) as u8 }
}
#[no_mangle]
extern "C" fn __sym_free_uf(_t: *const u8, _n: usize, _on: u8) {}
#[no_mangle]
unsafe extern "C" fn __sym_uf(t: *const u8, tn: usize, d: *const u8, n: usize, o: *mut u8, on: usize) {
    let tag = text(t, tn);
    let args = if n == 0 { vec![] } else { std::slice::from_raw_parts(d, n).to_vec() };
    let r = lookup(&tag, args, on);
    std::ptr::copy_nonoverlapping(r.as_ptr(), o, on);
}
fn lookup(tag: &str, args: Vec<u8>, on: usize) -> Vec<u8> {
    let g = ST.lock().unwrap();
    let key = (tag.to_string(), args);
    match g.as_ref().and_then(|s| s.ufs.get(&key)) {
        Some(v) => v.clone(),
        None => uf_default(tag, &key.1, on),
    }
}
#[no_mangle]
unsafe extern "C" fn __sym_sha256(d: *const u8, n: usize, o: *mut u8) {
    let args = if n == 0 { vec![] } else { std::slice::from_raw_parts(d, n).to_vec() };
    let r = lookup("sha256", args, 32);
    std::ptr::copy_nonoverlapping(r.as_ptr(), o, 32);
}
#[no_mangle]
extern "C" fn __sym_isqrt(v: u64) -> u64 {
    let mut r = (v as f64).sqrt() as u64;
    while (r as u128) * (r as u128) > v as u128 {
        r -= 1;
    }
    while ((r + 1) as u128) * ((r + 1) as u128) <= v as u128 {
        r += 1;
    }
    r
}
#[no_mangle]
extern "C" fn __sym_depth() -> u64 {
    std::env::var("SYM_DEPTH").ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}

// ---------------------------------------------------------------- sha-256 (concrete)
fn sha256(data: &[u8]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
        0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
        0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
        0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
        0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
        0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
        0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
        0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut msg = data.to_vec();
    let bitlen = (data.len() as u64) * 8;
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&bitlen.to_be_bytes());
    for chunk in msg.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([chunk[4 * i], chunk[4 * i + 1], chunk[4 * i + 2], chunk[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

/// The remainder of two little-endian numbers of 48 bytes.
fn remainder(args: &[u8]) -> [u8; 32] {
    let mut r = [0u8; 49];
    let m = &args[48..];
    if m.iter().all(|b| *b == 0) {
        return [0; 32];
    }
    for bit in (0..384).rev() {
        let mut carry = args[bit / 8] >> (bit % 8) & 1;
        for b in r.iter_mut() {
            let c = *b >> 7;
            *b = *b << 1 | carry;
            carry = c;
        }
        if r[48] != 0 || r[..48].iter().rev().cmp(m.iter().rev()) != std::cmp::Ordering::Less {
            let mut borrow = 0i16;
            for i in 0..49 {
                let d = r[i] as i16 - if i < 48 { m[i] as i16 } else { 0 } - borrow;
                borrow = (d < 0) as i16;
                r[i] = (d + 256 * borrow) as u8;
            }
        }
    }
    r[..32].try_into().unwrap()
}

/// Value of an uninterpreted function where nothing constrains it: the real SHA-256 for the tag
/// "sha256", the remainder for "mod", otherwise a digest of tag and arguments (one bit for booleans).
fn uf_default(tag: &str, args: &[u8], out_len: usize) -> Vec<u8> {
    if tag == "sha256" {
        return sha256(args).to_vec();
    }
    if tag == "mod" && args.len() == 96 && out_len == 32 {
        return remainder(args).to_vec();
    }
    let mut out = vec![];
    let mut ctr = 0u8;
    while out.len() < out_len {
        let mut m = tag.as_bytes().to_vec();
        m.push(0);
        m.push(ctr);
        m.extend_from_slice(args);
        out.extend_from_slice(&sha256(&m));
        ctr += 1;
    }
    out.truncate(out_len);
    if out_len == 1 {
        out[0] &= 1;
    }
    out
}
