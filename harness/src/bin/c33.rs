//! C33: peer identities and the published limits of the network.
#![no_main]
use ethereum_consensus::networking::PeerId;
use std::str::FromStr;

fn b58(b: &[u8]) -> String {
    // by repeated division of the whole number
    let mut n = b.to_vec();
    let mut out = vec![];
    loop {
        let mut rem = 0u32;
        let mut any = false;
        for x in n.iter_mut() {
            let v = rem * 256 + *x as u32;
            *x = (v / 58) as u8;
            rem = v % 58;
            any |= *x != 0;
        }
        out.push(rem as usize);
        if !any {
            break;
        }
    }
    while out.last() == Some(&0) {
        out.pop();
    }
    for x in b {
        if *x != 0 {
            break;
        }
        out.push(0);
    }
    let a = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    out.iter().rev().map(|d| a[*d] as char).collect()
}
/// An identity's bytes: the code of a hash, a length and as many bytes (or not).
fn bytes(concrete: bool) -> (Vec<u8>, bool, u64, usize) {
    let codes: [&[u8]; 6] = [&[0], &[0x12], &[0x13], &[0x11], &[0x92, 1], &[0xb2, 1]];
    let k = sym::pick("code", 0, if concrete { 5 } else { 6 }) as usize;
    let lens = [0usize, 1, 20, 31, 32, 33, 41, 42, 43, 63, 64, 65];
    let n = lens[sym::pick("length", 0, lens.len() as u64 - 1) as usize];
    let off = sym::pick("missing, exact, additional", 0, 2) as usize;
    let mut b = vec![];
    let code = if k == 6 {
        b.push(sym::range("code", 1, 127) as u8);
        b[0] as u64
    } else {
        b.extend_from_slice(codes[k]);
        [0, 0x12, 0x13, 0x11, 0x92, 0xb2][k]
    };
    b.push(n as u8);
    for i in 0..(n + off).saturating_sub(1) {
        b.push(if concrete { (i * 7 + 1) as u8 } else { sym::any_u8("digest") });
    }
    let exact = off == 1 && n <= 64 || n == 0 && off == 0;
    (b, exact, code, n)
}
sym::harness! {
    fn h_bytes() {
        let (b, exact, code, n) = bytes(false);
        let r = PeerId::from_bytes(&b);
        // a hash of a public key, or the key itself when it is short
        let known = code == 0x12 || code == 0 && n <= 42;
        sym::check(r.is_ok() == (exact && known), "which bytes identify a peer");
        if let Ok(p) = r {
            sym::check(sym::eq_bytes(&p.to_bytes(), &b), "the bytes come back");
            sym::cover("accepted");
        } else {
            sym::cover("refused");
        }
    }
    fn h_text() {
        let (b, exact, code, n) = bytes(true);
        let s = b58(&b);
        let json = format!("\"{s}\"");
        let r = PeerId::from_str(&s);
        let known = code == 0x12 || code == 0 && n <= 42;
        sym::check(r.is_ok() == (exact && known), "which text identifies a peer");
        let j = serde_json::from_str::<PeerId>(&json);
        sym::check(j.is_ok() == r.is_ok(), "which JSON identifies a peer");
        if let Ok(p) = r {
            sym::check(p.to_bytes() == b, "the text's bytes");
            sym::check(j.unwrap() == p, "JSON and text agree");
            sym::check(p.to_base58() == s, "the text comes back");
            sym::check(format!("{p}") == s, "and is what is displayed");
            sym::check(serde_json::to_string(&p).unwrap() == json, "and what is serialized");
            sym::cover("accepted");
        }
        // characters outside of the alphabet
        for bad in ["0", "O", "I", "l", " ", "-"] {
            sym::check(PeerId::from_str(&format!("{s}{bad}")).is_err(), "not base 58");
        }
    }
    fn h_equal() {
        let n = sym::pick("length", 0, 3) as usize;
        let mut ids = vec![];
        for _ in 0..2 {
            let mut b = vec![0, n as u8];
            for _ in 0..n {
                b.push(sym::any_u8("key"));
            }
            ids.push((PeerId::from_bytes(&b).unwrap(), b));
        }
        let same = ids[0].0 == ids[1].0;
        sym::check(same == sym::eq_bytes(&ids[0].1, &ids[1].1), "two identities are equal when their bytes are");
        sym::cover(if same { "equal" } else { "different" });
    }
    fn h_limits() {
        use ethereum_consensus::{altair, deneb::networking as d, phase0::networking as p};
        use std::time::Duration;
        sym::check(p::ATTESTATION_SUBNET_COUNT == 64, "ATTESTATION_SUBNET_COUNT");
        sym::check(p::GOSSIP_MAX_SIZE == 1 << 20, "GOSSIP_MAX_SIZE");
        sym::check(p::MAX_REQUEST_BLOCKS == 1024, "MAX_REQUEST_BLOCKS");
        // MIN_VALIDATOR_WITHDRAWABILITY_DELAY + CHURN_LIMIT_QUOTIENT / 2
        sym::check(p::MIN_EPOCHS_FOR_BLOCK_REQUESTS == 256 + 65536 / 2, "MIN_EPOCHS_FOR_BLOCK_REQUESTS");
        sym::check(p::MAX_CHUNK_SIZE == 1 << 20, "MAX_CHUNK_SIZE");
        sym::check(p::TTFB_TIMEOUT == Duration::from_secs(5), "TTFB_TIMEOUT");
        sym::check(p::RESP_TIMEOUT == Duration::from_secs(10), "RESP_TIMEOUT");
        sym::check(p::ATTESTATION_PROPAGATION_SLOT_RANGE == 32, "ATTESTATION_PROPAGATION_SLOT_RANGE");
        sym::check(p::MAXIMUM_GOSSIP_CLOCK_DISPARITY == Duration::from_millis(500), "MAXIMUM_GOSSIP_CLOCK_DISPARITY");
        sym::check(altair::constants::SYNC_COMMITTEE_SUBNET_COUNT == 4, "SYNC_COMMITTEE_SUBNET_COUNT");
        sym::check(d::MAX_REQUEST_BLOCKS_DENEB == 128, "MAX_REQUEST_BLOCKS_DENEB");
        sym::check(d::MAX_REQUEST_BLOB_SIDECARS == 128 * 6, "MAX_REQUEST_BLOB_SIDECARS");
        sym::check(d::MIN_EPOCHS_FOR_BLOB_SIDECARS_REQUESTS == 4096, "MIN_EPOCHS_FOR_BLOB_SIDECARS_REQUESTS");
        sym::check(d::BLOB_SIDECAR_SUBNET_COUNT == 6, "BLOB_SIDECAR_SUBNET_COUNT");
        sym::check(ethereum_consensus::networking::MAX_INLINE_KEY_LENGTH == 42, "MAX_INLINE_KEY_LENGTH");
        sym::cover("limits");
    }
}
