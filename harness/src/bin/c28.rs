//! C28: packing bytes into blobs and back, with small blobs (two field elements) and every byte symbolic.
#![no_main]
#![allow(dead_code)]
use harness::refs::*;
use harness::*;

pub mod blobs {
    #[path = "/repo/ethereum-consensus/src/bin/ec/blobs/decode.rs"]
    pub mod decode;
    #[path = "/repo/ethereum-consensus/src/bin/ec/blobs/encode.rs"]
    pub mod encode;
    #[path = "/repo/ethereum-consensus/src/bin/ec/blobs/framing.rs"]
    pub mod framing;
    pub const BYTES_PER_BLOB: usize = 64;
    pub const BYTES_PER_FIELD_ELEMENT: usize = 32;
    pub const BITS_PER_FIELD_ELEMENT: usize = 254;
    pub type Blob = ethereum_consensus::ssz::prelude::ByteVector<64>;
    #[derive(Debug)]
    pub enum Error {
        InvalidFieldElement,
        ExpectedHeaderForSizedFraming,
        UnsupportedSizedFramingVersion,
        InvalidPayloadSize,
        Json(serde_json::Error),
        Io(std::io::Error),
        Consensus(ethereum_consensus::Error),
    }
    impl From<serde_json::Error> for Error {
        fn from(e: serde_json::Error) -> Self {
            Error::Json(e)
        }
    }
    impl From<std::io::Error> for Error {
        fn from(e: std::io::Error) -> Self {
            Error::Io(e)
        }
    }
    impl From<ethereum_consensus::Error> for Error {
        fn from(e: ethereum_consensus::Error) -> Self {
            Error::Consensus(e)
        }
    }
}
#[path = "/repo/ethereum-consensus/src/bin/ec/bls.rs"]
pub mod bls;
use blobs::*;

/// Number of small blobs holding `n` bytes: at least one.
fn blobs_for(n: usize) -> usize {
    ((field_elements_for(n) + 1) / 2).max(1)
}
fn flat(blobs: &[Blob]) -> Vec<u8> {
    let mut v = vec![];
    for b in blobs {
        v.extend_from_slice(b.as_ref());
    }
    v
}

#[no_mangle]
pub extern "C" fn h_pack() {
    let n = sym::pick("length", 0, if sym::thorough() { 260 } else { 200 }) as usize;
    let data = sym::any_vec("data", n);
    let r = encode::pack_into_blobs(&data);
    sym::check(r.is_ok(), "any bytes can be packed");
    if let Ok(r) = r {
        let k = blobs_for(n);
        sym::check(r.len() == k, "as many blobs as the data needs");
        let want = field_elements(&data, 2 * k);
        sym::check(sym::eq_bytes(&flat(&r), &want), "every bit of the data is packed, 254 bits to a field element");
        let back = decode::unpack_from_blobs(&r).unwrap();
        sym::check(back.len() == 64 * k, "unpacking returns the whole capacity");
        sym::check(sym::eq_bytes(&back[..n], &data), "unpacking returns the data");
        sym::check(sym::eq_bytes(&back[n..], &vec![0u8; 64 * k - n]), "followed by zeros");
        sym::cover("packed");
    }
}

#[no_mangle]
pub extern "C" fn h_unpack() {
    // any blobs at all, also ones whose unusable bits are set
    let k = sym::pick("blobs", 0, 3) as usize;
    let data = sym::any_vec("blobs", 64 * k);
    let blobs: Vec<Blob> = data.chunks_exact(64).map(|c| Blob::try_from(c).unwrap()).collect();
    let back = decode::unpack_from_blobs(&blobs).unwrap();
    sym::check(back.len() == 64 * k, "unpacking returns the whole capacity");
    let mut cleared = data.clone();
    for e in 0..2 * k {
        cleared[32 * e] &= 0x3f;
    }
    sym::check(
        sym::eq_bytes(&field_elements(&back, 2 * k), &cleared),
        "unpacking reads the 254 usable bits of every field element in order",
    );
    let used = (2 * k * 254 + 7) / 8;
    if k > 0 {
        sym::check(sym::eq_bytes(&back[used..], &vec![0u8; 64 * k - used]), "nothing else is made up");
    }
    sym::cover("unpacked");
}

#[no_mangle]
pub extern "C" fn h_header() {
    let n = sym::any_usize("length");
    match framing::sized_header(n) {
        Ok(h) => {
            sym::check(n <= u32::MAX as usize, "a header only exists for sizes it can express");
            let b = (n as u32).to_be_bytes();
            sym::check(sym::eq_bytes(&h, &[0, b[0], b[1], b[2], b[3]]), "version 0 and the big-endian size");
            sym::cover("header");
        }
        Err(_) => {
            sym::check(n > u32::MAX as usize, "a header exists for every size it can express");
            sym::cover("too long");
        }
    }
}

#[no_mangle]
pub extern "C" fn h_payload() {
    let n = sym::pick("length", 0, 24) as usize;
    let s = sym::any_vec("stream", n);
    let r = framing::payload_from_sized(&s);
    if n < 5 {
        sym::check(r.is_err(), "a stream without a whole header is refused");
        return;
    }
    let size = u32::from_be_bytes([s[1], s[2], s[3], s[4]]) as usize;
    let want = (s[0] == 0) & (size <= n - 5);
    sym::check(r.is_ok() == want, "a payload is returned exactly when the version is known and the size fits");
    if let Ok(p) = r {
        let k = sym::concretize(size as u64) as usize;
        sym::check(p.len() == k, "the payload has the size of the header");
        sym::check(sym::eq_bytes(p, &s[5..5 + k]), "the payload follows the header");
        sym::cover("payload");
    } else {
        sym::cover("refused");
    }
}

#[no_mangle]
pub extern "C" fn h_round_trip() {
    let n = sym::pick("length", 0, 150) as usize;
    let data = sym::any_vec("data", n);
    let sized = sym::pick_bool("sized");
    let mode = || if sized { framing::Mode::Sized } else { framing::Mode::Raw };
    let r = encode::from_reader(&data[..], mode());
    sym::check(r.is_ok(), "any bytes can be encoded");
    let r = r.unwrap();
    let mut stream = vec![];
    if sized {
        stream.extend_from_slice(&[0, 0, 0, 0, n as u8]);
    }
    stream.extend_from_slice(&data);
    let k = blobs_for(stream.len());
    sym::check(r.len() == k, "as many blobs as the framed data needs");
    sym::check(sym::eq_bytes(&flat(&r), &field_elements(&stream, 2 * k)), "the blobs hold the framed data");
    let back = decode::unpack_from_blobs(&r).unwrap();
    if sized {
        let p = framing::payload_from_sized(&back);
        sym::check(p.is_ok(), "what was framed can be read back");
        sym::check(sym::eq_bytes(p.unwrap(), &data), "sized framing is lossless");
        sym::cover("sized");
    } else {
        sym::check(sym::eq_bytes(&back[..n], &data), "raw framing keeps the data in front");
        sym::cover("raw");
    }
}

#[no_mangle]
pub extern "C" fn h_json() {
    // what `encode` prints, `decode` reads
    let n = [0usize, 1, 20, 64, 70][sym::pick("length", 0, 4) as usize];
    let mut data = vec![0x5au8; n];
    for i in 0..n.min(3) {
        data[i * (n / 3)] = sym::any_u8("data");
    }
    let sized = sym::pick_bool("sized");
    let mode = || if sized { framing::Mode::Sized } else { framing::Mode::Raw };
    let blobs = encode::from_reader(&data[..], mode()).unwrap();
    let text = serde_json::to_vec(&blobs).unwrap();
    let mut out = vec![];
    let r = decode::to_writer_from_json(&text[..], &mut out, mode());
    sym::check(r.is_ok(), "the JSON of encoded blobs decodes");
    if sized {
        sym::check(sym::eq_bytes(&out, &data), "encode and decode are inverse");
        sym::cover("sized");
    } else {
        sym::check(out.len() >= n && sym::eq_bytes(&out[..n], &data), "encode and decode are inverse up to padding");
        sym::cover("raw");
    }
}
sym::main! { h_pack = h_pack, h_unpack = h_unpack, h_header = h_header, h_payload = h_payload, h_round_trip = h_round_trip, h_json = h_json }
