//! C28: packing bytes into blobs of the real size, around the points where a blob is full; bundles.
#![no_main]
#![allow(dead_code)]
use harness::refs::*;
use harness::*;

pub mod blobs {
    #[path = "/repo/ethereum-consensus/src/bin/ec/blobs/bundler.rs"]
    pub mod bundler;
    #[path = "/repo/ethereum-consensus/src/bin/ec/blobs/decode.rs"]
    pub mod decode;
    #[path = "/repo/ethereum-consensus/src/bin/ec/blobs/encode.rs"]
    pub mod encode;
    #[path = "/repo/ethereum-consensus/src/bin/ec/blobs/framing.rs"]
    pub mod framing;
    pub const BYTES_PER_BLOB: usize = 131072;
    pub const BYTES_PER_FIELD_ELEMENT: usize = 32;
    pub const BITS_PER_FIELD_ELEMENT: usize = 254;
    pub type Blob = ethereum_consensus::ssz::prelude::ByteVector<131072>;
    #[derive(Debug)]
    pub enum Error {
        InvalidFieldElement,
        ExpectedHeaderForSizedFraming,
        UnsupportedSizedFramingVersion,
        InvalidPayloadSize,
        Json(serde_json::Error),
        Io(std::io::Error),
        Consensus(ethereum_consensus::Error),
    }
    impl From<serde_json::Error> for Error {
        fn from(e: serde_json::Error) -> Self {
            Error::Json(e)
        }
    }
    impl From<std::io::Error> for Error {
        fn from(e: std::io::Error) -> Self {
            Error::Io(e)
        }
    }
    impl From<ethereum_consensus::Error> for Error {
        fn from(e: ethereum_consensus::Error) -> Self {
            Error::Consensus(e)
        }
    }
}
#[path = "/repo/ethereum-consensus/src/bin/ec/bls.rs"]
pub mod bls;

#[no_mangle]
pub extern "C" fn h_boundary() {
    use blobs::*;
    const CAPACITY: usize = 130048; // bytes: 4096 field elements of 254 bits
    let d = [0usize, 1, 2, 30, 31, 32, 33, 34][sym::pick("around", 0, 7) as usize];
    let over = sym::pick_bool("over");
    let n = if over { CAPACITY + d } else { CAPACITY - d };
    let mut data = vec![0xa7u8; n];
    let tail = sym::any_bytes::<66>("tail");
    for i in 0..66 {
        data[n - 66 + i] = tail[i];
    }
    let r = encode::pack_into_blobs(&data);
    sym::check(r.is_ok(), "any bytes can be packed");
    let r = r.unwrap();
    let k = if n > CAPACITY { 2 } else { 1 };
    sym::check(r.len() == k, "as many blobs as the data needs");
    let last = &r[k - 1];
    // the whole of the last blob, and of the first one's end
    let want = field_elements(&data, 4096 * k);
    sym::check(sym::eq_bytes(r[0].as_ref(), &want[..131072]), "every bit of the data is packed, 254 bits to a field element");
    sym::check(sym::eq_bytes(&last.as_ref()[..64], &want[131072 * (k - 1)..131072 * (k - 1) + 64]), "the rest goes into the next blob");
    let back = decode::unpack_from_blobs(&r).unwrap();
    sym::check(sym::eq_bytes(&back[n - 100..n], &data[n - 100..]), "unpacking returns the data");
    sym::check(sym::eq_bytes(&back[n..n + 100], &[0; 100]), "followed by zeros");
    sym::cover("packed");
}

#[no_mangle]
pub extern "C" fn h_bundle() {
    for t in ["kzg_commit_err", "kzg_blob_proof_err", "kzg_blob_verify_err", "kzg_blob_verify"] {
        sym::free_uf(t, true);
    }
    let n = sym::pick("blobs", 0, 2) as usize;
    let blobs: Vec<blobs::Blob> = (0..n)
        .map(|i| {
            let mut b = vec![0u8; 131072];
            b[7] = i as u8 + 1;
            blobs::Blob::try_from(b.as_ref()).unwrap()
        })
        .collect();
    let settings = ethereum_consensus::crypto::kzg::KzgSettings::default();
    let r = blobs::bundler::bundle(blobs.clone(), &settings);
    let mut want = true;
    let mut cs = vec![];
    let mut ps = vec![];
    for b in &blobs {
        want = want && !blst::uf_bool("kzg_commit_err", &blst::enc(&[b.as_ref()]));
        let c = blst::uf::<48>("kzg_commit", &blst::enc(&[b.as_ref()]));
        want = want && !blst::uf_bool("kzg_blob_proof_err", &blst::enc(&[b.as_ref(), &c]));
        let p = blst::uf::<48>("kzg_blob_proof", &blst::enc(&[b.as_ref(), &c]));
        cs.push(c);
        ps.push(p);
    }
    for i in 0..n {
        want = want && !blst::uf_bool("kzg_blob_verify_err", &blst::enc(&[blobs[i].as_ref(), &cs[i], &ps[i]]));
    }
    for i in 0..n {
        want = want && blst::uf_bool("kzg_blob_verify", &blst::enc(&[blobs[i].as_ref(), &cs[i], &ps[i]]));
    }
    sym::check(r.is_ok() == want, "a bundle exists exactly when every blob has a commitment and a proof that verifies");
    if let Ok(r) = r {
        sym::check(r.commitments.len() == n && r.proofs.len() == n && r.blobs.len() == n, "one commitment and one proof to a blob");
        for i in 0..n {
            sym::check(sym::eq_bytes(r.commitments[i].as_ref(), &cs[i]), "the commitment to the blob");
            sym::check(sym::eq_bytes(r.proofs[i].as_ref(), &ps[i]), "the proof of the blob");
            sym::check(r.blobs[i] == blobs[i], "the blobs themselves, in order");
        }
        sym::cover("bundle");
    }
}
sym::main! { h_boundary = h_boundary, h_bundle = h_bundle }
