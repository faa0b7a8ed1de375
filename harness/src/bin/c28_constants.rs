//! C28: the sizes the command line tool really packs with.
#![no_main]
#![allow(dead_code)]
#[path = "/repo/ethereum-consensus/src/bin/ec/blobs/mod.rs"]
mod blobs;
#[path = "/repo/ethereum-consensus/src/bin/ec/bls.rs"]
mod bls;

#[no_mangle]
pub extern "C" fn h_constants() {
    sym::check(blobs::BYTES_PER_BLOB == 131072, "bytes of a blob");
    sym::check(blobs::BYTES_PER_FIELD_ELEMENT == 32, "bytes of a field element");
    sym::check(blobs::BITS_PER_FIELD_ELEMENT == 254, "usable bits of a field element");
    let m = [
        0x73u8, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd,
        0xa4, 0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
    ];
    sym::check(sym::eq_bytes(&bls::MODULUS.to_be_bytes::<32>(), &m), "the order of the scalar field");
    sym::cover("constants");
}
sym::main! { h_constants = h_constants }
