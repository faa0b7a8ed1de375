//! C26: the BLS signature scheme and the KZG commitments as the rest of the crate uses them.
#![no_main]
use ethereum_consensus::crypto::*;
use harness::*;

const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";

fn pk_valid(k: &BlsPublicKey) -> bool {
    blst::encoding_valid("bls_pk_decodes", k.as_ref()) && blst::encoding_valid("bls_pk_in_group", k.as_ref())
}
fn sig_valid(s: &BlsSignature) -> bool {
    blst::encoding_valid("bls_sig_decodes", s.as_ref()) && blst::encoding_valid("bls_sig_in_group", s.as_ref())
}
/// Nothing is known about the curve: every outcome is arbitrary, even on concrete encodings.
fn free() {
    for t in [
        "bls_verify", "bls_aggregate_verify", "bls_pk_decodes", "bls_pk_in_group", "bls_sig_decodes", "bls_sig_in_group",
        "kzg_commit_err", "kzg_proof_err", "kzg_blob_proof_err", "kzg_verify_err", "kzg_verify", "kzg_blob_verify_err",
        "kzg_blob_verify",
    ] {
        sym::free_uf(t, true);
    }
}
fn msg() -> Vec<u8> {
    let n = [0usize, 1, 32, 33][sym::pick("message length", 0, 3) as usize];
    sym::any_vec("message", n)
}
fn whole_key(name: &str) -> BlsPublicKey {
    BlsPublicKey::try_from(sym::any_bytes::<48>(name).as_ref()).unwrap()
}
fn whole_signature(name: &str) -> BlsSignature {
    BlsSignature::try_from(sym::any_bytes::<96>(name).as_ref()).unwrap()
}

#[no_mangle]
pub extern "C" fn h_verify_signature() {
    free();
    let k = whole_key("key");
    let s = whole_signature("signature");
    let m = msg();
    let ok = verify_signature(&k, &m, &s).is_ok();
    let want = pk_valid(&k) && sig_valid(&s) && blst::verify_outcome(&[k.as_ref()], &m, DST, s.as_ref());
    sym::check(ok == want, "a signature verifies exactly when the key and it are valid and it signs this message for this key");
    if want {
        sym::cover("accepted");
    }
}

fn keys(n: usize) -> Vec<BlsPublicKey> {
    // the same key may occur twice
    let same = n > 1 && sym::pick_bool("twice");
    (0..n).map(|i| key(if same && i == n - 1 { 0 } else { i as u8 })).collect()
}

#[no_mangle]
pub extern "C" fn h_fast_aggregate() {
    free();
    let n = sym::pick("keys", 0, 3) as usize;
    let ks = keys(n);
    let refs: Vec<&BlsPublicKey> = ks.iter().collect();
    let s = whole_signature("signature");
    let m = msg();
    let mut want = n > 0;
    for k in &ks {
        want = want && pk_valid(k);
    }
    want = want && sig_valid(&s);
    if want {
        let v: Vec<&[u8]> = ks.iter().map(|k| k.as_ref()).collect();
        want = blst::verify_outcome(&v, &m, DST, s.as_ref());
    }
    let ok = fast_aggregate_verify(&refs, &m, &s).is_ok();
    sym::check(ok == want, "an aggregate over one message verifies exactly when every key is valid and it is their signature");
    // the variant of the sync aggregates also accepts the point at infinity from nobody
    let mut infinity = s.as_ref()[0] == 0xc0;
    for i in 1..96 {
        infinity &= s.as_ref()[i] == 0;
    }
    sym::check(s.is_infinity() == infinity, "is_infinity recognizes exactly the encoding of the point at infinity");
    let ok = eth_fast_aggregate_verify(&refs, &m, &s).is_ok();
    if n == 0 {
        sym::check(ok == infinity, "no participants: only the point at infinity is accepted");
    } else {
        sym::check(ok == want, "with participants the infinity rule changes nothing");
    }
    if want {
        sym::cover("accepted");
    }
}

#[no_mangle]
pub extern "C" fn h_aggregate_verify() {
    free();
    let n = sym::pick("keys", 0, 3) as usize;
    let k = sym::pick("messages", 0, 3) as usize;
    let ks = keys(n);
    let s = whole_signature("signature");
    let ms: Vec<Vec<u8>> = (0..k).map(|i| sym::any_vec("message", 2 + i)).collect();
    let refs: Vec<&[u8]> = ms.iter().map(|m| m.as_ref()).collect();
    let mut want = n > 0 && n == k;
    for k in &ks {
        want = want && pk_valid(k);
    }
    want = want && sig_valid(&s);
    if want {
        if n == 1 {
            want = blst::verify_outcome(&[ks[0].as_ref()], &ms[0], DST, s.as_ref());
        } else {
            let mut parts: Vec<&[u8]> = vec![s.as_ref(), DST];
            for (p, m) in ks.iter().zip(&refs) {
                parts.push(p.as_ref());
                parts.push(m);
            }
            want = blst::uf_bool("bls_aggregate_verify", &blst::enc(&parts));
        }
    }
    let ok = aggregate_verify(&ks, &refs, &s).is_ok();
    sym::check(ok == want, "an aggregate over distinct messages pairs each key with its own message");
    if want {
        sym::cover("accepted");
    }
}

#[no_mangle]
pub extern "C" fn h_aggregate() {
    free();
    let n = sym::pick("parts", 0, 3) as usize;
    let ks = keys(n);
    let mut want = n > 0;
    for k in &ks {
        want = want && pk_valid(k);
    }
    let a = eth_aggregate_public_keys(&ks);
    sym::check(a.is_ok() == want, "keys aggregate exactly when there are some and all are valid");
    if let Ok(a) = a {
        let expect = if n == 1 {
            ks[0].as_ref().to_vec()
        } else {
            let mut v: Vec<&[u8]> = ks.iter().map(|k| k.as_ref()).collect();
            v.sort();
            blst::uf::<48>("bls_aggregate_pk", &blst::enc(&v)).to_vec()
        };
        sym::check(sym::eq_bytes(a.as_ref(), &expect), "the aggregate key is the sum of all the keys");
        sym::cover("keys");
    }
    let ss: Vec<BlsSignature> = (0..n)
        .map(|i| {
            let mut b = [i as u8; 96];
            b[95] = 9;
            BlsSignature::try_from(b.as_ref()).unwrap()
        })
        .collect();
    let mut want = n > 0;
    for s in &ss {
        want = want && blst::encoding_valid("bls_sig_decodes", s.as_ref());
    }
    for s in &ss {
        want = want && blst::encoding_valid("bls_sig_in_group", s.as_ref());
    }
    let a = aggregate(&ss);
    sym::check(a.is_ok() == want, "signatures aggregate exactly when there are some and all are valid");
    if let Ok(a) = a {
        let expect = if n == 1 {
            ss[0].as_ref().to_vec()
        } else {
            let mut v: Vec<&[u8]> = ss.iter().map(|k| k.as_ref()).collect();
            v.sort();
            blst::uf::<96>("bls_aggregate_sig", &blst::enc(&v)).to_vec()
        };
        sym::check(sym::eq_bytes(a.as_ref(), &expect), "the aggregate signature is the sum of all the signatures");
        sym::cover("signatures");
    }
}

#[no_mangle]
pub extern "C" fn h_secret_key() {
    let n = [0usize, 31, 32, 33, 64][sym::pick("length", 0, 4) as usize];
    let b = sym::any_vec("bytes", n);
    let k = SecretKey::try_from(b.as_ref());
    let want = n == 32 && blst::scalar_in_range(&b);
    sym::check(k.is_ok() == want, "a secret key is a non-zero scalar below the group order");
    if let Ok(k) = k {
        let m = sym::any_vec("message", 3);
        let pk = k.public_key();
        sym::check(sym::eq_bytes(pk.as_ref(), &blst::uf::<48>("bls_sk_to_pk", &b)), "the public key belongs to the secret key");
        let sig = k.sign(&m);
        let parts: [&[u8]; 4] = [&b, &m, DST, &[]];
        sym::check(
            sym::eq_bytes(sig.as_ref(), &blst::uf::<96>("bls_sign", &blst::enc(&parts))),
            "signing signs the message itself under the tag of the protocol",
        );
        sym::check(sym::eq_bytes(&k.to_bytes(), &b), "to_bytes returns the scalar");
        sym::cover("secret key");
    }
    // key material
    let g = SecretKey::key_gen(&b);
    sym::check(g.is_ok() == (n >= 32), "key generation needs 32 bytes of entropy");
    if let Ok(g) = g {
        let parts: [&[u8]; 2] = [&b, &[]];
        sym::check(sym::eq_bytes(&g.to_bytes(), &blst::uf::<32>("bls_key_gen", &blst::enc(&parts))), "all the entropy is used");
    }
    let g = SecretKey::from_bytes(&b);
    sym::check(g.is_ok() == (n >= 32), "EIP-2333 needs 32 bytes of seed");
    if let Ok(g) = g {
        sym::check(sym::eq_bytes(&g.to_bytes(), &blst::uf::<32>("bls_eip2333", &b)), "all the seed is used");
    }
}

#[no_mangle]
pub extern "C" fn h_lengths() {
    let n = [0usize, 1, 32, 47, 48, 49, 95, 96, 97][sym::pick("length", 0, 8) as usize];
    let b = sym::any_vec("bytes", n);
    let k = BlsPublicKey::try_from(b.as_ref());
    sym::check(k.is_ok() == (n == 48), "a public key has 48 bytes");
    if let Ok(k) = k {
        sym::check(sym::eq_bytes(k.as_ref(), &b), "the bytes of the key");
    }
    let s = BlsSignature::try_from(b.as_ref());
    sym::check(s.is_ok() == (n == 96), "a signature has 96 bytes");
    if let Ok(s) = s {
        sym::check(sym::eq_bytes(s.as_ref(), &b), "the bytes of the signature");
    }
    sym::check(sym::eq_bytes(hash(&b).as_ref(), &sym::sha256(&b)), "hash is SHA-256");
    sym::cover("lengths");
}

fn uf<const N: usize>(tag: &str, parts: &[&[u8]]) -> [u8; N] {
    blst::uf::<N>(tag, &blst::enc(parts))
}
fn outcome(tag: &str, parts: &[&[u8]]) -> bool {
    blst::uf_bool(tag, &blst::enc(parts))
}
fn commitment(name: &str) -> kzg::KzgCommitment {
    kzg::KzgCommitment::try_from(sym::any_bytes::<48>(name).as_ref()).unwrap()
}
fn field(name: &str) -> kzg::FieldElement {
    kzg::FieldElement::try_from(sym::any_bytes::<32>(name).as_ref()).unwrap()
}

#[no_mangle]
pub extern "C" fn h_kzg() {
    free();
    let settings = kzg::KzgSettings::default();
    let blob = sym::any_vec("blob", 8);
    let c = commitment("commitment");
    let p = commitment("proof");
    let z = field("z");
    let y = field("y");
    match sym::pick("function", 0, 4) {
        0 => {
            let r = kzg::blob_to_kzg_commitment(&blob, &settings);
            sym::check(r.is_ok() == !outcome("kzg_commit_err", &[&blob]), "a commitment exists exactly when the blob is canonical");
            if let Ok(r) = r {
                sym::check(sym::eq_bytes(r.as_ref(), &uf::<48>("kzg_commit", &[&blob])), "the commitment to the blob");
                sym::cover("commitment");
            }
        }
        1 => {
            let r = kzg::compute_kzg_proof(&blob, &z, &settings);
            sym::check(r.is_ok() == !outcome("kzg_proof_err", &[&blob, z.as_ref()]), "an opening exists exactly when its inputs are canonical");
            if let Ok(r) = r {
                sym::check(sym::eq_bytes(r.proof.as_ref(), &uf::<48>("kzg_proof", &[&blob, z.as_ref()])), "the proof of the opening");
                sym::check(sym::eq_bytes(r.evaluation.as_ref(), &uf::<32>("kzg_eval", &[&blob, z.as_ref()])), "the value of the opening");
                sym::cover("opening");
            }
        }
        2 => {
            let r = kzg::compute_blob_kzg_proof(&blob, &c, &settings);
            sym::check(r.is_ok() == !outcome("kzg_blob_proof_err", &[&blob, c.as_ref()]), "a blob proof exists exactly when its inputs are canonical");
            if let Ok(r) = r {
                sym::check(sym::eq_bytes(r.as_ref(), &uf::<48>("kzg_blob_proof", &[&blob, c.as_ref()])), "the proof of the blob");
                sym::cover("blob proof");
            }
        }
        3 => {
            let parts: [&[u8]; 4] = [c.as_ref(), z.as_ref(), y.as_ref(), p.as_ref()];
            let want = !outcome("kzg_verify_err", &parts) && outcome("kzg_verify", &parts);
            let ok = kzg::verify_kzg_proof(&c, &z, &y, &p, &settings).is_ok();
            sym::check(ok == want, "an opening is accepted exactly when it verifies");
            if want {
                sym::cover("verified opening");
            }
        }
        _ => {
            let parts: [&[u8]; 3] = [&blob, c.as_ref(), p.as_ref()];
            let want = !outcome("kzg_blob_verify_err", &parts) && outcome("kzg_blob_verify", &parts);
            let ok = kzg::verify_blob_kzg_proof(&blob, &c, &p, &settings).is_ok();
            sym::check(ok == want, "a blob is accepted exactly when its proof verifies");
            if want {
                sym::cover("verified blob");
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn h_kzg_batch() {
    free();
    let settings = kzg::KzgSettings::default();
    let nb = sym::pick("blobs", 0, 3) as usize;
    let nc = sym::pick("commitments", 0, 3) as usize;
    let np = sym::pick("proofs", 0, 3) as usize;
    let blobs: Vec<Vec<u8>> = (0..nb).map(|i| vec![i as u8; 4]).collect();
    let cs: Vec<kzg::KzgCommitment> = (0..nc).map(|i| kzg::KzgCommitment::try_from(vec![16 + i as u8; 48].as_ref()).unwrap()).collect();
    let ps: Vec<kzg::KzgProof> = (0..np).map(|i| kzg::KzgProof::try_from(vec![32 + i as u8; 48].as_ref()).unwrap()).collect();
    let mut want = nb == nc && nb == np;
    if want {
        for i in 0..nb {
            want = want && !outcome("kzg_blob_verify_err", &[&blobs[i], cs[i].as_ref(), ps[i].as_ref()]);
        }
        for i in 0..nb {
            want = want && outcome("kzg_blob_verify", &[&blobs[i], cs[i].as_ref(), ps[i].as_ref()]);
        }
    }
    let ok = kzg::verify_blob_kzg_proof_batch(&blobs, &cs, &ps, &settings).is_ok();
    sym::check(ok == want, "a batch is accepted exactly when every blob verifies against its own commitment and proof");
    if want {
        sym::cover("accepted");
    }
}

#[no_mangle]
pub extern "C" fn h_kzg_length() {
    c_kzg::CHECK_BLOB_LEN.store(true, std::sync::atomic::Ordering::Relaxed);
    let settings = kzg::KzgSettings::default();
    let n = [0usize, 1, 31, 4096, 131071][sym::pick("length", 0, 4) as usize];
    let blob = vec![0u8; n];
    let c = commitment("commitment");
    let z = field("z");
    sym::check(kzg::blob_to_kzg_commitment(&blob, &settings).is_err(), "commit: a blob has 131072 bytes");
    sym::check(kzg::compute_kzg_proof(&blob, &z, &settings).is_err(), "open: a blob has 131072 bytes");
    sym::check(kzg::compute_blob_kzg_proof(&blob, &c, &settings).is_err(), "prove: a blob has 131072 bytes");
    sym::check(kzg::verify_blob_kzg_proof(&blob, &c, &c, &settings).is_err(), "verify: a blob has 131072 bytes");
    sym::check(
        kzg::verify_blob_kzg_proof_batch(&[blob], &[c.clone()], &[c], &settings).is_err(),
        "batch: a blob has 131072 bytes",
    );
    sym::cover("length");
}
sym::main! { h_verify_signature = h_verify_signature, h_fast_aggregate = h_fast_aggregate, h_aggregate_verify = h_aggregate_verify, h_aggregate = h_aggregate, h_secret_key = h_secret_key, h_lengths = h_lengths, h_kzg = h_kzg, h_kzg_batch = h_kzg_batch, h_kzg_length = h_kzg_length }
