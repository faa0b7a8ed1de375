//! C03: signature domains, fork digests and signing roots.
#![no_main]
use ethereum_consensus::builder::compute_builder_domain;
use ethereum_consensus::crypto::SecretKey;
use ethereum_consensus::phase0::helpers as h;
use ethereum_consensus::signing::*;
use harness::*;
use ssz_rs::prelude::*;

const TYPES: [(DomainType, [u8; 4]); 14] = [
    (DomainType::BeaconProposer, [0, 0, 0, 0]),
    (DomainType::BeaconAttester, [1, 0, 0, 0]),
    (DomainType::Randao, [2, 0, 0, 0]),
    (DomainType::Deposit, [3, 0, 0, 0]),
    (DomainType::VoluntaryExit, [4, 0, 0, 0]),
    (DomainType::SelectionProof, [5, 0, 0, 0]),
    (DomainType::AggregateAndProof, [6, 0, 0, 0]),
    (DomainType::SyncCommittee, [7, 0, 0, 0]),
    (DomainType::SyncCommitteeSelectionProof, [8, 0, 0, 0]),
    (DomainType::ContributionAndProof, [9, 0, 0, 0]),
    (DomainType::BlsToExecutionChange, [0x0a, 0, 0, 0]),
    (DomainType::Consolidation, [0x0b, 0, 0, 0]),
    (DomainType::ApplicationMask, [0, 0, 0, 1]),
    (DomainType::ApplicationBuilder, [0, 0, 0, 1]),
];
fn any_type() -> (DomainType, [u8; 4]) {
    TYPES[sym::pick("domain type", 0, 13) as usize]
}
fn data_root(version: [u8; 4], root: &[u8]) -> [u8; 32] {
    let mut b = [0u8; 64];
    b[..4].copy_from_slice(&version);
    b[32..].copy_from_slice(root);
    sym::sha256(&b)
}
fn ref_domain(t: [u8; 4], version: [u8; 4], root: &[u8]) -> [u8; 32] {
    let mut d = [0u8; 32];
    d[..4].copy_from_slice(&t);
    d[4..].copy_from_slice(&data_root(version, root)[..28]);
    d
}
fn domain_types() {
    let (t, b) = any_type();
    sym::check(t.as_bytes() == b, "bytes of a domain type");
    sym::cover("end");
}
fn domains() {
    let mut c = context();
    c.genesis_fork_version = sym::any_bytes::<4>("genesis version");
    let (t, b) = any_type();
    let v = sym::any_bytes::<4>("version");
    let r = any_root("validators root");
    let zero = [0u8; 32];
    let (hv, hr) = (sym::pick_bool("version given"), sym::pick_bool("root given"));
    let got = h::compute_domain(t, hv.then_some(v), hr.then(|| r.clone()), &c).unwrap();
    let want = ref_domain(b, if hv { v } else { c.genesis_fork_version }, if hr { r.as_ref() } else { &zero });
    sym::check(got == want, "domain");
    sym::check(compute_builder_domain(&c).unwrap() == ref_domain([0, 0, 0, 1], c.genesis_fork_version, &zero), "builder domain");
    let w = data_root(v, r.as_ref());
    sym::check(h::compute_fork_data_root(v, r.clone()).unwrap().as_ref() == w, "fork data root");
    sym::check(h::compute_fork_digest(v, r.clone()).unwrap() == w[..4], "fork digest");
    sym::cover("end");
}
macro_rules! state_domain {
    ($f:ident) => {{
        use harness::small::$f as m;
        let c = context();
        let (t, b) = any_type();
        let mut s = m::BeaconState::default();
        s.slot = sym::any_u64("slot");
        s.fork.epoch = sym::any_u64("fork epoch");
        s.fork.previous_version = sym::any_bytes::<4>("previous version");
        s.fork.current_version = sym::any_bytes::<4>("current version");
        s.genesis_validators_root = any_root("validators root");
        let e = sym::any_u64("epoch");
        let given = sym::pick_bool("epoch given");
        let got = m::get_domain(&s, t, given.then_some(e), &c).unwrap();
        let at = if given { e } else { s.slot / 4 };
        let old = at < s.fork.epoch;
        let mut v = [0u8; 4];
        for i in 0..4 {
            v[i] = sym::ite(old, s.fork.previous_version[i] as u64, s.fork.current_version[i] as u64) as u8;
        }
        sym::check(got == ref_domain(b, v, s.genesis_validators_root.as_ref()), "domain of a state at an epoch");
        sym::cover("end");
    }};
}
/// The signing root commits to the object and to the whole domain.
fn signing_roots() {
    let d = sym::any_bytes::<32>("domain");
    let o = any_root("object");
    let n = sym::any_u64("number");
    let mix = |r: &[u8]| {
        let mut b = [0u8; 64];
        b[..32].copy_from_slice(r);
        b[32..].copy_from_slice(&d);
        sym::sha256(&b)
    };
    let mut leaf = [0u8; 32];
    leaf[..8].copy_from_slice(&n.to_le_bytes());
    sym::check(compute_signing_root(&o, d).unwrap().as_ref() == mix(o.as_ref()), "signing root of a root");
    sym::check(compute_signing_root(&n, d).unwrap().as_ref() == mix(&leaf), "signing root of a number");
    let cp = Checkpoint { epoch: n, root: o.clone() };
    let mut b = [0u8; 64];
    b[..32].copy_from_slice(&leaf);
    b[32..].copy_from_slice(o.as_ref());
    sym::check(compute_signing_root(&cp, d).unwrap().as_ref() == mix(&sym::sha256(&b)), "signing root of a container");
    // two domains, or two objects, never share a signing root
    let (d2, n2) = (sym::any_bytes::<32>("domain 2"), sym::any_u64("number 2"));
    let same = compute_signing_root(&n, d).unwrap() == compute_signing_root(&n2, d2).unwrap();
    sym::check(same == ((n == n2) & (d == d2)), "signing roots are separated");
    sym::cover("end");
}
/// Verification is over the signing root; what was signed under a domain is what is verified.
fn signatures() {
    blst::ENCODINGS_VALID.store(true, std::sync::atomic::Ordering::Relaxed);
    let d = sym::any_bytes::<32>("domain");
    let n = sym::any_u64("number");
    let (pk, sig) = (key(3), any_signature("signature"));
    let mut leaf = [0u8; 64];
    leaf[..8].copy_from_slice(&n.to_le_bytes());
    leaf[32..].copy_from_slice(&d);
    let root = sym::sha256(&leaf);
    let got = verify_signed_data(&n, &sig, &pk, d).is_ok();
    let want = blst::verify_outcome(&[pk.as_ref()], &root, b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_", sig.as_ref());
    sym::check(got == want, "a signature is checked over the signing root");
    let mut sk = [7u8; 32];
    sk[0] = 1;
    let sk = SecretKey::try_from(sk.as_ref()).unwrap();
    let made = sign_with_domain(&n, &sk, d).unwrap();
    sym::check(made == sk.sign(&root), "a signature is made over the signing root");
    sym::cover("end");
}

sym::harness! {
    fn h_domain_types() { domain_types() }
    fn h_domains() { domains() }
    fn h_signing_roots() { signing_roots() }
    fn h_signatures() { signatures() }
    fn h_state_phase0() { state_domain!(phase0) }
    fn h_state_altair() { state_domain!(altair) }
    fn h_state_bellatrix() { state_domain!(bellatrix) }
    fn h_state_capella() { state_domain!(capella) }
    fn h_state_deneb() { state_domain!(deneb) }
    fn h_state_electra() { state_domain!(electra) }
}
