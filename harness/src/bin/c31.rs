//! C31: proofs that a commitment belongs to a block, and where light clients find what they prove.
#![no_main]
use ethereum_consensus::deneb::blob_sidecar::verify_blob_sidecar_inclusion_proof;
use ethereum_consensus::ssz::prelude::*;
use harness::refs::*;
use harness::*;

/// The node a proof leads to: up the list of commitments (`levels`), the length, and the body's twelfth field.
fn climb(leaf: [u8; 32], index: u64, branch: &[[u8; 32]], levels: usize) -> [u8; 32] {
    let mut v = leaf;
    for (i, n) in branch.iter().enumerate() {
        let right = if i < levels {
            index >> i & 1 == 1
        } else if i == levels {
            false
        } else {
            11 >> (i - levels - 1) & 1 == 1
        };
        v = if right { pair(n, &v) } else { pair(&v, n) };
    }
    v
}

macro_rules! sidecar {
    ($body:ty, $depth:expr, $limit:expr, $bytes:expr) => {{
        type S = ethereum_consensus::deneb::BlobSidecar<{ $bytes }, { $depth }>;
        let mut s = S::default();
        let at = [0, 1, 2, 5, $limit / 2, $limit - 2, $limit - 1, $limit, $limit + 1, 1 << 32, u64::MAX];
        let index = at[sym::pick("index", 0, at.len() as u64 - 1) as usize];
        s.index = index as usize;
        let mut k = [7u8; 48];
        k[0] = sym::any_u8("commitment");
        k[31] = sym::any_u8("commitment");
        k[47] = sym::any_u8("commitment");
        s.kzg_commitment = ethereum_consensus::crypto::KzgCommitment::try_from(&k[..]).unwrap();
        let mut branch = [[0u8; 32]; $depth];
        for (i, n) in branch.iter_mut().enumerate() {
            *n = *root(i as u8 + 1);
            s.kzg_commitment_inclusion_proof[i] = Node::try_from(&n[..]).unwrap();
        }
        // what has nothing to do with it
        s.signed_block_header.message.slot = sym::any_u64("slot");
        s.signed_block_header.message.state_root = root(9);
        s.signed_block_header.message.parent_root = root(10);
        let levels = $depth - 5;
        let want = climb(key_root(&k), index, &branch, levels);
        let right = sym::pick_bool("right");
        let mut body = if right { want } else { sym::any_bytes::<32>("body root") };
        s.signed_block_header.message.body_root = Root::try_from(&body[..]).unwrap();
        let r = verify_blob_sidecar_inclusion_proof::<{ $depth }, { $bytes }, $body>(&s);
        if index >= $limit {
            sym::check(r.is_err(), "there is no such blob");
            return;
        }
        if right {
            sym::check(r.is_ok(), "the proof of a commitment in the block is accepted");
            sym::cover("accepted");
        } else {
            sym::check(r.is_ok() == sym::eq_bytes(&body, &want), "only a proof that leads to the body is accepted");
            sym::cover("any body");
        }
        body[0] ^= 1;
    }};
}
type Root = ethereum_consensus::primitives::Root;

/// A block body with commitments, and the proof for each computed from its tree.
macro_rules! body {
    ($body:ty, $depth:expr, $limit:expr, $bytes:expr) => {{
        type S = ethereum_consensus::deneb::BlobSidecar<{ $bytes }, { $depth }>;
        let n = sym::pick("commitments", 1, 3) as usize;
        let i = sym::pick("index", 0, n as u64 - 1) as usize;
        let other = sym::pick("another index", 0, n as u64) as usize;
        let mut b = <$body>::default();
        b.graffiti = bytes32(5);
        b.eth1_data.deposit_count = 3;
        b.execution_payload.block_number = sym::any_u64("block number");
        let mut roots = vec![];
        for j in 0..n {
            let k = [j as u8 + 1; 48];
            b.blob_kzg_commitments.push(ethereum_consensus::crypto::KzgCommitment::try_from(&k[..]).unwrap());
            roots.push(key_root(&k));
        }
        let mut branch: Vec<[u8; 32]> = vec![];
        let levels = $depth - 5;
        // siblings in the list
        let mut level = roots;
        let mut at = i;
        let mut zero = [0u8; 32];
        for _ in 0..levels {
            branch.push(if (at ^ 1) < level.len() { level[at ^ 1] } else { zero });
            let mut next = vec![];
            for c in level.chunks(2) {
                next.push(pair(&c[0], if c.len() == 2 { &c[1] } else { &zero }));
            }
            level = next;
            zero = pair(&zero, &zero);
            at /= 2;
        }
        branch.push(num(n as u64));
        // siblings of the twelfth field
        macro_rules! htr { ($f:ident) => {{ let r = b.$f.hash_tree_root().unwrap(); chunk(r.as_ref()) }}; }
        let fields = [
            htr!(randao_reveal), htr!(eth1_data), htr!(graffiti), htr!(proposer_slashings), htr!(attester_slashings),
            htr!(attestations), htr!(deposits), htr!(voluntary_exits), htr!(sync_aggregate), htr!(execution_payload),
            htr!(bls_to_execution_changes), pair(&level[0], &num(n as u64)),
        ];
        let four = |from: usize, n: usize| merkle(&fields[from.min(12)..(from + n).min(12)], n.trailing_zeros() as usize);
        branch.push(fields[10]);
        branch.push(four(8, 2));
        branch.push(four(12, 4));
        branch.push(four(0, 8));
        let mut s = S::default();
        for (j, n) in branch.iter().enumerate() {
            s.kzg_commitment_inclusion_proof[j] = Node::try_from(&n[..]).unwrap();
        }
        s.index = other;
        s.kzg_commitment = ethereum_consensus::crypto::KzgCommitment::try_from(&[i as u8 + 1; 48][..]).unwrap();
        let r = b.hash_tree_root().unwrap();
        s.signed_block_header.message.body_root = r;
        let ok = verify_blob_sidecar_inclusion_proof::<{ $depth }, { $bytes }, $body>(&s).is_ok();
        sym::check(ok == (i == other), "a commitment of the block is accepted exactly at its place");
        sym::cover("of a block");
    }};
}
const BLOB: usize = 131072;
mod mainnet {
    pub use ethereum_consensus::deneb::mainnet::*;
}
mod minimal {
    pub use ethereum_consensus::deneb::minimal::*;
}
sym::harness! {
    fn h_proof_mainnet() {
        sidecar!(mainnet::BeaconBlockBody, 17, 4096u64, BLOB)
    }
    fn h_proof_minimal() {
        sidecar!(minimal::BeaconBlockBody, 9, 16u64, BLOB)
    }
    fn h_body_mainnet() {
        body!(mainnet::BeaconBlockBody, 17, 4096u64, BLOB)
    }
    fn h_body_minimal() {
        body!(minimal::BeaconBlockBody, 9, 16u64, BLOB)
    }
    fn h_indices() {
        use ethereum_consensus::{altair, bellatrix, capella, deneb};
        fn at<X: GeneralizedIndexable>(p: &[&str]) -> usize {
            let p: Vec<PathElement> = p.iter().map(|x| PathElement::from(*x)).collect();
            X::generalized_index(&p).unwrap()
        }
        use altair::light_client as l;
        macro_rules! state {
            ($s:ty) => {
                sym::check(at::<$s>(&["finalized_checkpoint", "root"]) == l::FINALIZED_ROOT_INDEX, "finalized root");
                sym::check(at::<$s>(&["current_sync_committee"]) == l::CURRENT_SYNC_COMMITTEE_INDEX, "current committee");
                sym::check(at::<$s>(&["next_sync_committee"]) == l::NEXT_SYNC_COMMITTEE_INDEX, "next committee");
            };
        }
        state!(altair::mainnet::BeaconState);
        state!(bellatrix::mainnet::BeaconState);
        state!(capella::mainnet::BeaconState);
        state!(deneb::mainnet::BeaconState);
        state!(deneb::minimal::BeaconState);
        use capella::light_client as e;
        sym::check(at::<capella::mainnet::BeaconBlockBody>(&["execution_payload"]) == e::EXECUTION_PAYLOAD_INDEX, "payload");
        sym::check(at::<deneb::mainnet::BeaconBlockBody>(&["execution_payload"]) == e::EXECUTION_PAYLOAD_INDEX, "payload");
        sym::check(l::FINALIZED_ROOT_INDEX == 105 && l::CURRENT_SYNC_COMMITTEE_INDEX == 54 && l::NEXT_SYNC_COMMITTEE_INDEX == 55, "indices");
        sym::check(e::EXECUTION_PAYLOAD_INDEX == 25, "payload index");
        for (i, d) in [
            (l::FINALIZED_ROOT_INDEX, l::FINALIZED_ROOT_INDEX_FLOOR_LOG_2),
            (l::CURRENT_SYNC_COMMITTEE_INDEX, l::CURRENT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2),
            (l::NEXT_SYNC_COMMITTEE_INDEX, l::NEXT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2),
            (e::EXECUTION_PAYLOAD_INDEX, e::EXECUTION_PAYLOAD_INDEX_FLOOR_LOG_2),
        ] {
            sym::check(i >> d == 1, "depth of an index");
        }
        sym::cover("indices");
    }
}
