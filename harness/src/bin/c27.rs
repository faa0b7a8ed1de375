//! C27: the containers that hold any fork's version (types/).
#![no_main]
use ethereum_consensus::ssz::prelude::*;
use ethereum_consensus::types::{self, minimal as t};
use ethereum_consensus::Fork;
use ethereum_consensus::{altair, bellatrix, capella, deneb, phase0};

fn at<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}
/// Whether JSON picks the right fork and is that of the wrapped container.
fn json<E: serde::Serialize + serde::de::DeserializeOwned + PartialEq, I: serde::Serialize>(e: &E, i: &I) {
    let s = serde_json::to_string(e).unwrap();
    sym::check(s == serde_json::to_string(i).unwrap(), "the JSON is that of the fork's container");
    match serde_json::from_str::<E>(&s) {
        Ok(x) => sym::check(x == *e, "the JSON is read as the fork's container"),
        Err(_) => sym::check(false, "the JSON is read"),
    }
}
fn root<E: HashTreeRoot, I: HashTreeRoot>(e: &mut E, i: &mut I) {
    let (a, b) = (e.hash_tree_root().unwrap(), i.hash_tree_root().unwrap());
    sym::check(sym::eq_bytes(a.as_ref(), b.as_ref()), "the root is that of the fork's container");
}
trait Fill {
    fn fill(&mut self, n: u8);
}
impl Fill for u64 {
    fn fill(&mut self, _: u8) {
        *self = sym::any_u64("number");
    }
}
impl Fill for usize {
    fn fill(&mut self, _: u8) {
        *self = sym::any_usize("number");
    }
}
impl Fill for ethereum_consensus::primitives::Root {
    fn fill(&mut self, n: u8) {
        let mut b = [n; 32];
        b[0] = sym::any_u8("root");
        *self = Self::try_from(&b[..]).unwrap();
    }
}
#[no_mangle]
pub extern "C" fn h_beacon_block_body_phase0() {
    let mut inner = <phase0::minimal::BeaconBlockBody>::default();
    {
    let mut x = t::BeaconBlockBody::Phase0(inner.clone());
    let i: *const phase0::minimal::BeaconBlockBody = if let t::BeaconBlockBody::Phase0(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Phase0), "the fork");
    sym::check(x.phase0().map(at) == Some(at(i)), "phase0");
    sym::check(x.phase0_mut().map(|y| at(y)) == Some(at(i)), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_reveal");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffiti");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashings");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashings");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestations");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mut");
    sym::check(at(x.deposits()) == at(&i.deposits), "deposits");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exits");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mut");
    sym::check(x.sync_aggregate().is_none(), "sync_aggregate");
    sym::check(x.sync_aggregate_mut().is_none(), "sync_aggregate_mut");
    sym::check(x.execution_payload().is_none(), "execution_payload");
    sym::check(x.execution_payload_mut().is_none(), "execution_payload_mut");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changes");
    sym::check(x.bls_to_execution_changes_mut().is_none(), "bls_to_execution_changes_mut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitments");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const phase0::minimal::BeaconBlockBody = &inner;
    let x: types::BeaconBlockBodyRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockBodyRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Phase0), "the forkRef");
    sym::check(x.phase0().map(at) == Some(at(i)), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRef");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRef");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRef");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRef");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRef");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRef");
    sym::check(x.sync_aggregate().is_none(), "sync_aggregateRef");
    sym::check(x.execution_payload().is_none(), "execution_payloadRef");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changesRef");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const phase0::minimal::BeaconBlockBody = &inner;
    let mut x: types::BeaconBlockBodyRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockBodyRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Phase0), "the forkRefMut");
    sym::check(x.phase0().map(at) == Some(at(i)), "phase0RefMut");
    sym::check(x.phase0_mut().map(|y| at(y)) == Some(at(i)), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRefMut");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRefMut");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mutRefMut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRefMut");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mutRefMut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRefMut");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mutRefMut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRefMut");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mutRefMut");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRefMut");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mutRefMut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRefMut");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mutRefMut");
    sym::check(x.sync_aggregate().is_none(), "sync_aggregateRefMut");
    sym::check(x.sync_aggregate_mut().is_none(), "sync_aggregate_mutRefMut");
    sym::check(x.execution_payload().is_none(), "execution_payloadRefMut");
    sym::check(x.execution_payload_mut().is_none(), "execution_payload_mutRefMut");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changesRefMut");
    sym::check(x.bls_to_execution_changes_mut().is_none(), "bls_to_execution_changes_mutRefMut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRefMut");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <phase0::minimal::BeaconBlockBody>::default();
    json(&t::BeaconBlockBody::Phase0(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_block_body_altair() {
    let mut inner = <altair::minimal::BeaconBlockBody>::default();
    {
    let mut x = t::BeaconBlockBody::Altair(inner.clone());
    let i: *const altair::minimal::BeaconBlockBody = if let t::BeaconBlockBody::Altair(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Altair), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().map(at) == Some(at(i)), "altair");
    sym::check(x.altair_mut().map(|y| at(y)) == Some(at(i)), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_reveal");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffiti");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashings");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashings");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestations");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mut");
    sym::check(at(x.deposits()) == at(&i.deposits), "deposits");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exits");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mut");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregate");
    sym::check(x.sync_aggregate_mut().map(|y| at(y)) == Some(at(&i.sync_aggregate)), "sync_aggregate_mut");
    sym::check(x.execution_payload().is_none(), "execution_payload");
    sym::check(x.execution_payload_mut().is_none(), "execution_payload_mut");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changes");
    sym::check(x.bls_to_execution_changes_mut().is_none(), "bls_to_execution_changes_mut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitments");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const altair::minimal::BeaconBlockBody = &inner;
    let x: types::BeaconBlockBodyRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockBodyRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Altair), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().map(at) == Some(at(i)), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRef");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRef");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRef");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRef");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRef");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRef");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregateRef");
    sym::check(x.execution_payload().is_none(), "execution_payloadRef");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changesRef");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const altair::minimal::BeaconBlockBody = &inner;
    let mut x: types::BeaconBlockBodyRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockBodyRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Altair), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().map(at) == Some(at(i)), "altairRefMut");
    sym::check(x.altair_mut().map(|y| at(y)) == Some(at(i)), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRefMut");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRefMut");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mutRefMut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRefMut");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mutRefMut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRefMut");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mutRefMut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRefMut");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mutRefMut");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRefMut");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mutRefMut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRefMut");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mutRefMut");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregateRefMut");
    sym::check(x.sync_aggregate_mut().map(|y| at(y)) == Some(at(&i.sync_aggregate)), "sync_aggregate_mutRefMut");
    sym::check(x.execution_payload().is_none(), "execution_payloadRefMut");
    sym::check(x.execution_payload_mut().is_none(), "execution_payload_mutRefMut");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changesRefMut");
    sym::check(x.bls_to_execution_changes_mut().is_none(), "bls_to_execution_changes_mutRefMut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRefMut");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <altair::minimal::BeaconBlockBody>::default();
    json(&t::BeaconBlockBody::Altair(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_block_body_bellatrix() {
    let mut inner = <bellatrix::minimal::BeaconBlockBody>::default();
    {
    let mut x = t::BeaconBlockBody::Bellatrix(inner.clone());
    let i: *const bellatrix::minimal::BeaconBlockBody = if let t::BeaconBlockBody::Bellatrix(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrix");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_reveal");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffiti");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashings");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashings");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestations");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mut");
    sym::check(at(x.deposits()) == at(&i.deposits), "deposits");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exits");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mut");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregate");
    sym::check(x.sync_aggregate_mut().map(|y| at(y)) == Some(at(&i.sync_aggregate)), "sync_aggregate_mut");
    sym::check(match x.execution_payload() { Some(types::ExecutionPayloadRef::Bellatrix(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payload");
    sym::check(match x.execution_payload_mut() { Some(types::ExecutionPayloadRefMut::Bellatrix(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payload_mut");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changes");
    sym::check(x.bls_to_execution_changes_mut().is_none(), "bls_to_execution_changes_mut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitments");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const bellatrix::minimal::BeaconBlockBody = &inner;
    let x: types::BeaconBlockBodyRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockBodyRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRef");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRef");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRef");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRef");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRef");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRef");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregateRef");
    sym::check(match x.execution_payload() { Some(types::ExecutionPayloadRef::Bellatrix(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payloadRef");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changesRef");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const bellatrix::minimal::BeaconBlockBody = &inner;
    let mut x: types::BeaconBlockBodyRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockBodyRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRefMut");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRefMut");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mutRefMut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRefMut");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mutRefMut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRefMut");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mutRefMut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRefMut");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mutRefMut");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRefMut");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mutRefMut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRefMut");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mutRefMut");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregateRefMut");
    sym::check(x.sync_aggregate_mut().map(|y| at(y)) == Some(at(&i.sync_aggregate)), "sync_aggregate_mutRefMut");
    sym::check(match x.execution_payload() { Some(types::ExecutionPayloadRef::Bellatrix(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payloadRefMut");
    sym::check(match x.execution_payload_mut() { Some(types::ExecutionPayloadRefMut::Bellatrix(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payload_mutRefMut");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changesRefMut");
    sym::check(x.bls_to_execution_changes_mut().is_none(), "bls_to_execution_changes_mutRefMut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRefMut");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <bellatrix::minimal::BeaconBlockBody>::default();
    json(&t::BeaconBlockBody::Bellatrix(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_block_body_capella() {
    let mut inner = <capella::minimal::BeaconBlockBody>::default();
    {
    let mut x = t::BeaconBlockBody::Capella(inner.clone());
    let i: *const capella::minimal::BeaconBlockBody = if let t::BeaconBlockBody::Capella(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().map(at) == Some(at(i)), "capella");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_reveal");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffiti");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashings");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashings");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestations");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mut");
    sym::check(at(x.deposits()) == at(&i.deposits), "deposits");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exits");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mut");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregate");
    sym::check(x.sync_aggregate_mut().map(|y| at(y)) == Some(at(&i.sync_aggregate)), "sync_aggregate_mut");
    sym::check(match x.execution_payload() { Some(types::ExecutionPayloadRef::Capella(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payload");
    sym::check(match x.execution_payload_mut() { Some(types::ExecutionPayloadRefMut::Capella(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payload_mut");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes");
    sym::check(x.bls_to_execution_changes_mut().map(|y| at(y)) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes_mut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitments");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const capella::minimal::BeaconBlockBody = &inner;
    let x: types::BeaconBlockBodyRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockBodyRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRef");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRef");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRef");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRef");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRef");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRef");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregateRef");
    sym::check(match x.execution_payload() { Some(types::ExecutionPayloadRef::Capella(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payloadRef");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changesRef");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const capella::minimal::BeaconBlockBody = &inner;
    let mut x: types::BeaconBlockBodyRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockBodyRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRefMut");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRefMut");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRefMut");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mutRefMut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRefMut");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mutRefMut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRefMut");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mutRefMut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRefMut");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mutRefMut");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRefMut");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mutRefMut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRefMut");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mutRefMut");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregateRefMut");
    sym::check(x.sync_aggregate_mut().map(|y| at(y)) == Some(at(&i.sync_aggregate)), "sync_aggregate_mutRefMut");
    sym::check(match x.execution_payload() { Some(types::ExecutionPayloadRef::Capella(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payloadRefMut");
    sym::check(match x.execution_payload_mut() { Some(types::ExecutionPayloadRefMut::Capella(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payload_mutRefMut");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changesRefMut");
    sym::check(x.bls_to_execution_changes_mut().map(|y| at(y)) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes_mutRefMut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRefMut");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <capella::minimal::BeaconBlockBody>::default();
    json(&t::BeaconBlockBody::Capella(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_block_body_deneb() {
    let mut inner = <deneb::minimal::BeaconBlockBody>::default();
    {
    let mut x = t::BeaconBlockBody::Deneb(inner.clone());
    let i: *const deneb::minimal::BeaconBlockBody = if let t::BeaconBlockBody::Deneb(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().map(at) == Some(at(i)), "deneb");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_reveal");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffiti");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashings");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashings");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestations");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mut");
    sym::check(at(x.deposits()) == at(&i.deposits), "deposits");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exits");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mut");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregate");
    sym::check(x.sync_aggregate_mut().map(|y| at(y)) == Some(at(&i.sync_aggregate)), "sync_aggregate_mut");
    sym::check(match x.execution_payload() { Some(types::ExecutionPayloadRef::Deneb(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payload");
    sym::check(match x.execution_payload_mut() { Some(types::ExecutionPayloadRefMut::Deneb(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payload_mut");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes");
    sym::check(x.bls_to_execution_changes_mut().map(|y| at(y)) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes_mut");
    sym::check(x.blob_kzg_commitments().map(at) == Some(at(&i.blob_kzg_commitments)), "blob_kzg_commitments");
    sym::check(x.blob_kzg_commitments_mut().map(|y| at(y)) == Some(at(&i.blob_kzg_commitments)), "blob_kzg_commitments_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const deneb::minimal::BeaconBlockBody = &inner;
    let x: types::BeaconBlockBodyRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockBodyRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRef");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRef");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRef");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRef");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRef");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRef");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRef");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregateRef");
    sym::check(match x.execution_payload() { Some(types::ExecutionPayloadRef::Deneb(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payloadRef");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changesRef");
    sym::check(x.blob_kzg_commitments().map(at) == Some(at(&i.blob_kzg_commitments)), "blob_kzg_commitmentsRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const deneb::minimal::BeaconBlockBody = &inner;
    let mut x: types::BeaconBlockBodyRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockBodyRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRefMut");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mutRefMut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRefMut");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRefMut");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mutRefMut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRefMut");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mutRefMut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRefMut");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mutRefMut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRefMut");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mutRefMut");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRefMut");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mutRefMut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRefMut");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mutRefMut");
    sym::check(x.sync_aggregate().map(at) == Some(at(&i.sync_aggregate)), "sync_aggregateRefMut");
    sym::check(x.sync_aggregate_mut().map(|y| at(y)) == Some(at(&i.sync_aggregate)), "sync_aggregate_mutRefMut");
    sym::check(match x.execution_payload() { Some(types::ExecutionPayloadRef::Deneb(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payloadRefMut");
    sym::check(match x.execution_payload_mut() { Some(types::ExecutionPayloadRefMut::Deneb(y)) => at(y) == at(&i.execution_payload), _ => false }, "execution_payload_mutRefMut");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changesRefMut");
    sym::check(x.bls_to_execution_changes_mut().map(|y| at(y)) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes_mutRefMut");
    sym::check(x.blob_kzg_commitments().map(at) == Some(at(&i.blob_kzg_commitments)), "blob_kzg_commitmentsRefMut");
    sym::check(x.blob_kzg_commitments_mut().map(|y| at(y)) == Some(at(&i.blob_kzg_commitments)), "blob_kzg_commitments_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <deneb::minimal::BeaconBlockBody>::default();
    json(&t::BeaconBlockBody::Deneb(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_block_phase0() {
    let mut inner = <phase0::minimal::BeaconBlock>::default();
    inner.slot.fill(1);
    inner.proposer_index.fill(2);
    inner.parent_root.fill(3);
    inner.state_root.fill(4);
    {
    let mut x = t::BeaconBlock::Phase0(inner.clone());
    let i: *const phase0::minimal::BeaconBlock = if let t::BeaconBlock::Phase0(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Phase0), "the fork");
    sym::check(x.phase0().map(at) == Some(at(i)), "phase0");
    sym::check(x.phase0_mut().map(|y| at(y)) == Some(at(i)), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_index");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mut");
    sym::check(x.parent_root() == i.parent_root, "parent_root");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mut");
    sym::check(x.state_root() == i.state_root, "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Phase0(y) => at(y) == at(&i.body), _ => false }, "body");
    sym::check(match x.body_mut() { types::BeaconBlockBodyRefMut::Phase0(y) => at(y) == at(&i.body), _ => false }, "body_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const phase0::minimal::BeaconBlock = &inner;
    let x: types::BeaconBlockRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Phase0), "the forkRef");
    sym::check(x.phase0().map(at) == Some(at(i)), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRef");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRef");
    sym::check(x.state_root() == i.state_root, "state_rootRef");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Phase0(y) => at(y) == at(&i.body), _ => false }, "bodyRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const phase0::minimal::BeaconBlock = &inner;
    let mut x: types::BeaconBlockRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Phase0), "the forkRefMut");
    sym::check(x.phase0().map(at) == Some(at(i)), "phase0RefMut");
    sym::check(x.phase0_mut().map(|y| at(y)) == Some(at(i)), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRefMut");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mutRefMut");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRefMut");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mutRefMut");
    sym::check(x.state_root() == i.state_root, "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Phase0(y) => at(y) == at(&i.body), _ => false }, "bodyRefMut");
    sym::check(match x.body_mut() { types::BeaconBlockBodyRefMut::Phase0(y) => at(y) == at(&i.body), _ => false }, "body_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <phase0::minimal::BeaconBlock>::default();
    json(&t::BeaconBlock::Phase0(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_block_altair() {
    let mut inner = <altair::minimal::BeaconBlock>::default();
    inner.slot.fill(1);
    inner.proposer_index.fill(2);
    inner.parent_root.fill(3);
    inner.state_root.fill(4);
    {
    let mut x = t::BeaconBlock::Altair(inner.clone());
    let i: *const altair::minimal::BeaconBlock = if let t::BeaconBlock::Altair(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Altair), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().map(at) == Some(at(i)), "altair");
    sym::check(x.altair_mut().map(|y| at(y)) == Some(at(i)), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_index");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mut");
    sym::check(x.parent_root() == i.parent_root, "parent_root");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mut");
    sym::check(x.state_root() == i.state_root, "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Altair(y) => at(y) == at(&i.body), _ => false }, "body");
    sym::check(match x.body_mut() { types::BeaconBlockBodyRefMut::Altair(y) => at(y) == at(&i.body), _ => false }, "body_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const altair::minimal::BeaconBlock = &inner;
    let x: types::BeaconBlockRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Altair), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().map(at) == Some(at(i)), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRef");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRef");
    sym::check(x.state_root() == i.state_root, "state_rootRef");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Altair(y) => at(y) == at(&i.body), _ => false }, "bodyRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const altair::minimal::BeaconBlock = &inner;
    let mut x: types::BeaconBlockRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Altair), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().map(at) == Some(at(i)), "altairRefMut");
    sym::check(x.altair_mut().map(|y| at(y)) == Some(at(i)), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRefMut");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mutRefMut");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRefMut");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mutRefMut");
    sym::check(x.state_root() == i.state_root, "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Altair(y) => at(y) == at(&i.body), _ => false }, "bodyRefMut");
    sym::check(match x.body_mut() { types::BeaconBlockBodyRefMut::Altair(y) => at(y) == at(&i.body), _ => false }, "body_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <altair::minimal::BeaconBlock>::default();
    json(&t::BeaconBlock::Altair(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_block_bellatrix() {
    let mut inner = <bellatrix::minimal::BeaconBlock>::default();
    inner.slot.fill(1);
    inner.proposer_index.fill(2);
    inner.parent_root.fill(3);
    inner.state_root.fill(4);
    {
    let mut x = t::BeaconBlock::Bellatrix(inner.clone());
    let i: *const bellatrix::minimal::BeaconBlock = if let t::BeaconBlock::Bellatrix(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrix");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_index");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mut");
    sym::check(x.parent_root() == i.parent_root, "parent_root");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mut");
    sym::check(x.state_root() == i.state_root, "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Bellatrix(y) => at(y) == at(&i.body), _ => false }, "body");
    sym::check(match x.body_mut() { types::BeaconBlockBodyRefMut::Bellatrix(y) => at(y) == at(&i.body), _ => false }, "body_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const bellatrix::minimal::BeaconBlock = &inner;
    let x: types::BeaconBlockRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRef");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRef");
    sym::check(x.state_root() == i.state_root, "state_rootRef");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Bellatrix(y) => at(y) == at(&i.body), _ => false }, "bodyRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const bellatrix::minimal::BeaconBlock = &inner;
    let mut x: types::BeaconBlockRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRefMut");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mutRefMut");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRefMut");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mutRefMut");
    sym::check(x.state_root() == i.state_root, "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Bellatrix(y) => at(y) == at(&i.body), _ => false }, "bodyRefMut");
    sym::check(match x.body_mut() { types::BeaconBlockBodyRefMut::Bellatrix(y) => at(y) == at(&i.body), _ => false }, "body_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <bellatrix::minimal::BeaconBlock>::default();
    json(&t::BeaconBlock::Bellatrix(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_block_capella() {
    let mut inner = <capella::minimal::BeaconBlock>::default();
    inner.slot.fill(1);
    inner.proposer_index.fill(2);
    inner.parent_root.fill(3);
    inner.state_root.fill(4);
    {
    let mut x = t::BeaconBlock::Capella(inner.clone());
    let i: *const capella::minimal::BeaconBlock = if let t::BeaconBlock::Capella(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().map(at) == Some(at(i)), "capella");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_index");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mut");
    sym::check(x.parent_root() == i.parent_root, "parent_root");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mut");
    sym::check(x.state_root() == i.state_root, "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Capella(y) => at(y) == at(&i.body), _ => false }, "body");
    sym::check(match x.body_mut() { types::BeaconBlockBodyRefMut::Capella(y) => at(y) == at(&i.body), _ => false }, "body_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const capella::minimal::BeaconBlock = &inner;
    let x: types::BeaconBlockRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRef");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRef");
    sym::check(x.state_root() == i.state_root, "state_rootRef");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Capella(y) => at(y) == at(&i.body), _ => false }, "bodyRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const capella::minimal::BeaconBlock = &inner;
    let mut x: types::BeaconBlockRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRefMut");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRefMut");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mutRefMut");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRefMut");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mutRefMut");
    sym::check(x.state_root() == i.state_root, "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Capella(y) => at(y) == at(&i.body), _ => false }, "bodyRefMut");
    sym::check(match x.body_mut() { types::BeaconBlockBodyRefMut::Capella(y) => at(y) == at(&i.body), _ => false }, "body_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <capella::minimal::BeaconBlock>::default();
    json(&t::BeaconBlock::Capella(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_block_deneb() {
    let mut inner = <deneb::minimal::BeaconBlock>::default();
    inner.slot.fill(1);
    inner.proposer_index.fill(2);
    inner.parent_root.fill(3);
    inner.state_root.fill(4);
    {
    let mut x = t::BeaconBlock::Deneb(inner.clone());
    let i: *const deneb::minimal::BeaconBlock = if let t::BeaconBlock::Deneb(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().map(at) == Some(at(i)), "deneb");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_index");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mut");
    sym::check(x.parent_root() == i.parent_root, "parent_root");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mut");
    sym::check(x.state_root() == i.state_root, "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Deneb(y) => at(y) == at(&i.body), _ => false }, "body");
    sym::check(match x.body_mut() { types::BeaconBlockBodyRefMut::Deneb(y) => at(y) == at(&i.body), _ => false }, "body_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const deneb::minimal::BeaconBlock = &inner;
    let x: types::BeaconBlockRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRef");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRef");
    sym::check(x.state_root() == i.state_root, "state_rootRef");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Deneb(y) => at(y) == at(&i.body), _ => false }, "bodyRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const deneb::minimal::BeaconBlock = &inner;
    let mut x: types::BeaconBlockRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16> = types::BeaconBlockRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRefMut");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRefMut");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mutRefMut");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRefMut");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mutRefMut");
    sym::check(x.state_root() == i.state_root, "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(match x.body() { types::BeaconBlockBodyRef::Deneb(y) => at(y) == at(&i.body), _ => false }, "bodyRefMut");
    sym::check(match x.body_mut() { types::BeaconBlockBodyRefMut::Deneb(y) => at(y) == at(&i.body), _ => false }, "body_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <deneb::minimal::BeaconBlock>::default();
    json(&t::BeaconBlock::Deneb(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_signed_beacon_block_phase0() {
    let mut inner = <phase0::minimal::SignedBeaconBlock>::default();
    {
    let mut x = t::SignedBeaconBlock::Phase0(inner.clone());
    let i: *const phase0::minimal::SignedBeaconBlock = if let t::SignedBeaconBlock::Phase0(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Phase0), "the fork");
    sym::check(x.phase0().map(at) == Some(at(i)), "phase0");
    sym::check(x.phase0_mut().map(|y| at(y)) == Some(at(i)), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(match x.message() { types::BeaconBlockRef::Phase0(y) => at(y) == at(&i.message), _ => false }, "message");
    sym::check(match x.message_mut() { types::BeaconBlockRefMut::Phase0(y) => at(y) == at(&i.message), _ => false }, "message_mut");
    sym::check(at(x.signature()) == at(&i.signature), "signature");
    sym::check(at(x.signature_mut()) == at(&i.signature), "signature_mut");
    root(&mut x, &mut inner);
    }
    let z = <phase0::minimal::SignedBeaconBlock>::default();
    json(&t::SignedBeaconBlock::Phase0(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_signed_beacon_block_altair() {
    let mut inner = <altair::minimal::SignedBeaconBlock>::default();
    {
    let mut x = t::SignedBeaconBlock::Altair(inner.clone());
    let i: *const altair::minimal::SignedBeaconBlock = if let t::SignedBeaconBlock::Altair(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Altair), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().map(at) == Some(at(i)), "altair");
    sym::check(x.altair_mut().map(|y| at(y)) == Some(at(i)), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(match x.message() { types::BeaconBlockRef::Altair(y) => at(y) == at(&i.message), _ => false }, "message");
    sym::check(match x.message_mut() { types::BeaconBlockRefMut::Altair(y) => at(y) == at(&i.message), _ => false }, "message_mut");
    sym::check(at(x.signature()) == at(&i.signature), "signature");
    sym::check(at(x.signature_mut()) == at(&i.signature), "signature_mut");
    root(&mut x, &mut inner);
    }
    let z = <altair::minimal::SignedBeaconBlock>::default();
    json(&t::SignedBeaconBlock::Altair(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_signed_beacon_block_bellatrix() {
    let mut inner = <bellatrix::minimal::SignedBeaconBlock>::default();
    {
    let mut x = t::SignedBeaconBlock::Bellatrix(inner.clone());
    let i: *const bellatrix::minimal::SignedBeaconBlock = if let t::SignedBeaconBlock::Bellatrix(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrix");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(match x.message() { types::BeaconBlockRef::Bellatrix(y) => at(y) == at(&i.message), _ => false }, "message");
    sym::check(match x.message_mut() { types::BeaconBlockRefMut::Bellatrix(y) => at(y) == at(&i.message), _ => false }, "message_mut");
    sym::check(at(x.signature()) == at(&i.signature), "signature");
    sym::check(at(x.signature_mut()) == at(&i.signature), "signature_mut");
    root(&mut x, &mut inner);
    }
    let z = <bellatrix::minimal::SignedBeaconBlock>::default();
    json(&t::SignedBeaconBlock::Bellatrix(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_signed_beacon_block_capella() {
    let mut inner = <capella::minimal::SignedBeaconBlock>::default();
    {
    let mut x = t::SignedBeaconBlock::Capella(inner.clone());
    let i: *const capella::minimal::SignedBeaconBlock = if let t::SignedBeaconBlock::Capella(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().map(at) == Some(at(i)), "capella");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(match x.message() { types::BeaconBlockRef::Capella(y) => at(y) == at(&i.message), _ => false }, "message");
    sym::check(match x.message_mut() { types::BeaconBlockRefMut::Capella(y) => at(y) == at(&i.message), _ => false }, "message_mut");
    sym::check(at(x.signature()) == at(&i.signature), "signature");
    sym::check(at(x.signature_mut()) == at(&i.signature), "signature_mut");
    root(&mut x, &mut inner);
    }
    let z = <capella::minimal::SignedBeaconBlock>::default();
    json(&t::SignedBeaconBlock::Capella(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_signed_beacon_block_deneb() {
    let mut inner = <deneb::minimal::SignedBeaconBlock>::default();
    {
    let mut x = t::SignedBeaconBlock::Deneb(inner.clone());
    let i: *const deneb::minimal::SignedBeaconBlock = if let t::SignedBeaconBlock::Deneb(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().map(at) == Some(at(i)), "deneb");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mut");
    sym::check(match x.message() { types::BeaconBlockRef::Deneb(y) => at(y) == at(&i.message), _ => false }, "message");
    sym::check(match x.message_mut() { types::BeaconBlockRefMut::Deneb(y) => at(y) == at(&i.message), _ => false }, "message_mut");
    sym::check(at(x.signature()) == at(&i.signature), "signature");
    sym::check(at(x.signature_mut()) == at(&i.signature), "signature_mut");
    root(&mut x, &mut inner);
    }
    let z = <deneb::minimal::SignedBeaconBlock>::default();
    json(&t::SignedBeaconBlock::Deneb(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_blinded_beacon_block_body_bellatrix() {
    let mut inner = <bellatrix::minimal::BlindedBeaconBlockBody>::default();
    {
    let mut x = t::BlindedBeaconBlockBody::Bellatrix(inner.clone());
    let i: *const bellatrix::minimal::BlindedBeaconBlockBody = if let t::BlindedBeaconBlockBody::Bellatrix(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the fork");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrix");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_reveal");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffiti");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashings");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashings");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestations");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mut");
    sym::check(at(x.deposits()) == at(&i.deposits), "deposits");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exits");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mut");
    sym::check(at(x.sync_aggregate()) == at(&i.sync_aggregate), "sync_aggregate");
    sym::check(at(x.sync_aggregate_mut()) == at(&i.sync_aggregate), "sync_aggregate_mut");
    sym::check(match x.execution_payload_header() { types::ExecutionPayloadHeaderRef::Bellatrix(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_header");
    sym::check(match x.execution_payload_header_mut() { types::ExecutionPayloadHeaderRefMut::Bellatrix(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_header_mut");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changes");
    sym::check(x.bls_to_execution_changes_mut().is_none(), "bls_to_execution_changes_mut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitments");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const bellatrix::minimal::BlindedBeaconBlockBody = &inner;
    let x: types::BlindedBeaconBlockBodyRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockBodyRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRef");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRef");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRef");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRef");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRef");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRef");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRef");
    sym::check(at(x.sync_aggregate()) == at(&i.sync_aggregate), "sync_aggregateRef");
    sym::check(match x.execution_payload_header() { types::ExecutionPayloadHeaderRef::Bellatrix(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_headerRef");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changesRef");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const bellatrix::minimal::BlindedBeaconBlockBody = &inner;
    let mut x: types::BlindedBeaconBlockBodyRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockBodyRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRefMut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRefMut");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRefMut");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mutRefMut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRefMut");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mutRefMut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRefMut");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mutRefMut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRefMut");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mutRefMut");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRefMut");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mutRefMut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRefMut");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mutRefMut");
    sym::check(at(x.sync_aggregate()) == at(&i.sync_aggregate), "sync_aggregateRefMut");
    sym::check(at(x.sync_aggregate_mut()) == at(&i.sync_aggregate), "sync_aggregate_mutRefMut");
    sym::check(match x.execution_payload_header() { types::ExecutionPayloadHeaderRef::Bellatrix(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_headerRefMut");
    sym::check(match x.execution_payload_header_mut() { types::ExecutionPayloadHeaderRefMut::Bellatrix(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_header_mutRefMut");
    sym::check(x.bls_to_execution_changes().is_none(), "bls_to_execution_changesRefMut");
    sym::check(x.bls_to_execution_changes_mut().is_none(), "bls_to_execution_changes_mutRefMut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRefMut");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <bellatrix::minimal::BlindedBeaconBlockBody>::default();
    json(&t::BlindedBeaconBlockBody::Bellatrix(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_blinded_beacon_block_body_capella() {
    let mut inner = <capella::minimal::BlindedBeaconBlockBody>::default();
    {
    let mut x = t::BlindedBeaconBlockBody::Capella(inner.clone());
    let i: *const capella::minimal::BlindedBeaconBlockBody = if let t::BlindedBeaconBlockBody::Capella(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the fork");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().map(at) == Some(at(i)), "capella");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_reveal");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffiti");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashings");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashings");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestations");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mut");
    sym::check(at(x.deposits()) == at(&i.deposits), "deposits");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exits");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mut");
    sym::check(at(x.sync_aggregate()) == at(&i.sync_aggregate), "sync_aggregate");
    sym::check(at(x.sync_aggregate_mut()) == at(&i.sync_aggregate), "sync_aggregate_mut");
    sym::check(match x.execution_payload_header() { types::ExecutionPayloadHeaderRef::Capella(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_header");
    sym::check(match x.execution_payload_header_mut() { types::ExecutionPayloadHeaderRefMut::Capella(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_header_mut");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes");
    sym::check(x.bls_to_execution_changes_mut().map(|y| at(y)) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes_mut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitments");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const capella::minimal::BlindedBeaconBlockBody = &inner;
    let x: types::BlindedBeaconBlockBodyRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockBodyRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRef");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRef");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRef");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRef");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRef");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRef");
    sym::check(at(x.sync_aggregate()) == at(&i.sync_aggregate), "sync_aggregateRef");
    sym::check(match x.execution_payload_header() { types::ExecutionPayloadHeaderRef::Capella(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_headerRef");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changesRef");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const capella::minimal::BlindedBeaconBlockBody = &inner;
    let mut x: types::BlindedBeaconBlockBodyRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockBodyRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRefMut");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRefMut");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRefMut");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mutRefMut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRefMut");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mutRefMut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRefMut");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mutRefMut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRefMut");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mutRefMut");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRefMut");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mutRefMut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRefMut");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mutRefMut");
    sym::check(at(x.sync_aggregate()) == at(&i.sync_aggregate), "sync_aggregateRefMut");
    sym::check(at(x.sync_aggregate_mut()) == at(&i.sync_aggregate), "sync_aggregate_mutRefMut");
    sym::check(match x.execution_payload_header() { types::ExecutionPayloadHeaderRef::Capella(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_headerRefMut");
    sym::check(match x.execution_payload_header_mut() { types::ExecutionPayloadHeaderRefMut::Capella(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_header_mutRefMut");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changesRefMut");
    sym::check(x.bls_to_execution_changes_mut().map(|y| at(y)) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes_mutRefMut");
    sym::check(x.blob_kzg_commitments().is_none(), "blob_kzg_commitmentsRefMut");
    sym::check(x.blob_kzg_commitments_mut().is_none(), "blob_kzg_commitments_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <capella::minimal::BlindedBeaconBlockBody>::default();
    json(&t::BlindedBeaconBlockBody::Capella(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_blinded_beacon_block_body_deneb() {
    let mut inner = <deneb::minimal::BlindedBeaconBlockBody>::default();
    {
    let mut x = t::BlindedBeaconBlockBody::Deneb(inner.clone());
    let i: *const deneb::minimal::BlindedBeaconBlockBody = if let t::BlindedBeaconBlockBody::Deneb(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the fork");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().map(at) == Some(at(i)), "deneb");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_reveal");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffiti");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashings");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashings");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestations");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mut");
    sym::check(at(x.deposits()) == at(&i.deposits), "deposits");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exits");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mut");
    sym::check(at(x.sync_aggregate()) == at(&i.sync_aggregate), "sync_aggregate");
    sym::check(at(x.sync_aggregate_mut()) == at(&i.sync_aggregate), "sync_aggregate_mut");
    sym::check(match x.execution_payload_header() { types::ExecutionPayloadHeaderRef::Deneb(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_header");
    sym::check(match x.execution_payload_header_mut() { types::ExecutionPayloadHeaderRefMut::Deneb(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_header_mut");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes");
    sym::check(x.bls_to_execution_changes_mut().map(|y| at(y)) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes_mut");
    sym::check(x.blob_kzg_commitments().map(at) == Some(at(&i.blob_kzg_commitments)), "blob_kzg_commitments");
    sym::check(x.blob_kzg_commitments_mut().map(|y| at(y)) == Some(at(&i.blob_kzg_commitments)), "blob_kzg_commitments_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const deneb::minimal::BlindedBeaconBlockBody = &inner;
    let x: types::BlindedBeaconBlockBodyRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockBodyRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRef");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRef");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRef");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRef");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRef");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRef");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRef");
    sym::check(at(x.sync_aggregate()) == at(&i.sync_aggregate), "sync_aggregateRef");
    sym::check(match x.execution_payload_header() { types::ExecutionPayloadHeaderRef::Deneb(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_headerRef");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changesRef");
    sym::check(x.blob_kzg_commitments().map(at) == Some(at(&i.blob_kzg_commitments)), "blob_kzg_commitmentsRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const deneb::minimal::BlindedBeaconBlockBody = &inner;
    let mut x: types::BlindedBeaconBlockBodyRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockBodyRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRefMut");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mutRefMut");
    sym::check(at(x.randao_reveal()) == at(&i.randao_reveal), "randao_revealRefMut");
    sym::check(at(x.randao_reveal_mut()) == at(&i.randao_reveal), "randao_reveal_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.graffiti()) == at(&i.graffiti), "graffitiRefMut");
    sym::check(at(x.graffiti_mut()) == at(&i.graffiti), "graffiti_mutRefMut");
    sym::check(at(x.proposer_slashings()) == at(&i.proposer_slashings), "proposer_slashingsRefMut");
    sym::check(at(x.proposer_slashings_mut()) == at(&i.proposer_slashings), "proposer_slashings_mutRefMut");
    sym::check(at(x.attester_slashings()) == at(&i.attester_slashings), "attester_slashingsRefMut");
    sym::check(at(x.attester_slashings_mut()) == at(&i.attester_slashings), "attester_slashings_mutRefMut");
    sym::check(at(x.attestations()) == at(&i.attestations), "attestationsRefMut");
    sym::check(at(x.attestations_mut()) == at(&i.attestations), "attestations_mutRefMut");
    sym::check(at(x.deposits()) == at(&i.deposits), "depositsRefMut");
    sym::check(at(x.deposits_mut()) == at(&i.deposits), "deposits_mutRefMut");
    sym::check(at(x.voluntary_exits()) == at(&i.voluntary_exits), "voluntary_exitsRefMut");
    sym::check(at(x.voluntary_exits_mut()) == at(&i.voluntary_exits), "voluntary_exits_mutRefMut");
    sym::check(at(x.sync_aggregate()) == at(&i.sync_aggregate), "sync_aggregateRefMut");
    sym::check(at(x.sync_aggregate_mut()) == at(&i.sync_aggregate), "sync_aggregate_mutRefMut");
    sym::check(match x.execution_payload_header() { types::ExecutionPayloadHeaderRef::Deneb(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_headerRefMut");
    sym::check(match x.execution_payload_header_mut() { types::ExecutionPayloadHeaderRefMut::Deneb(y) => at(y) == at(&i.execution_payload_header), _ => false }, "execution_payload_header_mutRefMut");
    sym::check(x.bls_to_execution_changes().map(at) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changesRefMut");
    sym::check(x.bls_to_execution_changes_mut().map(|y| at(y)) == Some(at(&i.bls_to_execution_changes)), "bls_to_execution_changes_mutRefMut");
    sym::check(x.blob_kzg_commitments().map(at) == Some(at(&i.blob_kzg_commitments)), "blob_kzg_commitmentsRefMut");
    sym::check(x.blob_kzg_commitments_mut().map(|y| at(y)) == Some(at(&i.blob_kzg_commitments)), "blob_kzg_commitments_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <deneb::minimal::BlindedBeaconBlockBody>::default();
    json(&t::BlindedBeaconBlockBody::Deneb(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_blinded_beacon_block_bellatrix() {
    let mut inner = <bellatrix::minimal::BlindedBeaconBlock>::default();
    inner.slot.fill(1);
    inner.proposer_index.fill(2);
    inner.parent_root.fill(3);
    inner.state_root.fill(4);
    {
    let mut x = t::BlindedBeaconBlock::Bellatrix(inner.clone());
    let i: *const bellatrix::minimal::BlindedBeaconBlock = if let t::BlindedBeaconBlock::Bellatrix(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the fork");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrix");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_index");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mut");
    sym::check(x.parent_root() == i.parent_root, "parent_root");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mut");
    sym::check(x.state_root() == i.state_root, "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(match x.body() { types::BlindedBeaconBlockBodyRef::Bellatrix(y) => at(y) == at(&i.body), _ => false }, "body");
    sym::check(match x.body_mut() { types::BlindedBeaconBlockBodyRefMut::Bellatrix(y) => at(y) == at(&i.body), _ => false }, "body_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const bellatrix::minimal::BlindedBeaconBlock = &inner;
    let x: types::BlindedBeaconBlockRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRef");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRef");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRef");
    sym::check(x.state_root() == i.state_root, "state_rootRef");
    sym::check(match x.body() { types::BlindedBeaconBlockBodyRef::Bellatrix(y) => at(y) == at(&i.body), _ => false }, "bodyRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const bellatrix::minimal::BlindedBeaconBlock = &inner;
    let mut x: types::BlindedBeaconBlockRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRefMut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRefMut");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mutRefMut");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRefMut");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mutRefMut");
    sym::check(x.state_root() == i.state_root, "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(match x.body() { types::BlindedBeaconBlockBodyRef::Bellatrix(y) => at(y) == at(&i.body), _ => false }, "bodyRefMut");
    sym::check(match x.body_mut() { types::BlindedBeaconBlockBodyRefMut::Bellatrix(y) => at(y) == at(&i.body), _ => false }, "body_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <bellatrix::minimal::BlindedBeaconBlock>::default();
    json(&t::BlindedBeaconBlock::Bellatrix(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_blinded_beacon_block_capella() {
    let mut inner = <capella::minimal::BlindedBeaconBlock>::default();
    inner.slot.fill(1);
    inner.proposer_index.fill(2);
    inner.parent_root.fill(3);
    inner.state_root.fill(4);
    {
    let mut x = t::BlindedBeaconBlock::Capella(inner.clone());
    let i: *const capella::minimal::BlindedBeaconBlock = if let t::BlindedBeaconBlock::Capella(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the fork");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().map(at) == Some(at(i)), "capella");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_index");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mut");
    sym::check(x.parent_root() == i.parent_root, "parent_root");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mut");
    sym::check(x.state_root() == i.state_root, "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(match x.body() { types::BlindedBeaconBlockBodyRef::Capella(y) => at(y) == at(&i.body), _ => false }, "body");
    sym::check(match x.body_mut() { types::BlindedBeaconBlockBodyRefMut::Capella(y) => at(y) == at(&i.body), _ => false }, "body_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const capella::minimal::BlindedBeaconBlock = &inner;
    let x: types::BlindedBeaconBlockRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRef");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRef");
    sym::check(x.state_root() == i.state_root, "state_rootRef");
    sym::check(match x.body() { types::BlindedBeaconBlockBodyRef::Capella(y) => at(y) == at(&i.body), _ => false }, "bodyRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const capella::minimal::BlindedBeaconBlock = &inner;
    let mut x: types::BlindedBeaconBlockRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRefMut");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRefMut");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mutRefMut");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRefMut");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mutRefMut");
    sym::check(x.state_root() == i.state_root, "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(match x.body() { types::BlindedBeaconBlockBodyRef::Capella(y) => at(y) == at(&i.body), _ => false }, "bodyRefMut");
    sym::check(match x.body_mut() { types::BlindedBeaconBlockBodyRefMut::Capella(y) => at(y) == at(&i.body), _ => false }, "body_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <capella::minimal::BlindedBeaconBlock>::default();
    json(&t::BlindedBeaconBlock::Capella(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_blinded_beacon_block_deneb() {
    let mut inner = <deneb::minimal::BlindedBeaconBlock>::default();
    inner.slot.fill(1);
    inner.proposer_index.fill(2);
    inner.parent_root.fill(3);
    inner.state_root.fill(4);
    {
    let mut x = t::BlindedBeaconBlock::Deneb(inner.clone());
    let i: *const deneb::minimal::BlindedBeaconBlock = if let t::BlindedBeaconBlock::Deneb(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the fork");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().map(at) == Some(at(i)), "deneb");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_index");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mut");
    sym::check(x.parent_root() == i.parent_root, "parent_root");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mut");
    sym::check(x.state_root() == i.state_root, "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(match x.body() { types::BlindedBeaconBlockBodyRef::Deneb(y) => at(y) == at(&i.body), _ => false }, "body");
    sym::check(match x.body_mut() { types::BlindedBeaconBlockBodyRefMut::Deneb(y) => at(y) == at(&i.body), _ => false }, "body_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const deneb::minimal::BlindedBeaconBlock = &inner;
    let x: types::BlindedBeaconBlockRef<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRef");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRef");
    sym::check(x.state_root() == i.state_root, "state_rootRef");
    sym::check(match x.body() { types::BlindedBeaconBlockBodyRef::Deneb(y) => at(y) == at(&i.body), _ => false }, "bodyRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const deneb::minimal::BlindedBeaconBlock = &inner;
    let mut x: types::BlindedBeaconBlockRefMut<16, 2048, 2, 128, 16, 16, 32, 256, 32, 16, 16> = types::BlindedBeaconBlockRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRefMut");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(x.proposer_index() == i.proposer_index, "proposer_indexRefMut");
    sym::check(at(x.proposer_index_mut()) == at(&i.proposer_index), "proposer_index_mutRefMut");
    sym::check(x.parent_root() == i.parent_root, "parent_rootRefMut");
    sym::check(at(x.parent_root_mut()) == at(&i.parent_root), "parent_root_mutRefMut");
    sym::check(x.state_root() == i.state_root, "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(match x.body() { types::BlindedBeaconBlockBodyRef::Deneb(y) => at(y) == at(&i.body), _ => false }, "bodyRefMut");
    sym::check(match x.body_mut() { types::BlindedBeaconBlockBodyRefMut::Deneb(y) => at(y) == at(&i.body), _ => false }, "body_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <deneb::minimal::BlindedBeaconBlock>::default();
    json(&t::BlindedBeaconBlock::Deneb(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_signed_blinded_beacon_block_bellatrix() {
    let mut inner = <bellatrix::minimal::SignedBlindedBeaconBlock>::default();
    {
    let mut x = t::SignedBlindedBeaconBlock::Bellatrix(inner.clone());
    let i: *const bellatrix::minimal::SignedBlindedBeaconBlock = if let t::SignedBlindedBeaconBlock::Bellatrix(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the fork");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrix");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(match x.message() { types::BlindedBeaconBlockRef::Bellatrix(y) => at(y) == at(&i.message), _ => false }, "message");
    sym::check(match x.message_mut() { types::BlindedBeaconBlockRefMut::Bellatrix(y) => at(y) == at(&i.message), _ => false }, "message_mut");
    sym::check(at(x.signature()) == at(&i.signature), "signature");
    sym::check(at(x.signature_mut()) == at(&i.signature), "signature_mut");
    root(&mut x, &mut inner);
    }
    let z = <bellatrix::minimal::SignedBlindedBeaconBlock>::default();
    json(&t::SignedBlindedBeaconBlock::Bellatrix(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_signed_blinded_beacon_block_capella() {
    let mut inner = <capella::minimal::SignedBlindedBeaconBlock>::default();
    {
    let mut x = t::SignedBlindedBeaconBlock::Capella(inner.clone());
    let i: *const capella::minimal::SignedBlindedBeaconBlock = if let t::SignedBlindedBeaconBlock::Capella(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the fork");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().map(at) == Some(at(i)), "capella");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(match x.message() { types::BlindedBeaconBlockRef::Capella(y) => at(y) == at(&i.message), _ => false }, "message");
    sym::check(match x.message_mut() { types::BlindedBeaconBlockRefMut::Capella(y) => at(y) == at(&i.message), _ => false }, "message_mut");
    sym::check(at(x.signature()) == at(&i.signature), "signature");
    sym::check(at(x.signature_mut()) == at(&i.signature), "signature_mut");
    root(&mut x, &mut inner);
    }
    let z = <capella::minimal::SignedBlindedBeaconBlock>::default();
    json(&t::SignedBlindedBeaconBlock::Capella(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_signed_blinded_beacon_block_deneb() {
    let mut inner = <deneb::minimal::SignedBlindedBeaconBlock>::default();
    {
    let mut x = t::SignedBlindedBeaconBlock::Deneb(inner.clone());
    let i: *const deneb::minimal::SignedBlindedBeaconBlock = if let t::SignedBlindedBeaconBlock::Deneb(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the fork");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().map(at) == Some(at(i)), "deneb");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mut");
    sym::check(match x.message() { types::BlindedBeaconBlockRef::Deneb(y) => at(y) == at(&i.message), _ => false }, "message");
    sym::check(match x.message_mut() { types::BlindedBeaconBlockRefMut::Deneb(y) => at(y) == at(&i.message), _ => false }, "message_mut");
    sym::check(at(x.signature()) == at(&i.signature), "signature");
    sym::check(at(x.signature_mut()) == at(&i.signature), "signature_mut");
    root(&mut x, &mut inner);
    }
    let z = <deneb::minimal::SignedBlindedBeaconBlock>::default();
    json(&t::SignedBlindedBeaconBlock::Deneb(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_execution_payload_bellatrix() {
    let mut inner = <bellatrix::minimal::ExecutionPayload>::default();
    inner.block_number.fill(1);
    inner.gas_limit.fill(2);
    inner.gas_used.fill(3);
    inner.timestamp.fill(4);
    {
    let mut x = t::ExecutionPayload::Bellatrix(inner.clone());
    let i: *const bellatrix::minimal::ExecutionPayload = if let t::ExecutionPayload::Bellatrix(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the fork");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrix");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hash");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipient");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_root");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloom");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randao");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mut");
    sym::check(x.block_number() == i.block_number, "block_number");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limit");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mut");
    sym::check(x.gas_used() == i.gas_used, "gas_used");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mut");
    sym::check(x.timestamp() == i.timestamp, "timestamp");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_data");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gas");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hash");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mut");
    sym::check(at(x.transactions()) == at(&i.transactions), "transactions");
    sym::check(at(x.transactions_mut()) == at(&i.transactions), "transactions_mut");
    sym::check(x.withdrawals().is_none(), "withdrawals");
    sym::check(x.withdrawals_mut().is_none(), "withdrawals_mut");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_used");
    sym::check(x.blob_gas_used_mut().is_none(), "blob_gas_used_mut");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gas");
    sym::check(x.excess_blob_gas_mut().is_none(), "excess_blob_gas_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const bellatrix::minimal::ExecutionPayload = &inner;
    let x: types::ExecutionPayloadRef<256, 32, 1073741824, 1048576, 4> = types::ExecutionPayloadRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRef");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRef");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRef");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRef");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRef");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRef");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRef");
    sym::check(x.block_number() == i.block_number, "block_numberRef");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRef");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRef");
    sym::check(x.timestamp() == i.timestamp, "timestampRef");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRef");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRef");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRef");
    sym::check(at(x.transactions()) == at(&i.transactions), "transactionsRef");
    sym::check(x.withdrawals().is_none(), "withdrawalsRef");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_usedRef");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gasRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const bellatrix::minimal::ExecutionPayload = &inner;
    let mut x: types::ExecutionPayloadRefMut<256, 32, 1073741824, 1048576, 4> = types::ExecutionPayloadRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRefMut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRefMut");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mutRefMut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRefMut");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mutRefMut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRefMut");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mutRefMut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRefMut");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mutRefMut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRefMut");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mutRefMut");
    sym::check(x.block_number() == i.block_number, "block_numberRefMut");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mutRefMut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRefMut");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mutRefMut");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRefMut");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mutRefMut");
    sym::check(x.timestamp() == i.timestamp, "timestampRefMut");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mutRefMut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRefMut");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mutRefMut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRefMut");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mutRefMut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRefMut");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mutRefMut");
    sym::check(at(x.transactions()) == at(&i.transactions), "transactionsRefMut");
    sym::check(at(x.transactions_mut()) == at(&i.transactions), "transactions_mutRefMut");
    sym::check(x.withdrawals().is_none(), "withdrawalsRefMut");
    sym::check(x.withdrawals_mut().is_none(), "withdrawals_mutRefMut");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_usedRefMut");
    sym::check(x.blob_gas_used_mut().is_none(), "blob_gas_used_mutRefMut");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gasRefMut");
    sym::check(x.excess_blob_gas_mut().is_none(), "excess_blob_gas_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <bellatrix::minimal::ExecutionPayload>::default();
    json(&t::ExecutionPayload::Bellatrix(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_execution_payload_capella() {
    let mut inner = <capella::minimal::ExecutionPayload>::default();
    inner.block_number.fill(1);
    inner.gas_limit.fill(2);
    inner.gas_used.fill(3);
    inner.timestamp.fill(4);
    {
    let mut x = t::ExecutionPayload::Capella(inner.clone());
    let i: *const capella::minimal::ExecutionPayload = if let t::ExecutionPayload::Capella(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the fork");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().map(at) == Some(at(i)), "capella");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hash");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipient");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_root");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloom");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randao");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mut");
    sym::check(x.block_number() == i.block_number, "block_number");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limit");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mut");
    sym::check(x.gas_used() == i.gas_used, "gas_used");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mut");
    sym::check(x.timestamp() == i.timestamp, "timestamp");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_data");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gas");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hash");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mut");
    sym::check(at(x.transactions()) == at(&i.transactions), "transactions");
    sym::check(at(x.transactions_mut()) == at(&i.transactions), "transactions_mut");
    sym::check(x.withdrawals().map(at) == Some(at(&i.withdrawals)), "withdrawals");
    sym::check(x.withdrawals_mut().map(|y| at(y)) == Some(at(&i.withdrawals)), "withdrawals_mut");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_used");
    sym::check(x.blob_gas_used_mut().is_none(), "blob_gas_used_mut");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gas");
    sym::check(x.excess_blob_gas_mut().is_none(), "excess_blob_gas_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const capella::minimal::ExecutionPayload = &inner;
    let x: types::ExecutionPayloadRef<256, 32, 1073741824, 1048576, 4> = types::ExecutionPayloadRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRef");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRef");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRef");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRef");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRef");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRef");
    sym::check(x.block_number() == i.block_number, "block_numberRef");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRef");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRef");
    sym::check(x.timestamp() == i.timestamp, "timestampRef");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRef");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRef");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRef");
    sym::check(at(x.transactions()) == at(&i.transactions), "transactionsRef");
    sym::check(x.withdrawals().map(at) == Some(at(&i.withdrawals)), "withdrawalsRef");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_usedRef");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gasRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const capella::minimal::ExecutionPayload = &inner;
    let mut x: types::ExecutionPayloadRefMut<256, 32, 1073741824, 1048576, 4> = types::ExecutionPayloadRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRefMut");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRefMut");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mutRefMut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRefMut");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mutRefMut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRefMut");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mutRefMut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRefMut");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mutRefMut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRefMut");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mutRefMut");
    sym::check(x.block_number() == i.block_number, "block_numberRefMut");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mutRefMut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRefMut");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mutRefMut");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRefMut");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mutRefMut");
    sym::check(x.timestamp() == i.timestamp, "timestampRefMut");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mutRefMut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRefMut");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mutRefMut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRefMut");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mutRefMut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRefMut");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mutRefMut");
    sym::check(at(x.transactions()) == at(&i.transactions), "transactionsRefMut");
    sym::check(at(x.transactions_mut()) == at(&i.transactions), "transactions_mutRefMut");
    sym::check(x.withdrawals().map(at) == Some(at(&i.withdrawals)), "withdrawalsRefMut");
    sym::check(x.withdrawals_mut().map(|y| at(y)) == Some(at(&i.withdrawals)), "withdrawals_mutRefMut");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_usedRefMut");
    sym::check(x.blob_gas_used_mut().is_none(), "blob_gas_used_mutRefMut");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gasRefMut");
    sym::check(x.excess_blob_gas_mut().is_none(), "excess_blob_gas_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <capella::minimal::ExecutionPayload>::default();
    json(&t::ExecutionPayload::Capella(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_execution_payload_deneb() {
    let mut inner = <deneb::minimal::ExecutionPayload>::default();
    inner.block_number.fill(1);
    inner.gas_limit.fill(2);
    inner.gas_used.fill(3);
    inner.timestamp.fill(4);
    inner.blob_gas_used.fill(5);
    inner.excess_blob_gas.fill(6);
    {
    let mut x = t::ExecutionPayload::Deneb(inner.clone());
    let i: *const deneb::minimal::ExecutionPayload = if let t::ExecutionPayload::Deneb(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the fork");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().map(at) == Some(at(i)), "deneb");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hash");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipient");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_root");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloom");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randao");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mut");
    sym::check(x.block_number() == i.block_number, "block_number");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limit");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mut");
    sym::check(x.gas_used() == i.gas_used, "gas_used");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mut");
    sym::check(x.timestamp() == i.timestamp, "timestamp");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_data");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gas");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hash");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mut");
    sym::check(at(x.transactions()) == at(&i.transactions), "transactions");
    sym::check(at(x.transactions_mut()) == at(&i.transactions), "transactions_mut");
    sym::check(x.withdrawals().map(at) == Some(at(&i.withdrawals)), "withdrawals");
    sym::check(x.withdrawals_mut().map(|y| at(y)) == Some(at(&i.withdrawals)), "withdrawals_mut");
    sym::check(x.blob_gas_used() == Some(i.blob_gas_used), "blob_gas_used");
    sym::check(x.blob_gas_used_mut().map(|y| at(y)) == Some(at(&i.blob_gas_used)), "blob_gas_used_mut");
    sym::check(x.excess_blob_gas() == Some(i.excess_blob_gas), "excess_blob_gas");
    sym::check(x.excess_blob_gas_mut().map(|y| at(y)) == Some(at(&i.excess_blob_gas)), "excess_blob_gas_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const deneb::minimal::ExecutionPayload = &inner;
    let x: types::ExecutionPayloadRef<256, 32, 1073741824, 1048576, 4> = types::ExecutionPayloadRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRef");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRef");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRef");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRef");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRef");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRef");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRef");
    sym::check(x.block_number() == i.block_number, "block_numberRef");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRef");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRef");
    sym::check(x.timestamp() == i.timestamp, "timestampRef");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRef");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRef");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRef");
    sym::check(at(x.transactions()) == at(&i.transactions), "transactionsRef");
    sym::check(x.withdrawals().map(at) == Some(at(&i.withdrawals)), "withdrawalsRef");
    sym::check(x.blob_gas_used() == Some(i.blob_gas_used), "blob_gas_usedRef");
    sym::check(x.excess_blob_gas() == Some(i.excess_blob_gas), "excess_blob_gasRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const deneb::minimal::ExecutionPayload = &inner;
    let mut x: types::ExecutionPayloadRefMut<256, 32, 1073741824, 1048576, 4> = types::ExecutionPayloadRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRefMut");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mutRefMut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRefMut");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mutRefMut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRefMut");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mutRefMut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRefMut");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mutRefMut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRefMut");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mutRefMut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRefMut");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mutRefMut");
    sym::check(x.block_number() == i.block_number, "block_numberRefMut");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mutRefMut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRefMut");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mutRefMut");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRefMut");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mutRefMut");
    sym::check(x.timestamp() == i.timestamp, "timestampRefMut");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mutRefMut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRefMut");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mutRefMut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRefMut");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mutRefMut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRefMut");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mutRefMut");
    sym::check(at(x.transactions()) == at(&i.transactions), "transactionsRefMut");
    sym::check(at(x.transactions_mut()) == at(&i.transactions), "transactions_mutRefMut");
    sym::check(x.withdrawals().map(at) == Some(at(&i.withdrawals)), "withdrawalsRefMut");
    sym::check(x.withdrawals_mut().map(|y| at(y)) == Some(at(&i.withdrawals)), "withdrawals_mutRefMut");
    sym::check(x.blob_gas_used() == Some(i.blob_gas_used), "blob_gas_usedRefMut");
    sym::check(x.blob_gas_used_mut().map(|y| at(y)) == Some(at(&i.blob_gas_used)), "blob_gas_used_mutRefMut");
    sym::check(x.excess_blob_gas() == Some(i.excess_blob_gas), "excess_blob_gasRefMut");
    sym::check(x.excess_blob_gas_mut().map(|y| at(y)) == Some(at(&i.excess_blob_gas)), "excess_blob_gas_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <deneb::minimal::ExecutionPayload>::default();
    json(&t::ExecutionPayload::Deneb(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_execution_payload_header_bellatrix() {
    let mut inner = <bellatrix::minimal::ExecutionPayloadHeader>::default();
    inner.block_number.fill(1);
    inner.gas_limit.fill(2);
    inner.gas_used.fill(3);
    inner.timestamp.fill(4);
    inner.transactions_root.fill(5);
    {
    let mut x = t::ExecutionPayloadHeader::Bellatrix(inner.clone());
    let i: *const bellatrix::minimal::ExecutionPayloadHeader = if let t::ExecutionPayloadHeader::Bellatrix(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the fork");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrix");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hash");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipient");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_root");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloom");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randao");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mut");
    sym::check(x.block_number() == i.block_number, "block_number");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limit");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mut");
    sym::check(x.gas_used() == i.gas_used, "gas_used");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mut");
    sym::check(x.timestamp() == i.timestamp, "timestamp");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_data");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gas");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hash");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mut");
    sym::check(x.transactions_root() == i.transactions_root, "transactions_root");
    sym::check(at(x.transactions_root_mut()) == at(&i.transactions_root), "transactions_root_mut");
    sym::check(x.withdrawals_root().is_none(), "withdrawals_root");
    sym::check(x.withdrawals_root_mut().is_none(), "withdrawals_root_mut");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_used");
    sym::check(x.blob_gas_used_mut().is_none(), "blob_gas_used_mut");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gas");
    sym::check(x.excess_blob_gas_mut().is_none(), "excess_blob_gas_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const bellatrix::minimal::ExecutionPayloadHeader = &inner;
    let x: types::ExecutionPayloadHeaderRef<256, 32> = types::ExecutionPayloadHeaderRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRef");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRef");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRef");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRef");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRef");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRef");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRef");
    sym::check(x.block_number() == i.block_number, "block_numberRef");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRef");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRef");
    sym::check(x.timestamp() == i.timestamp, "timestampRef");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRef");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRef");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRef");
    sym::check(x.transactions_root() == i.transactions_root, "transactions_rootRef");
    sym::check(x.withdrawals_root().is_none(), "withdrawals_rootRef");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_usedRef");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gasRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const bellatrix::minimal::ExecutionPayloadHeader = &inner;
    let mut x: types::ExecutionPayloadHeaderRefMut<256, 32> = types::ExecutionPayloadHeaderRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRefMut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRefMut");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mutRefMut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRefMut");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mutRefMut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRefMut");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mutRefMut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRefMut");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mutRefMut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRefMut");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mutRefMut");
    sym::check(x.block_number() == i.block_number, "block_numberRefMut");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mutRefMut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRefMut");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mutRefMut");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRefMut");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mutRefMut");
    sym::check(x.timestamp() == i.timestamp, "timestampRefMut");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mutRefMut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRefMut");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mutRefMut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRefMut");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mutRefMut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRefMut");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mutRefMut");
    sym::check(x.transactions_root() == i.transactions_root, "transactions_rootRefMut");
    sym::check(at(x.transactions_root_mut()) == at(&i.transactions_root), "transactions_root_mutRefMut");
    sym::check(x.withdrawals_root().is_none(), "withdrawals_rootRefMut");
    sym::check(x.withdrawals_root_mut().is_none(), "withdrawals_root_mutRefMut");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_usedRefMut");
    sym::check(x.blob_gas_used_mut().is_none(), "blob_gas_used_mutRefMut");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gasRefMut");
    sym::check(x.excess_blob_gas_mut().is_none(), "excess_blob_gas_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <bellatrix::minimal::ExecutionPayloadHeader>::default();
    json(&t::ExecutionPayloadHeader::Bellatrix(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_execution_payload_header_capella() {
    let mut inner = <capella::minimal::ExecutionPayloadHeader>::default();
    inner.block_number.fill(1);
    inner.gas_limit.fill(2);
    inner.gas_used.fill(3);
    inner.timestamp.fill(4);
    inner.transactions_root.fill(5);
    inner.withdrawals_root.fill(6);
    {
    let mut x = t::ExecutionPayloadHeader::Capella(inner.clone());
    let i: *const capella::minimal::ExecutionPayloadHeader = if let t::ExecutionPayloadHeader::Capella(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the fork");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().map(at) == Some(at(i)), "capella");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hash");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipient");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_root");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloom");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randao");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mut");
    sym::check(x.block_number() == i.block_number, "block_number");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limit");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mut");
    sym::check(x.gas_used() == i.gas_used, "gas_used");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mut");
    sym::check(x.timestamp() == i.timestamp, "timestamp");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_data");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gas");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hash");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mut");
    sym::check(x.transactions_root() == i.transactions_root, "transactions_root");
    sym::check(at(x.transactions_root_mut()) == at(&i.transactions_root), "transactions_root_mut");
    sym::check(x.withdrawals_root() == Some(i.withdrawals_root), "withdrawals_root");
    sym::check(x.withdrawals_root_mut().map(|y| at(y)) == Some(at(&i.withdrawals_root)), "withdrawals_root_mut");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_used");
    sym::check(x.blob_gas_used_mut().is_none(), "blob_gas_used_mut");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gas");
    sym::check(x.excess_blob_gas_mut().is_none(), "excess_blob_gas_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const capella::minimal::ExecutionPayloadHeader = &inner;
    let x: types::ExecutionPayloadHeaderRef<256, 32> = types::ExecutionPayloadHeaderRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRef");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRef");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRef");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRef");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRef");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRef");
    sym::check(x.block_number() == i.block_number, "block_numberRef");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRef");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRef");
    sym::check(x.timestamp() == i.timestamp, "timestampRef");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRef");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRef");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRef");
    sym::check(x.transactions_root() == i.transactions_root, "transactions_rootRef");
    sym::check(x.withdrawals_root() == Some(i.withdrawals_root), "withdrawals_rootRef");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_usedRef");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gasRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const capella::minimal::ExecutionPayloadHeader = &inner;
    let mut x: types::ExecutionPayloadHeaderRefMut<256, 32> = types::ExecutionPayloadHeaderRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRefMut");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRefMut");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mutRefMut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRefMut");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mutRefMut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRefMut");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mutRefMut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRefMut");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mutRefMut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRefMut");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mutRefMut");
    sym::check(x.block_number() == i.block_number, "block_numberRefMut");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mutRefMut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRefMut");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mutRefMut");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRefMut");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mutRefMut");
    sym::check(x.timestamp() == i.timestamp, "timestampRefMut");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mutRefMut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRefMut");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mutRefMut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRefMut");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mutRefMut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRefMut");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mutRefMut");
    sym::check(x.transactions_root() == i.transactions_root, "transactions_rootRefMut");
    sym::check(at(x.transactions_root_mut()) == at(&i.transactions_root), "transactions_root_mutRefMut");
    sym::check(x.withdrawals_root() == Some(i.withdrawals_root), "withdrawals_rootRefMut");
    sym::check(x.withdrawals_root_mut().map(|y| at(y)) == Some(at(&i.withdrawals_root)), "withdrawals_root_mutRefMut");
    sym::check(x.blob_gas_used().is_none(), "blob_gas_usedRefMut");
    sym::check(x.blob_gas_used_mut().is_none(), "blob_gas_used_mutRefMut");
    sym::check(x.excess_blob_gas().is_none(), "excess_blob_gasRefMut");
    sym::check(x.excess_blob_gas_mut().is_none(), "excess_blob_gas_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <capella::minimal::ExecutionPayloadHeader>::default();
    json(&t::ExecutionPayloadHeader::Capella(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_execution_payload_header_deneb() {
    let mut inner = <deneb::minimal::ExecutionPayloadHeader>::default();
    inner.block_number.fill(1);
    inner.gas_limit.fill(2);
    inner.gas_used.fill(3);
    inner.timestamp.fill(4);
    inner.transactions_root.fill(5);
    inner.withdrawals_root.fill(6);
    inner.blob_gas_used.fill(7);
    inner.excess_blob_gas.fill(8);
    {
    let mut x = t::ExecutionPayloadHeader::Deneb(inner.clone());
    let i: *const deneb::minimal::ExecutionPayloadHeader = if let t::ExecutionPayloadHeader::Deneb(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the fork");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().map(at) == Some(at(i)), "deneb");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hash");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipient");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_root");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_root");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloom");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randao");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mut");
    sym::check(x.block_number() == i.block_number, "block_number");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limit");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mut");
    sym::check(x.gas_used() == i.gas_used, "gas_used");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mut");
    sym::check(x.timestamp() == i.timestamp, "timestamp");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_data");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gas");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hash");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mut");
    sym::check(x.transactions_root() == i.transactions_root, "transactions_root");
    sym::check(at(x.transactions_root_mut()) == at(&i.transactions_root), "transactions_root_mut");
    sym::check(x.withdrawals_root() == Some(i.withdrawals_root), "withdrawals_root");
    sym::check(x.withdrawals_root_mut().map(|y| at(y)) == Some(at(&i.withdrawals_root)), "withdrawals_root_mut");
    sym::check(x.blob_gas_used() == Some(i.blob_gas_used), "blob_gas_used");
    sym::check(x.blob_gas_used_mut().map(|y| at(y)) == Some(at(&i.blob_gas_used)), "blob_gas_used_mut");
    sym::check(x.excess_blob_gas() == Some(i.excess_blob_gas), "excess_blob_gas");
    sym::check(x.excess_blob_gas_mut().map(|y| at(y)) == Some(at(&i.excess_blob_gas)), "excess_blob_gas_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const deneb::minimal::ExecutionPayloadHeader = &inner;
    let x: types::ExecutionPayloadHeaderRef<256, 32> = types::ExecutionPayloadHeaderRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRef");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRef");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRef");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRef");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRef");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRef");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRef");
    sym::check(x.block_number() == i.block_number, "block_numberRef");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRef");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRef");
    sym::check(x.timestamp() == i.timestamp, "timestampRef");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRef");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRef");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRef");
    sym::check(x.transactions_root() == i.transactions_root, "transactions_rootRef");
    sym::check(x.withdrawals_root() == Some(i.withdrawals_root), "withdrawals_rootRef");
    sym::check(x.blob_gas_used() == Some(i.blob_gas_used), "blob_gas_usedRef");
    sym::check(x.excess_blob_gas() == Some(i.excess_blob_gas), "excess_blob_gasRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const deneb::minimal::ExecutionPayloadHeader = &inner;
    let mut x: types::ExecutionPayloadHeaderRefMut<256, 32> = types::ExecutionPayloadHeaderRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRefMut");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mutRefMut");
    sym::check(at(x.parent_hash()) == at(&i.parent_hash), "parent_hashRefMut");
    sym::check(at(x.parent_hash_mut()) == at(&i.parent_hash), "parent_hash_mutRefMut");
    sym::check(at(x.fee_recipient()) == at(&i.fee_recipient), "fee_recipientRefMut");
    sym::check(at(x.fee_recipient_mut()) == at(&i.fee_recipient), "fee_recipient_mutRefMut");
    sym::check(at(x.state_root()) == at(&i.state_root), "state_rootRefMut");
    sym::check(at(x.state_root_mut()) == at(&i.state_root), "state_root_mutRefMut");
    sym::check(at(x.receipts_root()) == at(&i.receipts_root), "receipts_rootRefMut");
    sym::check(at(x.receipts_root_mut()) == at(&i.receipts_root), "receipts_root_mutRefMut");
    sym::check(at(x.logs_bloom()) == at(&i.logs_bloom), "logs_bloomRefMut");
    sym::check(at(x.logs_bloom_mut()) == at(&i.logs_bloom), "logs_bloom_mutRefMut");
    sym::check(at(x.prev_randao()) == at(&i.prev_randao), "prev_randaoRefMut");
    sym::check(at(x.prev_randao_mut()) == at(&i.prev_randao), "prev_randao_mutRefMut");
    sym::check(x.block_number() == i.block_number, "block_numberRefMut");
    sym::check(at(x.block_number_mut()) == at(&i.block_number), "block_number_mutRefMut");
    sym::check(x.gas_limit() == i.gas_limit, "gas_limitRefMut");
    sym::check(at(x.gas_limit_mut()) == at(&i.gas_limit), "gas_limit_mutRefMut");
    sym::check(x.gas_used() == i.gas_used, "gas_usedRefMut");
    sym::check(at(x.gas_used_mut()) == at(&i.gas_used), "gas_used_mutRefMut");
    sym::check(x.timestamp() == i.timestamp, "timestampRefMut");
    sym::check(at(x.timestamp_mut()) == at(&i.timestamp), "timestamp_mutRefMut");
    sym::check(at(x.extra_data()) == at(&i.extra_data), "extra_dataRefMut");
    sym::check(at(x.extra_data_mut()) == at(&i.extra_data), "extra_data_mutRefMut");
    sym::check(at(x.base_fee_per_gas()) == at(&i.base_fee_per_gas), "base_fee_per_gasRefMut");
    sym::check(at(x.base_fee_per_gas_mut()) == at(&i.base_fee_per_gas), "base_fee_per_gas_mutRefMut");
    sym::check(at(x.block_hash()) == at(&i.block_hash), "block_hashRefMut");
    sym::check(at(x.block_hash_mut()) == at(&i.block_hash), "block_hash_mutRefMut");
    sym::check(x.transactions_root() == i.transactions_root, "transactions_rootRefMut");
    sym::check(at(x.transactions_root_mut()) == at(&i.transactions_root), "transactions_root_mutRefMut");
    sym::check(x.withdrawals_root() == Some(i.withdrawals_root), "withdrawals_rootRefMut");
    sym::check(x.withdrawals_root_mut().map(|y| at(y)) == Some(at(&i.withdrawals_root)), "withdrawals_root_mutRefMut");
    sym::check(x.blob_gas_used() == Some(i.blob_gas_used), "blob_gas_usedRefMut");
    sym::check(x.blob_gas_used_mut().map(|y| at(y)) == Some(at(&i.blob_gas_used)), "blob_gas_used_mutRefMut");
    sym::check(x.excess_blob_gas() == Some(i.excess_blob_gas), "excess_blob_gasRefMut");
    sym::check(x.excess_blob_gas_mut().map(|y| at(y)) == Some(at(&i.excess_blob_gas)), "excess_blob_gas_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <deneb::minimal::ExecutionPayloadHeader>::default();
    json(&t::ExecutionPayloadHeader::Deneb(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_state_phase0() {
    let mut inner = <phase0::minimal::BeaconState>::default();
    inner.genesis_time.fill(1);
    inner.genesis_validators_root.fill(2);
    inner.slot.fill(3);
    inner.eth1_deposit_index.fill(4);
    {
    let mut x = t::BeaconState::Phase0(inner.clone());
    let i: *const phase0::minimal::BeaconState = if let t::BeaconState::Phase0(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Phase0), "the fork");
    sym::check(x.phase0().map(at) == Some(at(i)), "phase0");
    sym::check(x.phase0_mut().map(|y| at(y)) == Some(at(i)), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_time");
    sym::check(at(x.genesis_time_mut()) == at(&i.genesis_time), "genesis_time_mut");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_root");
    sym::check(at(x.genesis_validators_root_mut()) == at(&i.genesis_validators_root), "genesis_validators_root_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(at(x.fork()) == at(&i.fork), "fork");
    sym::check(at(x.fork_mut()) == at(&i.fork), "fork_mut");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_header");
    sym::check(at(x.latest_block_header_mut()) == at(&i.latest_block_header), "latest_block_header_mut");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_roots");
    sym::check(at(x.block_roots_mut()) == at(&i.block_roots), "block_roots_mut");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_roots");
    sym::check(at(x.state_roots_mut()) == at(&i.state_roots), "state_roots_mut");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_roots");
    sym::check(at(x.historical_roots_mut()) == at(&i.historical_roots), "historical_roots_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votes");
    sym::check(at(x.eth1_data_votes_mut()) == at(&i.eth1_data_votes), "eth1_data_votes_mut");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_index");
    sym::check(at(x.eth1_deposit_index_mut()) == at(&i.eth1_deposit_index), "eth1_deposit_index_mut");
    sym::check(at(x.validators()) == at(&i.validators), "validators");
    sym::check(at(x.validators_mut()) == at(&i.validators), "validators_mut");
    sym::check(at(x.balances()) == at(&i.balances), "balances");
    sym::check(at(x.balances_mut()) == at(&i.balances), "balances_mut");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixes");
    sym::check(at(x.randao_mixes_mut()) == at(&i.randao_mixes), "randao_mixes_mut");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashings");
    sym::check(at(x.slashings_mut()) == at(&i.slashings), "slashings_mut");
    sym::check(x.previous_epoch_attestations().map(at) == Some(at(&i.previous_epoch_attestations)), "previous_epoch_attestations");
    sym::check(x.previous_epoch_attestations_mut().map(|y| at(y)) == Some(at(&i.previous_epoch_attestations)), "previous_epoch_attestations_mut");
    sym::check(x.current_epoch_attestations().map(at) == Some(at(&i.current_epoch_attestations)), "current_epoch_attestations");
    sym::check(x.current_epoch_attestations_mut().map(|y| at(y)) == Some(at(&i.current_epoch_attestations)), "current_epoch_attestations_mut");
    sym::check(x.previous_epoch_participation().is_none(), "previous_epoch_participation");
    sym::check(x.previous_epoch_participation_mut().is_none(), "previous_epoch_participation_mut");
    sym::check(x.current_epoch_participation().is_none(), "current_epoch_participation");
    sym::check(x.current_epoch_participation_mut().is_none(), "current_epoch_participation_mut");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bits");
    sym::check(at(x.justification_bits_mut()) == at(&i.justification_bits), "justification_bits_mut");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint");
    sym::check(at(x.previous_justified_checkpoint_mut()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint_mut");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint");
    sym::check(at(x.current_justified_checkpoint_mut()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint_mut");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpoint");
    sym::check(at(x.finalized_checkpoint_mut()) == at(&i.finalized_checkpoint), "finalized_checkpoint_mut");
    sym::check(x.inactivity_scores().is_none(), "inactivity_scores");
    sym::check(x.inactivity_scores_mut().is_none(), "inactivity_scores_mut");
    sym::check(x.current_sync_committee().is_none(), "current_sync_committee");
    sym::check(x.current_sync_committee_mut().is_none(), "current_sync_committee_mut");
    sym::check(x.next_sync_committee().is_none(), "next_sync_committee");
    sym::check(x.next_sync_committee_mut().is_none(), "next_sync_committee_mut");
    sym::check(x.latest_execution_payload_header().is_none(), "latest_execution_payload_header");
    sym::check(x.latest_execution_payload_header_mut().is_none(), "latest_execution_payload_header_mut");
    sym::check(x.next_withdrawal_index().is_none(), "next_withdrawal_index");
    sym::check(x.next_withdrawal_index_mut().is_none(), "next_withdrawal_index_mut");
    sym::check(x.next_withdrawal_validator_index().is_none(), "next_withdrawal_validator_index");
    sym::check(x.next_withdrawal_validator_index_mut().is_none(), "next_withdrawal_validator_index_mut");
    sym::check(x.historical_summaries().is_none(), "historical_summaries");
    sym::check(x.historical_summaries_mut().is_none(), "historical_summaries_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const phase0::minimal::BeaconState = &inner;
    let x: types::BeaconStateRef<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32> = types::BeaconStateRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Phase0), "the forkRef");
    sym::check(x.phase0().map(at) == Some(at(i)), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_timeRef");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_rootRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(at(x.fork()) == at(&i.fork), "forkRef");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_headerRef");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_rootsRef");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_rootsRef");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_rootsRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votesRef");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_indexRef");
    sym::check(at(x.validators()) == at(&i.validators), "validatorsRef");
    sym::check(at(x.balances()) == at(&i.balances), "balancesRef");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixesRef");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashingsRef");
    sym::check(x.previous_epoch_attestations().map(at) == Some(at(&i.previous_epoch_attestations)), "previous_epoch_attestationsRef");
    sym::check(x.current_epoch_attestations().map(at) == Some(at(&i.current_epoch_attestations)), "current_epoch_attestationsRef");
    sym::check(x.previous_epoch_participation().is_none(), "previous_epoch_participationRef");
    sym::check(x.current_epoch_participation().is_none(), "current_epoch_participationRef");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bitsRef");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpointRef");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpointRef");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpointRef");
    sym::check(x.inactivity_scores().is_none(), "inactivity_scoresRef");
    sym::check(x.current_sync_committee().is_none(), "current_sync_committeeRef");
    sym::check(x.next_sync_committee().is_none(), "next_sync_committeeRef");
    sym::check(x.latest_execution_payload_header().is_none(), "latest_execution_payload_headerRef");
    sym::check(x.next_withdrawal_index().is_none(), "next_withdrawal_indexRef");
    sym::check(x.next_withdrawal_validator_index().is_none(), "next_withdrawal_validator_indexRef");
    sym::check(x.historical_summaries().is_none(), "historical_summariesRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const phase0::minimal::BeaconState = &inner;
    let mut x: types::BeaconStateRefMut<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32> = types::BeaconStateRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Phase0), "the forkRefMut");
    sym::check(x.phase0().map(at) == Some(at(i)), "phase0RefMut");
    sym::check(x.phase0_mut().map(|y| at(y)) == Some(at(i)), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_timeRefMut");
    sym::check(at(x.genesis_time_mut()) == at(&i.genesis_time), "genesis_time_mutRefMut");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_rootRefMut");
    sym::check(at(x.genesis_validators_root_mut()) == at(&i.genesis_validators_root), "genesis_validators_root_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(at(x.fork()) == at(&i.fork), "forkRefMut");
    sym::check(at(x.fork_mut()) == at(&i.fork), "fork_mutRefMut");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_headerRefMut");
    sym::check(at(x.latest_block_header_mut()) == at(&i.latest_block_header), "latest_block_header_mutRefMut");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_rootsRefMut");
    sym::check(at(x.block_roots_mut()) == at(&i.block_roots), "block_roots_mutRefMut");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_rootsRefMut");
    sym::check(at(x.state_roots_mut()) == at(&i.state_roots), "state_roots_mutRefMut");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_rootsRefMut");
    sym::check(at(x.historical_roots_mut()) == at(&i.historical_roots), "historical_roots_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votesRefMut");
    sym::check(at(x.eth1_data_votes_mut()) == at(&i.eth1_data_votes), "eth1_data_votes_mutRefMut");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_indexRefMut");
    sym::check(at(x.eth1_deposit_index_mut()) == at(&i.eth1_deposit_index), "eth1_deposit_index_mutRefMut");
    sym::check(at(x.validators()) == at(&i.validators), "validatorsRefMut");
    sym::check(at(x.validators_mut()) == at(&i.validators), "validators_mutRefMut");
    sym::check(at(x.balances()) == at(&i.balances), "balancesRefMut");
    sym::check(at(x.balances_mut()) == at(&i.balances), "balances_mutRefMut");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixesRefMut");
    sym::check(at(x.randao_mixes_mut()) == at(&i.randao_mixes), "randao_mixes_mutRefMut");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashingsRefMut");
    sym::check(at(x.slashings_mut()) == at(&i.slashings), "slashings_mutRefMut");
    sym::check(x.previous_epoch_attestations().map(at) == Some(at(&i.previous_epoch_attestations)), "previous_epoch_attestationsRefMut");
    sym::check(x.previous_epoch_attestations_mut().map(|y| at(y)) == Some(at(&i.previous_epoch_attestations)), "previous_epoch_attestations_mutRefMut");
    sym::check(x.current_epoch_attestations().map(at) == Some(at(&i.current_epoch_attestations)), "current_epoch_attestationsRefMut");
    sym::check(x.current_epoch_attestations_mut().map(|y| at(y)) == Some(at(&i.current_epoch_attestations)), "current_epoch_attestations_mutRefMut");
    sym::check(x.previous_epoch_participation().is_none(), "previous_epoch_participationRefMut");
    sym::check(x.previous_epoch_participation_mut().is_none(), "previous_epoch_participation_mutRefMut");
    sym::check(x.current_epoch_participation().is_none(), "current_epoch_participationRefMut");
    sym::check(x.current_epoch_participation_mut().is_none(), "current_epoch_participation_mutRefMut");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bitsRefMut");
    sym::check(at(x.justification_bits_mut()) == at(&i.justification_bits), "justification_bits_mutRefMut");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpointRefMut");
    sym::check(at(x.previous_justified_checkpoint_mut()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint_mutRefMut");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpointRefMut");
    sym::check(at(x.current_justified_checkpoint_mut()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint_mutRefMut");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpointRefMut");
    sym::check(at(x.finalized_checkpoint_mut()) == at(&i.finalized_checkpoint), "finalized_checkpoint_mutRefMut");
    sym::check(x.inactivity_scores().is_none(), "inactivity_scoresRefMut");
    sym::check(x.inactivity_scores_mut().is_none(), "inactivity_scores_mutRefMut");
    sym::check(x.current_sync_committee().is_none(), "current_sync_committeeRefMut");
    sym::check(x.current_sync_committee_mut().is_none(), "current_sync_committee_mutRefMut");
    sym::check(x.next_sync_committee().is_none(), "next_sync_committeeRefMut");
    sym::check(x.next_sync_committee_mut().is_none(), "next_sync_committee_mutRefMut");
    sym::check(x.latest_execution_payload_header().is_none(), "latest_execution_payload_headerRefMut");
    sym::check(x.latest_execution_payload_header_mut().is_none(), "latest_execution_payload_header_mutRefMut");
    sym::check(x.next_withdrawal_index().is_none(), "next_withdrawal_indexRefMut");
    sym::check(x.next_withdrawal_index_mut().is_none(), "next_withdrawal_index_mutRefMut");
    sym::check(x.next_withdrawal_validator_index().is_none(), "next_withdrawal_validator_indexRefMut");
    sym::check(x.next_withdrawal_validator_index_mut().is_none(), "next_withdrawal_validator_index_mutRefMut");
    sym::check(x.historical_summaries().is_none(), "historical_summariesRefMut");
    sym::check(x.historical_summaries_mut().is_none(), "historical_summaries_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <phase0::minimal::BeaconState>::default();
    json(&t::BeaconState::Phase0(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_state_altair() {
    let mut inner = <altair::minimal::BeaconState>::default();
    inner.genesis_time.fill(1);
    inner.genesis_validators_root.fill(2);
    inner.slot.fill(3);
    inner.eth1_deposit_index.fill(4);
    {
    let mut x = t::BeaconState::Altair(inner.clone());
    let i: *const altair::minimal::BeaconState = if let t::BeaconState::Altair(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Altair), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().map(at) == Some(at(i)), "altair");
    sym::check(x.altair_mut().map(|y| at(y)) == Some(at(i)), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_time");
    sym::check(at(x.genesis_time_mut()) == at(&i.genesis_time), "genesis_time_mut");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_root");
    sym::check(at(x.genesis_validators_root_mut()) == at(&i.genesis_validators_root), "genesis_validators_root_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(at(x.fork()) == at(&i.fork), "fork");
    sym::check(at(x.fork_mut()) == at(&i.fork), "fork_mut");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_header");
    sym::check(at(x.latest_block_header_mut()) == at(&i.latest_block_header), "latest_block_header_mut");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_roots");
    sym::check(at(x.block_roots_mut()) == at(&i.block_roots), "block_roots_mut");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_roots");
    sym::check(at(x.state_roots_mut()) == at(&i.state_roots), "state_roots_mut");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_roots");
    sym::check(at(x.historical_roots_mut()) == at(&i.historical_roots), "historical_roots_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votes");
    sym::check(at(x.eth1_data_votes_mut()) == at(&i.eth1_data_votes), "eth1_data_votes_mut");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_index");
    sym::check(at(x.eth1_deposit_index_mut()) == at(&i.eth1_deposit_index), "eth1_deposit_index_mut");
    sym::check(at(x.validators()) == at(&i.validators), "validators");
    sym::check(at(x.validators_mut()) == at(&i.validators), "validators_mut");
    sym::check(at(x.balances()) == at(&i.balances), "balances");
    sym::check(at(x.balances_mut()) == at(&i.balances), "balances_mut");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixes");
    sym::check(at(x.randao_mixes_mut()) == at(&i.randao_mixes), "randao_mixes_mut");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashings");
    sym::check(at(x.slashings_mut()) == at(&i.slashings), "slashings_mut");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestations");
    sym::check(x.previous_epoch_attestations_mut().is_none(), "previous_epoch_attestations_mut");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestations");
    sym::check(x.current_epoch_attestations_mut().is_none(), "current_epoch_attestations_mut");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation");
    sym::check(x.previous_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation_mut");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participation");
    sym::check(x.current_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.current_epoch_participation)), "current_epoch_participation_mut");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bits");
    sym::check(at(x.justification_bits_mut()) == at(&i.justification_bits), "justification_bits_mut");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint");
    sym::check(at(x.previous_justified_checkpoint_mut()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint_mut");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint");
    sym::check(at(x.current_justified_checkpoint_mut()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint_mut");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpoint");
    sym::check(at(x.finalized_checkpoint_mut()) == at(&i.finalized_checkpoint), "finalized_checkpoint_mut");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scores");
    sym::check(x.inactivity_scores_mut().map(|y| at(y)) == Some(at(&i.inactivity_scores)), "inactivity_scores_mut");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committee");
    sym::check(x.current_sync_committee_mut().map(|y| at(y)) == Some(at(&i.current_sync_committee)), "current_sync_committee_mut");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committee");
    sym::check(x.next_sync_committee_mut().map(|y| at(y)) == Some(at(&i.next_sync_committee)), "next_sync_committee_mut");
    sym::check(x.latest_execution_payload_header().is_none(), "latest_execution_payload_header");
    sym::check(x.latest_execution_payload_header_mut().is_none(), "latest_execution_payload_header_mut");
    sym::check(x.next_withdrawal_index().is_none(), "next_withdrawal_index");
    sym::check(x.next_withdrawal_index_mut().is_none(), "next_withdrawal_index_mut");
    sym::check(x.next_withdrawal_validator_index().is_none(), "next_withdrawal_validator_index");
    sym::check(x.next_withdrawal_validator_index_mut().is_none(), "next_withdrawal_validator_index_mut");
    sym::check(x.historical_summaries().is_none(), "historical_summaries");
    sym::check(x.historical_summaries_mut().is_none(), "historical_summaries_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const altair::minimal::BeaconState = &inner;
    let x: types::BeaconStateRef<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32> = types::BeaconStateRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Altair), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().map(at) == Some(at(i)), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_timeRef");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_rootRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(at(x.fork()) == at(&i.fork), "forkRef");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_headerRef");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_rootsRef");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_rootsRef");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_rootsRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votesRef");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_indexRef");
    sym::check(at(x.validators()) == at(&i.validators), "validatorsRef");
    sym::check(at(x.balances()) == at(&i.balances), "balancesRef");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixesRef");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashingsRef");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestationsRef");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestationsRef");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participationRef");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participationRef");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bitsRef");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpointRef");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpointRef");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpointRef");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scoresRef");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committeeRef");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committeeRef");
    sym::check(x.latest_execution_payload_header().is_none(), "latest_execution_payload_headerRef");
    sym::check(x.next_withdrawal_index().is_none(), "next_withdrawal_indexRef");
    sym::check(x.next_withdrawal_validator_index().is_none(), "next_withdrawal_validator_indexRef");
    sym::check(x.historical_summaries().is_none(), "historical_summariesRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const altair::minimal::BeaconState = &inner;
    let mut x: types::BeaconStateRefMut<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32> = types::BeaconStateRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Altair), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().map(at) == Some(at(i)), "altairRefMut");
    sym::check(x.altair_mut().map(|y| at(y)) == Some(at(i)), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_timeRefMut");
    sym::check(at(x.genesis_time_mut()) == at(&i.genesis_time), "genesis_time_mutRefMut");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_rootRefMut");
    sym::check(at(x.genesis_validators_root_mut()) == at(&i.genesis_validators_root), "genesis_validators_root_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(at(x.fork()) == at(&i.fork), "forkRefMut");
    sym::check(at(x.fork_mut()) == at(&i.fork), "fork_mutRefMut");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_headerRefMut");
    sym::check(at(x.latest_block_header_mut()) == at(&i.latest_block_header), "latest_block_header_mutRefMut");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_rootsRefMut");
    sym::check(at(x.block_roots_mut()) == at(&i.block_roots), "block_roots_mutRefMut");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_rootsRefMut");
    sym::check(at(x.state_roots_mut()) == at(&i.state_roots), "state_roots_mutRefMut");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_rootsRefMut");
    sym::check(at(x.historical_roots_mut()) == at(&i.historical_roots), "historical_roots_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votesRefMut");
    sym::check(at(x.eth1_data_votes_mut()) == at(&i.eth1_data_votes), "eth1_data_votes_mutRefMut");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_indexRefMut");
    sym::check(at(x.eth1_deposit_index_mut()) == at(&i.eth1_deposit_index), "eth1_deposit_index_mutRefMut");
    sym::check(at(x.validators()) == at(&i.validators), "validatorsRefMut");
    sym::check(at(x.validators_mut()) == at(&i.validators), "validators_mutRefMut");
    sym::check(at(x.balances()) == at(&i.balances), "balancesRefMut");
    sym::check(at(x.balances_mut()) == at(&i.balances), "balances_mutRefMut");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixesRefMut");
    sym::check(at(x.randao_mixes_mut()) == at(&i.randao_mixes), "randao_mixes_mutRefMut");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashingsRefMut");
    sym::check(at(x.slashings_mut()) == at(&i.slashings), "slashings_mutRefMut");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestationsRefMut");
    sym::check(x.previous_epoch_attestations_mut().is_none(), "previous_epoch_attestations_mutRefMut");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestationsRefMut");
    sym::check(x.current_epoch_attestations_mut().is_none(), "current_epoch_attestations_mutRefMut");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participationRefMut");
    sym::check(x.previous_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation_mutRefMut");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participationRefMut");
    sym::check(x.current_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.current_epoch_participation)), "current_epoch_participation_mutRefMut");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bitsRefMut");
    sym::check(at(x.justification_bits_mut()) == at(&i.justification_bits), "justification_bits_mutRefMut");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpointRefMut");
    sym::check(at(x.previous_justified_checkpoint_mut()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint_mutRefMut");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpointRefMut");
    sym::check(at(x.current_justified_checkpoint_mut()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint_mutRefMut");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpointRefMut");
    sym::check(at(x.finalized_checkpoint_mut()) == at(&i.finalized_checkpoint), "finalized_checkpoint_mutRefMut");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scoresRefMut");
    sym::check(x.inactivity_scores_mut().map(|y| at(y)) == Some(at(&i.inactivity_scores)), "inactivity_scores_mutRefMut");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committeeRefMut");
    sym::check(x.current_sync_committee_mut().map(|y| at(y)) == Some(at(&i.current_sync_committee)), "current_sync_committee_mutRefMut");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committeeRefMut");
    sym::check(x.next_sync_committee_mut().map(|y| at(y)) == Some(at(&i.next_sync_committee)), "next_sync_committee_mutRefMut");
    sym::check(x.latest_execution_payload_header().is_none(), "latest_execution_payload_headerRefMut");
    sym::check(x.latest_execution_payload_header_mut().is_none(), "latest_execution_payload_header_mutRefMut");
    sym::check(x.next_withdrawal_index().is_none(), "next_withdrawal_indexRefMut");
    sym::check(x.next_withdrawal_index_mut().is_none(), "next_withdrawal_index_mutRefMut");
    sym::check(x.next_withdrawal_validator_index().is_none(), "next_withdrawal_validator_indexRefMut");
    sym::check(x.next_withdrawal_validator_index_mut().is_none(), "next_withdrawal_validator_index_mutRefMut");
    sym::check(x.historical_summaries().is_none(), "historical_summariesRefMut");
    sym::check(x.historical_summaries_mut().is_none(), "historical_summaries_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <altair::minimal::BeaconState>::default();
    json(&t::BeaconState::Altair(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_state_bellatrix() {
    let mut inner = <bellatrix::minimal::BeaconState>::default();
    inner.genesis_time.fill(1);
    inner.genesis_validators_root.fill(2);
    inner.slot.fill(3);
    inner.eth1_deposit_index.fill(4);
    {
    let mut x = t::BeaconState::Bellatrix(inner.clone());
    let i: *const bellatrix::minimal::BeaconState = if let t::BeaconState::Bellatrix(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrix");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_time");
    sym::check(at(x.genesis_time_mut()) == at(&i.genesis_time), "genesis_time_mut");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_root");
    sym::check(at(x.genesis_validators_root_mut()) == at(&i.genesis_validators_root), "genesis_validators_root_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(at(x.fork()) == at(&i.fork), "fork");
    sym::check(at(x.fork_mut()) == at(&i.fork), "fork_mut");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_header");
    sym::check(at(x.latest_block_header_mut()) == at(&i.latest_block_header), "latest_block_header_mut");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_roots");
    sym::check(at(x.block_roots_mut()) == at(&i.block_roots), "block_roots_mut");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_roots");
    sym::check(at(x.state_roots_mut()) == at(&i.state_roots), "state_roots_mut");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_roots");
    sym::check(at(x.historical_roots_mut()) == at(&i.historical_roots), "historical_roots_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votes");
    sym::check(at(x.eth1_data_votes_mut()) == at(&i.eth1_data_votes), "eth1_data_votes_mut");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_index");
    sym::check(at(x.eth1_deposit_index_mut()) == at(&i.eth1_deposit_index), "eth1_deposit_index_mut");
    sym::check(at(x.validators()) == at(&i.validators), "validators");
    sym::check(at(x.validators_mut()) == at(&i.validators), "validators_mut");
    sym::check(at(x.balances()) == at(&i.balances), "balances");
    sym::check(at(x.balances_mut()) == at(&i.balances), "balances_mut");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixes");
    sym::check(at(x.randao_mixes_mut()) == at(&i.randao_mixes), "randao_mixes_mut");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashings");
    sym::check(at(x.slashings_mut()) == at(&i.slashings), "slashings_mut");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestations");
    sym::check(x.previous_epoch_attestations_mut().is_none(), "previous_epoch_attestations_mut");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestations");
    sym::check(x.current_epoch_attestations_mut().is_none(), "current_epoch_attestations_mut");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation");
    sym::check(x.previous_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation_mut");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participation");
    sym::check(x.current_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.current_epoch_participation)), "current_epoch_participation_mut");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bits");
    sym::check(at(x.justification_bits_mut()) == at(&i.justification_bits), "justification_bits_mut");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint");
    sym::check(at(x.previous_justified_checkpoint_mut()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint_mut");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint");
    sym::check(at(x.current_justified_checkpoint_mut()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint_mut");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpoint");
    sym::check(at(x.finalized_checkpoint_mut()) == at(&i.finalized_checkpoint), "finalized_checkpoint_mut");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scores");
    sym::check(x.inactivity_scores_mut().map(|y| at(y)) == Some(at(&i.inactivity_scores)), "inactivity_scores_mut");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committee");
    sym::check(x.current_sync_committee_mut().map(|y| at(y)) == Some(at(&i.current_sync_committee)), "current_sync_committee_mut");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committee");
    sym::check(x.next_sync_committee_mut().map(|y| at(y)) == Some(at(&i.next_sync_committee)), "next_sync_committee_mut");
    sym::check(match x.latest_execution_payload_header() { Some(types::ExecutionPayloadHeaderRef::Bellatrix(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_header");
    sym::check(match x.latest_execution_payload_header_mut() { Some(types::ExecutionPayloadHeaderRefMut::Bellatrix(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_header_mut");
    sym::check(x.next_withdrawal_index().is_none(), "next_withdrawal_index");
    sym::check(x.next_withdrawal_index_mut().is_none(), "next_withdrawal_index_mut");
    sym::check(x.next_withdrawal_validator_index().is_none(), "next_withdrawal_validator_index");
    sym::check(x.next_withdrawal_validator_index_mut().is_none(), "next_withdrawal_validator_index_mut");
    sym::check(x.historical_summaries().is_none(), "historical_summaries");
    sym::check(x.historical_summaries_mut().is_none(), "historical_summaries_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const bellatrix::minimal::BeaconState = &inner;
    let x: types::BeaconStateRef<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32> = types::BeaconStateRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_timeRef");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_rootRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(at(x.fork()) == at(&i.fork), "forkRef");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_headerRef");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_rootsRef");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_rootsRef");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_rootsRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votesRef");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_indexRef");
    sym::check(at(x.validators()) == at(&i.validators), "validatorsRef");
    sym::check(at(x.balances()) == at(&i.balances), "balancesRef");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixesRef");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashingsRef");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestationsRef");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestationsRef");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participationRef");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participationRef");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bitsRef");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpointRef");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpointRef");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpointRef");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scoresRef");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committeeRef");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committeeRef");
    sym::check(match x.latest_execution_payload_header() { Some(types::ExecutionPayloadHeaderRef::Bellatrix(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_headerRef");
    sym::check(x.next_withdrawal_index().is_none(), "next_withdrawal_indexRef");
    sym::check(x.next_withdrawal_validator_index().is_none(), "next_withdrawal_validator_indexRef");
    sym::check(x.historical_summaries().is_none(), "historical_summariesRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const bellatrix::minimal::BeaconState = &inner;
    let mut x: types::BeaconStateRefMut<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32> = types::BeaconStateRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Bellatrix), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().map(at) == Some(at(i)), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().map(|y| at(y)) == Some(at(i)), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_timeRefMut");
    sym::check(at(x.genesis_time_mut()) == at(&i.genesis_time), "genesis_time_mutRefMut");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_rootRefMut");
    sym::check(at(x.genesis_validators_root_mut()) == at(&i.genesis_validators_root), "genesis_validators_root_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(at(x.fork()) == at(&i.fork), "forkRefMut");
    sym::check(at(x.fork_mut()) == at(&i.fork), "fork_mutRefMut");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_headerRefMut");
    sym::check(at(x.latest_block_header_mut()) == at(&i.latest_block_header), "latest_block_header_mutRefMut");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_rootsRefMut");
    sym::check(at(x.block_roots_mut()) == at(&i.block_roots), "block_roots_mutRefMut");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_rootsRefMut");
    sym::check(at(x.state_roots_mut()) == at(&i.state_roots), "state_roots_mutRefMut");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_rootsRefMut");
    sym::check(at(x.historical_roots_mut()) == at(&i.historical_roots), "historical_roots_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votesRefMut");
    sym::check(at(x.eth1_data_votes_mut()) == at(&i.eth1_data_votes), "eth1_data_votes_mutRefMut");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_indexRefMut");
    sym::check(at(x.eth1_deposit_index_mut()) == at(&i.eth1_deposit_index), "eth1_deposit_index_mutRefMut");
    sym::check(at(x.validators()) == at(&i.validators), "validatorsRefMut");
    sym::check(at(x.validators_mut()) == at(&i.validators), "validators_mutRefMut");
    sym::check(at(x.balances()) == at(&i.balances), "balancesRefMut");
    sym::check(at(x.balances_mut()) == at(&i.balances), "balances_mutRefMut");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixesRefMut");
    sym::check(at(x.randao_mixes_mut()) == at(&i.randao_mixes), "randao_mixes_mutRefMut");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashingsRefMut");
    sym::check(at(x.slashings_mut()) == at(&i.slashings), "slashings_mutRefMut");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestationsRefMut");
    sym::check(x.previous_epoch_attestations_mut().is_none(), "previous_epoch_attestations_mutRefMut");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestationsRefMut");
    sym::check(x.current_epoch_attestations_mut().is_none(), "current_epoch_attestations_mutRefMut");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participationRefMut");
    sym::check(x.previous_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation_mutRefMut");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participationRefMut");
    sym::check(x.current_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.current_epoch_participation)), "current_epoch_participation_mutRefMut");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bitsRefMut");
    sym::check(at(x.justification_bits_mut()) == at(&i.justification_bits), "justification_bits_mutRefMut");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpointRefMut");
    sym::check(at(x.previous_justified_checkpoint_mut()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint_mutRefMut");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpointRefMut");
    sym::check(at(x.current_justified_checkpoint_mut()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint_mutRefMut");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpointRefMut");
    sym::check(at(x.finalized_checkpoint_mut()) == at(&i.finalized_checkpoint), "finalized_checkpoint_mutRefMut");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scoresRefMut");
    sym::check(x.inactivity_scores_mut().map(|y| at(y)) == Some(at(&i.inactivity_scores)), "inactivity_scores_mutRefMut");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committeeRefMut");
    sym::check(x.current_sync_committee_mut().map(|y| at(y)) == Some(at(&i.current_sync_committee)), "current_sync_committee_mutRefMut");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committeeRefMut");
    sym::check(x.next_sync_committee_mut().map(|y| at(y)) == Some(at(&i.next_sync_committee)), "next_sync_committee_mutRefMut");
    sym::check(match x.latest_execution_payload_header() { Some(types::ExecutionPayloadHeaderRef::Bellatrix(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_headerRefMut");
    sym::check(match x.latest_execution_payload_header_mut() { Some(types::ExecutionPayloadHeaderRefMut::Bellatrix(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_header_mutRefMut");
    sym::check(x.next_withdrawal_index().is_none(), "next_withdrawal_indexRefMut");
    sym::check(x.next_withdrawal_index_mut().is_none(), "next_withdrawal_index_mutRefMut");
    sym::check(x.next_withdrawal_validator_index().is_none(), "next_withdrawal_validator_indexRefMut");
    sym::check(x.next_withdrawal_validator_index_mut().is_none(), "next_withdrawal_validator_index_mutRefMut");
    sym::check(x.historical_summaries().is_none(), "historical_summariesRefMut");
    sym::check(x.historical_summaries_mut().is_none(), "historical_summaries_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <bellatrix::minimal::BeaconState>::default();
    json(&t::BeaconState::Bellatrix(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_state_capella() {
    let mut inner = <capella::minimal::BeaconState>::default();
    inner.genesis_time.fill(1);
    inner.genesis_validators_root.fill(2);
    inner.slot.fill(3);
    inner.eth1_deposit_index.fill(4);
    inner.next_withdrawal_index.fill(5);
    inner.next_withdrawal_validator_index.fill(6);
    {
    let mut x = t::BeaconState::Capella(inner.clone());
    let i: *const capella::minimal::BeaconState = if let t::BeaconState::Capella(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().map(at) == Some(at(i)), "capella");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mut");
    sym::check(x.deneb().is_none(), "deneb");
    sym::check(x.deneb_mut().is_none(), "deneb_mut");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_time");
    sym::check(at(x.genesis_time_mut()) == at(&i.genesis_time), "genesis_time_mut");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_root");
    sym::check(at(x.genesis_validators_root_mut()) == at(&i.genesis_validators_root), "genesis_validators_root_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(at(x.fork()) == at(&i.fork), "fork");
    sym::check(at(x.fork_mut()) == at(&i.fork), "fork_mut");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_header");
    sym::check(at(x.latest_block_header_mut()) == at(&i.latest_block_header), "latest_block_header_mut");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_roots");
    sym::check(at(x.block_roots_mut()) == at(&i.block_roots), "block_roots_mut");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_roots");
    sym::check(at(x.state_roots_mut()) == at(&i.state_roots), "state_roots_mut");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_roots");
    sym::check(at(x.historical_roots_mut()) == at(&i.historical_roots), "historical_roots_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votes");
    sym::check(at(x.eth1_data_votes_mut()) == at(&i.eth1_data_votes), "eth1_data_votes_mut");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_index");
    sym::check(at(x.eth1_deposit_index_mut()) == at(&i.eth1_deposit_index), "eth1_deposit_index_mut");
    sym::check(at(x.validators()) == at(&i.validators), "validators");
    sym::check(at(x.validators_mut()) == at(&i.validators), "validators_mut");
    sym::check(at(x.balances()) == at(&i.balances), "balances");
    sym::check(at(x.balances_mut()) == at(&i.balances), "balances_mut");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixes");
    sym::check(at(x.randao_mixes_mut()) == at(&i.randao_mixes), "randao_mixes_mut");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashings");
    sym::check(at(x.slashings_mut()) == at(&i.slashings), "slashings_mut");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestations");
    sym::check(x.previous_epoch_attestations_mut().is_none(), "previous_epoch_attestations_mut");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestations");
    sym::check(x.current_epoch_attestations_mut().is_none(), "current_epoch_attestations_mut");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation");
    sym::check(x.previous_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation_mut");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participation");
    sym::check(x.current_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.current_epoch_participation)), "current_epoch_participation_mut");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bits");
    sym::check(at(x.justification_bits_mut()) == at(&i.justification_bits), "justification_bits_mut");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint");
    sym::check(at(x.previous_justified_checkpoint_mut()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint_mut");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint");
    sym::check(at(x.current_justified_checkpoint_mut()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint_mut");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpoint");
    sym::check(at(x.finalized_checkpoint_mut()) == at(&i.finalized_checkpoint), "finalized_checkpoint_mut");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scores");
    sym::check(x.inactivity_scores_mut().map(|y| at(y)) == Some(at(&i.inactivity_scores)), "inactivity_scores_mut");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committee");
    sym::check(x.current_sync_committee_mut().map(|y| at(y)) == Some(at(&i.current_sync_committee)), "current_sync_committee_mut");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committee");
    sym::check(x.next_sync_committee_mut().map(|y| at(y)) == Some(at(&i.next_sync_committee)), "next_sync_committee_mut");
    sym::check(match x.latest_execution_payload_header() { Some(types::ExecutionPayloadHeaderRef::Capella(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_header");
    sym::check(match x.latest_execution_payload_header_mut() { Some(types::ExecutionPayloadHeaderRefMut::Capella(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_header_mut");
    sym::check(x.next_withdrawal_index() == Some(i.next_withdrawal_index), "next_withdrawal_index");
    sym::check(x.next_withdrawal_index_mut().map(|y| at(y)) == Some(at(&i.next_withdrawal_index)), "next_withdrawal_index_mut");
    sym::check(x.next_withdrawal_validator_index() == Some(i.next_withdrawal_validator_index), "next_withdrawal_validator_index");
    sym::check(x.next_withdrawal_validator_index_mut().map(|y| at(y)) == Some(at(&i.next_withdrawal_validator_index)), "next_withdrawal_validator_index_mut");
    sym::check(x.historical_summaries().map(at) == Some(at(&i.historical_summaries)), "historical_summaries");
    sym::check(x.historical_summaries_mut().map(|y| at(y)) == Some(at(&i.historical_summaries)), "historical_summaries_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const capella::minimal::BeaconState = &inner;
    let x: types::BeaconStateRef<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32> = types::BeaconStateRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRef");
    sym::check(x.deneb().is_none(), "denebRef");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_timeRef");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_rootRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(at(x.fork()) == at(&i.fork), "forkRef");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_headerRef");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_rootsRef");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_rootsRef");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_rootsRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votesRef");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_indexRef");
    sym::check(at(x.validators()) == at(&i.validators), "validatorsRef");
    sym::check(at(x.balances()) == at(&i.balances), "balancesRef");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixesRef");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashingsRef");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestationsRef");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestationsRef");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participationRef");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participationRef");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bitsRef");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpointRef");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpointRef");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpointRef");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scoresRef");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committeeRef");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committeeRef");
    sym::check(match x.latest_execution_payload_header() { Some(types::ExecutionPayloadHeaderRef::Capella(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_headerRef");
    sym::check(x.next_withdrawal_index() == Some(i.next_withdrawal_index), "next_withdrawal_indexRef");
    sym::check(x.next_withdrawal_validator_index() == Some(i.next_withdrawal_validator_index), "next_withdrawal_validator_indexRef");
    sym::check(x.historical_summaries().map(at) == Some(at(&i.historical_summaries)), "historical_summariesRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const capella::minimal::BeaconState = &inner;
    let mut x: types::BeaconStateRefMut<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32> = types::BeaconStateRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Capella), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().map(at) == Some(at(i)), "capellaRefMut");
    sym::check(x.capella_mut().map(|y| at(y)) == Some(at(i)), "capella_mutRefMut");
    sym::check(x.deneb().is_none(), "denebRefMut");
    sym::check(x.deneb_mut().is_none(), "deneb_mutRefMut");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_timeRefMut");
    sym::check(at(x.genesis_time_mut()) == at(&i.genesis_time), "genesis_time_mutRefMut");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_rootRefMut");
    sym::check(at(x.genesis_validators_root_mut()) == at(&i.genesis_validators_root), "genesis_validators_root_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(at(x.fork()) == at(&i.fork), "forkRefMut");
    sym::check(at(x.fork_mut()) == at(&i.fork), "fork_mutRefMut");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_headerRefMut");
    sym::check(at(x.latest_block_header_mut()) == at(&i.latest_block_header), "latest_block_header_mutRefMut");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_rootsRefMut");
    sym::check(at(x.block_roots_mut()) == at(&i.block_roots), "block_roots_mutRefMut");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_rootsRefMut");
    sym::check(at(x.state_roots_mut()) == at(&i.state_roots), "state_roots_mutRefMut");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_rootsRefMut");
    sym::check(at(x.historical_roots_mut()) == at(&i.historical_roots), "historical_roots_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votesRefMut");
    sym::check(at(x.eth1_data_votes_mut()) == at(&i.eth1_data_votes), "eth1_data_votes_mutRefMut");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_indexRefMut");
    sym::check(at(x.eth1_deposit_index_mut()) == at(&i.eth1_deposit_index), "eth1_deposit_index_mutRefMut");
    sym::check(at(x.validators()) == at(&i.validators), "validatorsRefMut");
    sym::check(at(x.validators_mut()) == at(&i.validators), "validators_mutRefMut");
    sym::check(at(x.balances()) == at(&i.balances), "balancesRefMut");
    sym::check(at(x.balances_mut()) == at(&i.balances), "balances_mutRefMut");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixesRefMut");
    sym::check(at(x.randao_mixes_mut()) == at(&i.randao_mixes), "randao_mixes_mutRefMut");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashingsRefMut");
    sym::check(at(x.slashings_mut()) == at(&i.slashings), "slashings_mutRefMut");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestationsRefMut");
    sym::check(x.previous_epoch_attestations_mut().is_none(), "previous_epoch_attestations_mutRefMut");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestationsRefMut");
    sym::check(x.current_epoch_attestations_mut().is_none(), "current_epoch_attestations_mutRefMut");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participationRefMut");
    sym::check(x.previous_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation_mutRefMut");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participationRefMut");
    sym::check(x.current_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.current_epoch_participation)), "current_epoch_participation_mutRefMut");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bitsRefMut");
    sym::check(at(x.justification_bits_mut()) == at(&i.justification_bits), "justification_bits_mutRefMut");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpointRefMut");
    sym::check(at(x.previous_justified_checkpoint_mut()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint_mutRefMut");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpointRefMut");
    sym::check(at(x.current_justified_checkpoint_mut()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint_mutRefMut");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpointRefMut");
    sym::check(at(x.finalized_checkpoint_mut()) == at(&i.finalized_checkpoint), "finalized_checkpoint_mutRefMut");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scoresRefMut");
    sym::check(x.inactivity_scores_mut().map(|y| at(y)) == Some(at(&i.inactivity_scores)), "inactivity_scores_mutRefMut");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committeeRefMut");
    sym::check(x.current_sync_committee_mut().map(|y| at(y)) == Some(at(&i.current_sync_committee)), "current_sync_committee_mutRefMut");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committeeRefMut");
    sym::check(x.next_sync_committee_mut().map(|y| at(y)) == Some(at(&i.next_sync_committee)), "next_sync_committee_mutRefMut");
    sym::check(match x.latest_execution_payload_header() { Some(types::ExecutionPayloadHeaderRef::Capella(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_headerRefMut");
    sym::check(match x.latest_execution_payload_header_mut() { Some(types::ExecutionPayloadHeaderRefMut::Capella(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_header_mutRefMut");
    sym::check(x.next_withdrawal_index() == Some(i.next_withdrawal_index), "next_withdrawal_indexRefMut");
    sym::check(x.next_withdrawal_index_mut().map(|y| at(y)) == Some(at(&i.next_withdrawal_index)), "next_withdrawal_index_mutRefMut");
    sym::check(x.next_withdrawal_validator_index() == Some(i.next_withdrawal_validator_index), "next_withdrawal_validator_indexRefMut");
    sym::check(x.next_withdrawal_validator_index_mut().map(|y| at(y)) == Some(at(&i.next_withdrawal_validator_index)), "next_withdrawal_validator_index_mutRefMut");
    sym::check(x.historical_summaries().map(at) == Some(at(&i.historical_summaries)), "historical_summariesRefMut");
    sym::check(x.historical_summaries_mut().map(|y| at(y)) == Some(at(&i.historical_summaries)), "historical_summaries_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <capella::minimal::BeaconState>::default();
    json(&t::BeaconState::Capella(z.clone()), &z);
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_beacon_state_deneb() {
    let mut inner = <deneb::minimal::BeaconState>::default();
    inner.genesis_time.fill(1);
    inner.genesis_validators_root.fill(2);
    inner.slot.fill(3);
    inner.eth1_deposit_index.fill(4);
    inner.next_withdrawal_index.fill(5);
    inner.next_withdrawal_validator_index.fill(6);
    {
    let mut x = t::BeaconState::Deneb(inner.clone());
    let i: *const deneb::minimal::BeaconState = if let t::BeaconState::Deneb(i) = &x { i } else { return };
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the fork");
    sym::check(x.phase0().is_none(), "phase0");
    sym::check(x.phase0_mut().is_none(), "phase0_mut");
    sym::check(x.altair().is_none(), "altair");
    sym::check(x.altair_mut().is_none(), "altair_mut");
    sym::check(x.bellatrix().is_none(), "bellatrix");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mut");
    sym::check(x.capella().is_none(), "capella");
    sym::check(x.capella_mut().is_none(), "capella_mut");
    sym::check(x.deneb().map(at) == Some(at(i)), "deneb");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mut");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_time");
    sym::check(at(x.genesis_time_mut()) == at(&i.genesis_time), "genesis_time_mut");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_root");
    sym::check(at(x.genesis_validators_root_mut()) == at(&i.genesis_validators_root), "genesis_validators_root_mut");
    sym::check(x.slot() == i.slot, "slot");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mut");
    sym::check(at(x.fork()) == at(&i.fork), "fork");
    sym::check(at(x.fork_mut()) == at(&i.fork), "fork_mut");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_header");
    sym::check(at(x.latest_block_header_mut()) == at(&i.latest_block_header), "latest_block_header_mut");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_roots");
    sym::check(at(x.block_roots_mut()) == at(&i.block_roots), "block_roots_mut");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_roots");
    sym::check(at(x.state_roots_mut()) == at(&i.state_roots), "state_roots_mut");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_roots");
    sym::check(at(x.historical_roots_mut()) == at(&i.historical_roots), "historical_roots_mut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_data");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mut");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votes");
    sym::check(at(x.eth1_data_votes_mut()) == at(&i.eth1_data_votes), "eth1_data_votes_mut");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_index");
    sym::check(at(x.eth1_deposit_index_mut()) == at(&i.eth1_deposit_index), "eth1_deposit_index_mut");
    sym::check(at(x.validators()) == at(&i.validators), "validators");
    sym::check(at(x.validators_mut()) == at(&i.validators), "validators_mut");
    sym::check(at(x.balances()) == at(&i.balances), "balances");
    sym::check(at(x.balances_mut()) == at(&i.balances), "balances_mut");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixes");
    sym::check(at(x.randao_mixes_mut()) == at(&i.randao_mixes), "randao_mixes_mut");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashings");
    sym::check(at(x.slashings_mut()) == at(&i.slashings), "slashings_mut");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestations");
    sym::check(x.previous_epoch_attestations_mut().is_none(), "previous_epoch_attestations_mut");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestations");
    sym::check(x.current_epoch_attestations_mut().is_none(), "current_epoch_attestations_mut");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation");
    sym::check(x.previous_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation_mut");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participation");
    sym::check(x.current_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.current_epoch_participation)), "current_epoch_participation_mut");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bits");
    sym::check(at(x.justification_bits_mut()) == at(&i.justification_bits), "justification_bits_mut");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint");
    sym::check(at(x.previous_justified_checkpoint_mut()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint_mut");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint");
    sym::check(at(x.current_justified_checkpoint_mut()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint_mut");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpoint");
    sym::check(at(x.finalized_checkpoint_mut()) == at(&i.finalized_checkpoint), "finalized_checkpoint_mut");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scores");
    sym::check(x.inactivity_scores_mut().map(|y| at(y)) == Some(at(&i.inactivity_scores)), "inactivity_scores_mut");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committee");
    sym::check(x.current_sync_committee_mut().map(|y| at(y)) == Some(at(&i.current_sync_committee)), "current_sync_committee_mut");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committee");
    sym::check(x.next_sync_committee_mut().map(|y| at(y)) == Some(at(&i.next_sync_committee)), "next_sync_committee_mut");
    sym::check(match x.latest_execution_payload_header() { Some(types::ExecutionPayloadHeaderRef::Deneb(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_header");
    sym::check(match x.latest_execution_payload_header_mut() { Some(types::ExecutionPayloadHeaderRefMut::Deneb(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_header_mut");
    sym::check(x.next_withdrawal_index() == Some(i.next_withdrawal_index), "next_withdrawal_index");
    sym::check(x.next_withdrawal_index_mut().map(|y| at(y)) == Some(at(&i.next_withdrawal_index)), "next_withdrawal_index_mut");
    sym::check(x.next_withdrawal_validator_index() == Some(i.next_withdrawal_validator_index), "next_withdrawal_validator_index");
    sym::check(x.next_withdrawal_validator_index_mut().map(|y| at(y)) == Some(at(&i.next_withdrawal_validator_index)), "next_withdrawal_validator_index_mut");
    sym::check(x.historical_summaries().map(at) == Some(at(&i.historical_summaries)), "historical_summaries");
    sym::check(x.historical_summaries_mut().map(|y| at(y)) == Some(at(&i.historical_summaries)), "historical_summaries_mut");
    root(&mut x, &mut inner);
    }
    {
    let i: *const deneb::minimal::BeaconState = &inner;
    let x: types::BeaconStateRef<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32> = types::BeaconStateRef::from(&inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRef");
    sym::check(x.phase0().is_none(), "phase0Ref");
    sym::check(x.altair().is_none(), "altairRef");
    sym::check(x.bellatrix().is_none(), "bellatrixRef");
    sym::check(x.capella().is_none(), "capellaRef");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRef");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_timeRef");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_rootRef");
    sym::check(x.slot() == i.slot, "slotRef");
    sym::check(at(x.fork()) == at(&i.fork), "forkRef");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_headerRef");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_rootsRef");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_rootsRef");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_rootsRef");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRef");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votesRef");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_indexRef");
    sym::check(at(x.validators()) == at(&i.validators), "validatorsRef");
    sym::check(at(x.balances()) == at(&i.balances), "balancesRef");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixesRef");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashingsRef");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestationsRef");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestationsRef");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participationRef");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participationRef");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bitsRef");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpointRef");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpointRef");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpointRef");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scoresRef");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committeeRef");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committeeRef");
    sym::check(match x.latest_execution_payload_header() { Some(types::ExecutionPayloadHeaderRef::Deneb(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_headerRef");
    sym::check(x.next_withdrawal_index() == Some(i.next_withdrawal_index), "next_withdrawal_indexRef");
    sym::check(x.next_withdrawal_validator_index() == Some(i.next_withdrawal_validator_index), "next_withdrawal_validator_indexRef");
    sym::check(x.historical_summaries().map(at) == Some(at(&i.historical_summaries)), "historical_summariesRef");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    {
    let i: *const deneb::minimal::BeaconState = &inner;
    let mut x: types::BeaconStateRefMut<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32> = types::BeaconStateRefMut::from(&mut inner);
    let i = unsafe { &*i };
    sym::check(matches!(x.version(), Fork::Deneb), "the forkRefMut");
    sym::check(x.phase0().is_none(), "phase0RefMut");
    sym::check(x.phase0_mut().is_none(), "phase0_mutRefMut");
    sym::check(x.altair().is_none(), "altairRefMut");
    sym::check(x.altair_mut().is_none(), "altair_mutRefMut");
    sym::check(x.bellatrix().is_none(), "bellatrixRefMut");
    sym::check(x.bellatrix_mut().is_none(), "bellatrix_mutRefMut");
    sym::check(x.capella().is_none(), "capellaRefMut");
    sym::check(x.capella_mut().is_none(), "capella_mutRefMut");
    sym::check(x.deneb().map(at) == Some(at(i)), "denebRefMut");
    sym::check(x.deneb_mut().map(|y| at(y)) == Some(at(i)), "deneb_mutRefMut");
    sym::check(x.genesis_time() == i.genesis_time, "genesis_timeRefMut");
    sym::check(at(x.genesis_time_mut()) == at(&i.genesis_time), "genesis_time_mutRefMut");
    sym::check(x.genesis_validators_root() == i.genesis_validators_root, "genesis_validators_rootRefMut");
    sym::check(at(x.genesis_validators_root_mut()) == at(&i.genesis_validators_root), "genesis_validators_root_mutRefMut");
    sym::check(x.slot() == i.slot, "slotRefMut");
    sym::check(at(x.slot_mut()) == at(&i.slot), "slot_mutRefMut");
    sym::check(at(x.fork()) == at(&i.fork), "forkRefMut");
    sym::check(at(x.fork_mut()) == at(&i.fork), "fork_mutRefMut");
    sym::check(at(x.latest_block_header()) == at(&i.latest_block_header), "latest_block_headerRefMut");
    sym::check(at(x.latest_block_header_mut()) == at(&i.latest_block_header), "latest_block_header_mutRefMut");
    sym::check(at(x.block_roots()) == at(&i.block_roots), "block_rootsRefMut");
    sym::check(at(x.block_roots_mut()) == at(&i.block_roots), "block_roots_mutRefMut");
    sym::check(at(x.state_roots()) == at(&i.state_roots), "state_rootsRefMut");
    sym::check(at(x.state_roots_mut()) == at(&i.state_roots), "state_roots_mutRefMut");
    sym::check(at(x.historical_roots()) == at(&i.historical_roots), "historical_rootsRefMut");
    sym::check(at(x.historical_roots_mut()) == at(&i.historical_roots), "historical_roots_mutRefMut");
    sym::check(at(x.eth1_data()) == at(&i.eth1_data), "eth1_dataRefMut");
    sym::check(at(x.eth1_data_mut()) == at(&i.eth1_data), "eth1_data_mutRefMut");
    sym::check(at(x.eth1_data_votes()) == at(&i.eth1_data_votes), "eth1_data_votesRefMut");
    sym::check(at(x.eth1_data_votes_mut()) == at(&i.eth1_data_votes), "eth1_data_votes_mutRefMut");
    sym::check(x.eth1_deposit_index() == i.eth1_deposit_index, "eth1_deposit_indexRefMut");
    sym::check(at(x.eth1_deposit_index_mut()) == at(&i.eth1_deposit_index), "eth1_deposit_index_mutRefMut");
    sym::check(at(x.validators()) == at(&i.validators), "validatorsRefMut");
    sym::check(at(x.validators_mut()) == at(&i.validators), "validators_mutRefMut");
    sym::check(at(x.balances()) == at(&i.balances), "balancesRefMut");
    sym::check(at(x.balances_mut()) == at(&i.balances), "balances_mutRefMut");
    sym::check(at(x.randao_mixes()) == at(&i.randao_mixes), "randao_mixesRefMut");
    sym::check(at(x.randao_mixes_mut()) == at(&i.randao_mixes), "randao_mixes_mutRefMut");
    sym::check(at(x.slashings()) == at(&i.slashings), "slashingsRefMut");
    sym::check(at(x.slashings_mut()) == at(&i.slashings), "slashings_mutRefMut");
    sym::check(x.previous_epoch_attestations().is_none(), "previous_epoch_attestationsRefMut");
    sym::check(x.previous_epoch_attestations_mut().is_none(), "previous_epoch_attestations_mutRefMut");
    sym::check(x.current_epoch_attestations().is_none(), "current_epoch_attestationsRefMut");
    sym::check(x.current_epoch_attestations_mut().is_none(), "current_epoch_attestations_mutRefMut");
    sym::check(x.previous_epoch_participation().map(at) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participationRefMut");
    sym::check(x.previous_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.previous_epoch_participation)), "previous_epoch_participation_mutRefMut");
    sym::check(x.current_epoch_participation().map(at) == Some(at(&i.current_epoch_participation)), "current_epoch_participationRefMut");
    sym::check(x.current_epoch_participation_mut().map(|y| at(y)) == Some(at(&i.current_epoch_participation)), "current_epoch_participation_mutRefMut");
    sym::check(at(x.justification_bits()) == at(&i.justification_bits), "justification_bitsRefMut");
    sym::check(at(x.justification_bits_mut()) == at(&i.justification_bits), "justification_bits_mutRefMut");
    sym::check(at(x.previous_justified_checkpoint()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpointRefMut");
    sym::check(at(x.previous_justified_checkpoint_mut()) == at(&i.previous_justified_checkpoint), "previous_justified_checkpoint_mutRefMut");
    sym::check(at(x.current_justified_checkpoint()) == at(&i.current_justified_checkpoint), "current_justified_checkpointRefMut");
    sym::check(at(x.current_justified_checkpoint_mut()) == at(&i.current_justified_checkpoint), "current_justified_checkpoint_mutRefMut");
    sym::check(at(x.finalized_checkpoint()) == at(&i.finalized_checkpoint), "finalized_checkpointRefMut");
    sym::check(at(x.finalized_checkpoint_mut()) == at(&i.finalized_checkpoint), "finalized_checkpoint_mutRefMut");
    sym::check(x.inactivity_scores().map(at) == Some(at(&i.inactivity_scores)), "inactivity_scoresRefMut");
    sym::check(x.inactivity_scores_mut().map(|y| at(y)) == Some(at(&i.inactivity_scores)), "inactivity_scores_mutRefMut");
    sym::check(x.current_sync_committee().map(at) == Some(at(&i.current_sync_committee)), "current_sync_committeeRefMut");
    sym::check(x.current_sync_committee_mut().map(|y| at(y)) == Some(at(&i.current_sync_committee)), "current_sync_committee_mutRefMut");
    sym::check(x.next_sync_committee().map(at) == Some(at(&i.next_sync_committee)), "next_sync_committeeRefMut");
    sym::check(x.next_sync_committee_mut().map(|y| at(y)) == Some(at(&i.next_sync_committee)), "next_sync_committee_mutRefMut");
    sym::check(match x.latest_execution_payload_header() { Some(types::ExecutionPayloadHeaderRef::Deneb(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_headerRefMut");
    sym::check(match x.latest_execution_payload_header_mut() { Some(types::ExecutionPayloadHeaderRefMut::Deneb(y)) => at(y) == at(&i.latest_execution_payload_header), _ => false }, "latest_execution_payload_header_mutRefMut");
    sym::check(x.next_withdrawal_index() == Some(i.next_withdrawal_index), "next_withdrawal_indexRefMut");
    sym::check(x.next_withdrawal_index_mut().map(|y| at(y)) == Some(at(&i.next_withdrawal_index)), "next_withdrawal_index_mutRefMut");
    sym::check(x.next_withdrawal_validator_index() == Some(i.next_withdrawal_validator_index), "next_withdrawal_validator_indexRefMut");
    sym::check(x.next_withdrawal_validator_index_mut().map(|y| at(y)) == Some(at(&i.next_withdrawal_validator_index)), "next_withdrawal_validator_index_mutRefMut");
    sym::check(x.historical_summaries().map(at) == Some(at(&i.historical_summaries)), "historical_summariesRefMut");
    sym::check(x.historical_summaries_mut().map(|y| at(y)) == Some(at(&i.historical_summaries)), "historical_summaries_mutRefMut");
    let mut c = i.clone(); root(&mut { x }, &mut c);
    }
    let z = <deneb::minimal::BeaconState>::default();
    json(&t::BeaconState::Deneb(z.clone()), &z);
    sym::cover("checked");
}
sym::main! {
    h_beacon_block_body_phase0 = h_beacon_block_body_phase0,
    h_beacon_block_body_altair = h_beacon_block_body_altair,
    h_beacon_block_body_bellatrix = h_beacon_block_body_bellatrix,
    h_beacon_block_body_capella = h_beacon_block_body_capella,
    h_beacon_block_body_deneb = h_beacon_block_body_deneb,
    h_beacon_block_phase0 = h_beacon_block_phase0,
    h_beacon_block_altair = h_beacon_block_altair,
    h_beacon_block_bellatrix = h_beacon_block_bellatrix,
    h_beacon_block_capella = h_beacon_block_capella,
    h_beacon_block_deneb = h_beacon_block_deneb,
    h_signed_beacon_block_phase0 = h_signed_beacon_block_phase0,
    h_signed_beacon_block_altair = h_signed_beacon_block_altair,
    h_signed_beacon_block_bellatrix = h_signed_beacon_block_bellatrix,
    h_signed_beacon_block_capella = h_signed_beacon_block_capella,
    h_signed_beacon_block_deneb = h_signed_beacon_block_deneb,
    h_blinded_beacon_block_body_bellatrix = h_blinded_beacon_block_body_bellatrix,
    h_blinded_beacon_block_body_capella = h_blinded_beacon_block_body_capella,
    h_blinded_beacon_block_body_deneb = h_blinded_beacon_block_body_deneb,
    h_blinded_beacon_block_bellatrix = h_blinded_beacon_block_bellatrix,
    h_blinded_beacon_block_capella = h_blinded_beacon_block_capella,
    h_blinded_beacon_block_deneb = h_blinded_beacon_block_deneb,
    h_signed_blinded_beacon_block_bellatrix = h_signed_blinded_beacon_block_bellatrix,
    h_signed_blinded_beacon_block_capella = h_signed_blinded_beacon_block_capella,
    h_signed_blinded_beacon_block_deneb = h_signed_blinded_beacon_block_deneb,
    h_execution_payload_bellatrix = h_execution_payload_bellatrix,
    h_execution_payload_capella = h_execution_payload_capella,
    h_execution_payload_deneb = h_execution_payload_deneb,
    h_execution_payload_header_bellatrix = h_execution_payload_header_bellatrix,
    h_execution_payload_header_capella = h_execution_payload_header_capella,
    h_execution_payload_header_deneb = h_execution_payload_header_deneb,
    h_beacon_state_phase0 = h_beacon_state_phase0,
    h_beacon_state_altair = h_beacon_state_altair,
    h_beacon_state_bellatrix = h_beacon_state_bellatrix,
    h_beacon_state_capella = h_beacon_state_capella,
    h_beacon_state_deneb = h_beacon_state_deneb,
}
