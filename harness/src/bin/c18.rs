//! C18: execution payloads.
#![no_main]
use harness::refs::*;
use harness::small::*;
use harness::*;

fn list_root(chunks: &[[u8; 32]], depth: usize, n: usize) -> Root {
    Root::try_from(pair(&merkle(chunks, depth), &num(n as u64)).as_ref()).unwrap()
}
fn bytes_root(b: &[u8], depth: usize) -> [u8; 32] {
    let c: Vec<[u8; 32]> = b.chunks(32).map(chunk).collect();
    pair(&merkle(&c, depth), &num(b.len() as u64))
}
fn hash32(r: &Root) -> Hash32 {
    Hash32::try_from(r.as_ref()).unwrap()
}
// the fields every fork's payload and header share
macro_rules! common {
    ($p:ident, $h:ident; $($f:ident),*) => { $( $h.$f = $p.$f.clone(); )* };
}
macro_rules! payload {
    ($f:ident, $merged:expr, $withdrawals:expr, |$s:ident, $c:ident, $b:ident, $p:ident, $h:ident| $more:expr, $fits:expr) => {{
        use harness::small::$f as m;
        let mut $c = context();
        $c.execution_engine = sym::pick_bool("engine says valid");
        $c.seconds_per_slot = 12;
        let mut $s = m::BeaconState::default();
        let epoch = 7 + sym::pick("epoch", 0, 1);
        $s.slot = 4 * epoch + sym::range("slot in epoch", 0, 3);
        $s.genesis_time = sym::range("genesis", 0, 1 << 40);
        for i in 0..8 {
            $s.randao_mixes[i] = bytes32(i as u8);
        }
        $s.randao_mixes[(epoch % 8) as usize] = any_bytes32("mix");
        // the payload before: none, if there may be none
        let before = sym::pick("before", if $merged { 1 } else { 0 }, 3);
        let l = &mut $s.latest_execution_payload_header;
        match before {
            1 => l.block_hash = hash32(&any_root("head")),
            2 => l.block_number = 7,
            3 => {
                l.block_hash = hash32(&root(50));
                l.timestamp = 9
            }
            _ => {}
        }
        let mut $b = m::BeaconBlockBody::default();
        let $p = &mut $b.execution_payload;
        $p.parent_hash = if sym::pick_bool("on top") { $s.latest_execution_payload_header.block_hash.clone() } else { hash32(&any_root("parent")) };
        $p.fee_recipient[19] = sym::any_u8("fee recipient");
        $p.state_root = bytes32(2);
        $p.receipts_root = bytes32(3);
        $p.logs_bloom[7] = sym::any_u8("bloom");
        $p.prev_randao = if sym::pick_bool("randao") { $s.randao_mixes[(epoch % 8) as usize].clone() } else { any_bytes32("randao") };
        $p.block_number = sym::any_u64("number");
        $p.gas_limit = sym::any_u64("limit");
        $p.gas_used = sym::any_u64("used");
        $p.timestamp = sym::any_u64("timestamp");
        $p.base_fee_per_gas = ethereum_consensus::ssz::prelude::U256::from(sym::any_u64("fee"));
        $p.block_hash = hash32(&root(9));
        $p.extra_data = vec![1, 2, sym::any_u8("extra")].as_slice().try_into().unwrap();
        let n = sym::pick("transactions", 0, 2) as usize;
        let mut roots = vec![];
        for i in 0..n {
            let t = vec![i as u8 + 5; 31 + 2 * i];
            roots.push(bytes_root(&t, 5));
            $p.transactions.push(t.as_slice().try_into().unwrap());
        }
        let mut $h = m::ExecutionPayloadHeader::default();
        common!($p, $h; parent_hash, fee_recipient, state_root, receipts_root, logs_bloom, prev_randao, block_number,
            gas_limit, gas_used, timestamp, extra_data, base_fee_per_gas, block_hash);
        $h.transactions_root = list_root(&roots, 8, n);
        $more;
        let mut r = $s.clone();
        let ok = m::process_execution_payload(&mut $s, &$b, &$c).is_ok();
        let $p = &$b.execution_payload;
        let old = &r.latest_execution_payload_header;
        // before the merge any parent will do
        let complete = $merged || before > 1 || before == 1 && !sym::eq_bytes(old.block_hash.as_ref(), &[0; 32]);
        let want = (!complete | sym::eq_bytes($p.parent_hash.as_ref(), old.block_hash.as_ref()))
            & sym::eq_bytes($p.prev_randao.as_ref(), r.randao_mixes[(epoch % 8) as usize].as_ref())
            & ($p.timestamp == r.genesis_time + 12 * r.slot)
            & $c.execution_engine
            & $fits;
        sym::check(ok == want, "a payload is accepted exactly when it fits the state");
        if ok {
            r.latest_execution_payload_header = $h;
            same_state!($f, $s, r, "payload");
            sym::cover("accepted");
        } else {
            sym::cover("refused");
        }
    }};
}
macro_rules! with_withdrawals {
    ($p:ident, $h:ident) => {
        let n = sym::pick("withdrawals", 0, 2) as usize;
        let mut roots = vec![];
        for i in 0..n {
            let mut w = ethereum_consensus::capella::Withdrawal::default();
            w.index = 100 + i;
            w.validator_index = 5 - i;
            w.address[0] = 8;
            w.amount = sym::any_u64("amount");
            roots.push(merkle(&[num(w.index as u64), num(w.validator_index as u64), chunk(w.address.as_ref()), num(w.amount)], 2));
            $p.withdrawals.push(w);
        }
        $h.withdrawals_root = list_root(&roots, 2, n);
    };
}
macro_rules! with_blobs {
    ($c:ident, $b:ident, $p:ident, $h:ident) => {
        $p.blob_gas_used = sym::any_u64("blob gas");
        $p.excess_blob_gas = sym::any_u64("excess");
        common!($p, $h; blob_gas_used, excess_blob_gas);
        $c.max_blobs_per_block = 2;
        for _ in 0..sym::pick("blobs", 0, 3) {
            $b.blob_kzg_commitments.push(Default::default());
        }
    };
}
// which payloads count as a payload
macro_rules! enabled {
    () => {{
        use harness::small::bellatrix as m;
        let mut s = m::BeaconState::default();
        let mut b = m::BeaconBlockBody::default();
        macro_rules! one_field {
            ($x:expr, $last:expr) => {{
                let n = sym::pick("field", 0, 14);
                let v = sym::any_u8("value");
                match n {
                    0 => $x.parent_hash[31] = v,
                    1 => $x.fee_recipient[19] = v,
                    2 => $x.state_root[0] = v,
                    3 => $x.receipts_root[0] = v,
                    4 => $x.logs_bloom[31] = v,
                    5 => $x.prev_randao[0] = v,
                    6 => $x.block_number = v as u64,
                    7 => $x.gas_limit = v as u64,
                    8 => $x.gas_used = v as u64,
                    9 => $x.timestamp = v as u64,
                    10 => $x.base_fee_per_gas = ethereum_consensus::ssz::prelude::U256::from(v as u64),
                    11 => $x.block_hash[16] = v,
                    12 => {
                        $x.extra_data = vec![v].as_slice().try_into().unwrap();
                    }
                    13 => $last(v),
                    _ => {}
                }
                (n == 12) | (n < 14) & (v != 0)
            }};
        }
        let mut r = Root::default();
        let complete = one_field!(s.latest_execution_payload_header, |v| r[5] = v);
        // a header without transactions does not have the root of an empty list
        s.latest_execution_payload_header.transactions_root = r;
        let mut t = false;
        let payload = one_field!(b.execution_payload, |v| t = v != 0);
        if t {
            b.execution_payload.transactions.push(vec![1u8].as_slice().try_into().unwrap());
        }
        sym::check(m::is_merge_transition_complete(&s) == complete, "the merge is complete once there is a payload");
        sym::check(m::is_merge_transition_block(&s, &b) == (!complete & payload), "the first payload is the transition");
        sym::check(m::is_execution_enabled(&s, &b) == (complete | payload), "payloads are processed from the transition on");
        sym::cover(if complete { "complete" } else { "not complete" });
        sym::cover(if payload { "payload" } else { "no payload" });
    }};
}
macro_rules! convert {
    ($f:ident, |$p:ident, $h:ident| $more:expr) => {{
        use harness::small::$f as m;
        let mut p = m::ExecutionPayload::default();
        let mut h = m::ExecutionPayloadHeader::default();
        let ($p, $h) = (&mut p, &mut h);
        $p.parent_hash = hash32(&any_root("parent"));
        $p.fee_recipient[19] = sym::any_u8("fee recipient");
        $p.state_root = any_bytes32("state");
        $p.receipts_root = any_bytes32("receipts");
        $p.logs_bloom[7] = sym::any_u8("bloom");
        $p.prev_randao = any_bytes32("randao");
        $p.block_number = sym::any_u64("number");
        $p.gas_limit = sym::any_u64("limit");
        $p.gas_used = sym::any_u64("used");
        $p.timestamp = sym::any_u64("timestamp");
        $p.base_fee_per_gas = ethereum_consensus::ssz::prelude::U256::from(sym::any_u64("fee"));
        $p.block_hash = hash32(&any_root("hash"));
        $p.extra_data = vec![1, 2, sym::any_u8("extra")].as_slice().try_into().unwrap();
        let n = sym::pick("transactions", 0, 2) as usize;
        let mut roots = vec![];
        for i in 0..n {
            let mut t = vec![i as u8 + 5; 31 + 2 * i];
            t[0] = sym::any_u8("transaction");
            roots.push(bytes_root(&t, 5));
            $p.transactions.push(t.as_slice().try_into().unwrap());
        }
        common!($p, $h; parent_hash, fee_recipient, state_root, receipts_root, logs_bloom, prev_randao, block_number,
            gas_limit, gas_used, timestamp, extra_data, base_fee_per_gas, block_hash);
        $h.transactions_root = list_root(&roots, 8, n);
        $more;
        let got = m::ExecutionPayloadHeader::try_from(&p).unwrap();
        sym::check(got == h, "the header of a payload");
        sym::cover("converted");
    }};
}
fn versioned() {
    let mut k = ethereum_consensus::crypto::KzgCommitment::default();
    for (i, b) in sym::any_bytes::<48>("commitment").iter().enumerate() {
        k[i] = *b;
    }
    let mut d = sym::sha256(k.as_ref());
    d[0] = 1;
    let h = ethereum_consensus::deneb::helpers::kzg_commitment_to_versioned_hash(&k);
    sym::check(sym::eq_bytes(h.as_ref(), &d), "the versioned hash of a commitment");
    sym::cover("hashed");
}
sym::harness! {
    fn h_payload_bellatrix() { payload!(bellatrix, false, false, |s, c, b, p, h| (), true) }
    fn h_payload_capella() {
        payload!(capella, true, true, |s, c, b, p, h| { with_withdrawals!(p, h); }, true)
    }
    fn h_payload_deneb() {
        payload!(deneb, true, true, |s, c, b, p, h| { with_withdrawals!(p, h); with_blobs!(c, b, p, h); }, b.blob_kzg_commitments.len() <= 2)
    }
    fn h_payload_electra() {
        payload!(electra, true, true, |s, c, b, p, h| {
            with_withdrawals!(p, h);
            let n = sym::pick("requests", 0, 1) as usize;
            let (mut receipts, mut requests) = (vec![], vec![]);
            if n > 0 {
                let mut d = ethereum_consensus::electra::DepositReceipt::default();
                d.public_key = key(4);
                d.withdrawal_credentials = bytes32(4);
                d.amount = sym::any_u64("amount");
                d.index = sym::any_u64("index");
                receipts.push(merkle(&[key_root(d.public_key.as_ref()), chunk(d.withdrawal_credentials.as_ref()), num(d.amount), signature_root(d.signature.as_ref()), num(d.index)], 3));
                p.deposit_receipts.push(d);
                let mut q = ethereum_consensus::electra::ExecutionLayerWithdrawalRequest::default();
                q.source_address[4] = 4;
                q.validator_public_key = key(6);
                q.amount = sym::any_u64("amount");
                requests.push(merkle(&[chunk(q.source_address.as_ref()), key_root(q.validator_public_key.as_ref()), num(q.amount)], 2));
                p.withdrawal_requests.push(q);
            }
            h.deposit_receipts_root = list_root(&receipts, 2, n);
            h.withdrawal_requests_root = list_root(&requests, 2, n);
            with_blobs!(c, b, p, h);
        }, b.blob_kzg_commitments.len() <= 2)
    }
    fn h_enabled_bellatrix() { enabled!() }
    fn h_header_bellatrix() { convert!(bellatrix, |p, h| ()) }
    fn h_header_capella() { convert!(capella, |p, h| { with_withdrawals!(p, h); }) }
    fn h_header_deneb() {
        convert!(deneb, |p, h| {
            with_withdrawals!(p, h);
            p.blob_gas_used = sym::any_u64("blob gas");
            p.excess_blob_gas = sym::any_u64("excess");
            common!(p, h; blob_gas_used, excess_blob_gas);
        })
    }
    fn h_versioned_hash() { versioned() }
}
