//! C25: genesis.
#![no_main]
use ethereum_consensus::phase0::Deposit;
use harness::refs::*;
use harness::small::*;
use harness::*;
use ssz_rs::prelude::*;

fn zeros() -> Vec<[u8; 32]> {
    let mut z = vec![[0u8; 32]];
    for i in 0..31 {
        z.push(pair(&z[i], &z[i]));
    }
    z
}
fn data_root(d: &Deposit) -> [u8; 32] {
    merkle(
        &[
            key_root(d.data.public_key.as_ref()),
            chunk(d.data.withdrawal_credentials.as_ref()),
            num(d.data.amount),
            signature_root(d.data.signature.as_ref()),
        ],
        2,
    )
}
/// The root of the deposits so far, and the proof of the last.
fn prove(ds: &mut [Deposit]) -> Root {
    let z = zeros();
    let n = ds.len();
    let mut level: Vec<[u8; 32]> = ds.iter().map(data_root).collect();
    let d = &mut ds[n - 1];
    for h in 0..32 {
        if level.len() % 2 == 1 {
            level.push(z[h]);
        }
        d.proof[h] = Root::try_from(level[((n - 1) >> h) ^ 1].as_ref()).unwrap();
        level = level.chunks(2).map(|p| pair(&p[0], &p[1])).collect();
    }
    d.proof[32] = Root::try_from(num(n as u64).as_ref()).unwrap();
    Root::try_from(pair(&level[0], &num(n as u64)).as_ref()).unwrap()
}
macro_rules! init {
    (phase0, $($a:expr),*) => {
        m::initialize_beacon_state_from_eth1::<
            { SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND },
            { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR },
            { MAX_VALIDATORS_PER_COMMITTEE }, { PENDING_ATTESTATIONS_BOUND }, { MAX_PROPOSER_SLASHINGS },
            { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS },
        >($($a),*)
    };
    (altair, $($a:expr),*) => {
        m::initialize_beacon_state_from_eth1::<
            { SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND },
            { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR },
            { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { MAX_PROPOSER_SLASHINGS },
            { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS },
        >($($a),*)
    };
    (bellatrix, $($a:expr),*) => {
        m::initialize_beacon_state_from_eth1::<
            { SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND },
            { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR },
            { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { MAX_PROPOSER_SLASHINGS },
            { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS },
            { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION },
            { MAX_TRANSACTIONS_PER_PAYLOAD },
        >($($a),*)
    };
    (capella, $($a:expr),*) => {
        m::initialize_beacon_state_from_eth1::<
            { SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND },
            { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR },
            { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { MAX_PROPOSER_SLASHINGS },
            { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS },
            { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION },
            { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES },
        >($($a),*)
    };
    (deneb, $($a:expr),*) => {
        m::initialize_beacon_state_from_eth1::<
            { SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND },
            { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR },
            { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { MAX_PROPOSER_SLASHINGS },
            { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS },
            { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION },
            { MAX_TRANSACTIONS_PER_PAYLOAD }, { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES },
            { MAX_BLOB_COMMITMENTS_PER_BLOCK },
        >($($a),*)
    };
    (electra, $($a:expr),*) => {
        m::initialize_beacon_state_from_eth1::<
            { SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND },
            { VALIDATOR_REGISTRY_LIMIT }, { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR },
            { MAX_VALIDATORS_PER_COMMITTEE }, { SYNC_COMMITTEE_SIZE }, { PENDING_BALANCE_DEPOSITS_LIMIT },
            { PENDING_PARTIAL_WITHDRAWALS_LIMIT }, { PENDING_CONSOLIDATIONS_LIMIT }, { MAX_PROPOSER_SLASHINGS },
            { MAX_VALIDATORS_PER_SLOT }, { MAX_COMMITTEES_PER_SLOT }, { MAX_ATTESTER_SLASHINGS_ELECTRA },
            { MAX_ATTESTATIONS_ELECTRA }, { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { BYTES_PER_LOGS_BLOOM },
            { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD },
            { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD },
            { MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES },
            { MAX_BLOB_COMMITMENTS_PER_BLOCK }, { MAX_CONSOLIDATIONS },
        >($($a),*)
    };
}
macro_rules! genesis {
    ($f:ident, $version:ident, $committee:expr, |$s:ident, $c:ident, $h:ident| $more:expr, [$($header:expr)?]) => {{
        use harness::small::$f as m;
        free_signatures();
        sym::merge(false);
        let mut c = context();
        c.shuffle_round_count = 1;
        c.genesis_delay = sym::range("delay", 0, 1 << 40);
        let version = sym::any_bytes::<4>("version");
        c.$version = version;
        let time = sym::range("time", 0, 1 << 60);
        let hash = Hash32::try_from(root(70).as_ref()).unwrap();
        let n = sym::pick("deposits", 0, 3) as usize;
        let bad = if n < 3 { sym::pick("bad proof", 0, 2) as usize } else { 3 };
        let mut ds: Vec<Deposit> = vec![];
        let mut roots = vec![];
        for i in 0..n {
            let mut d = Deposit::default();
            // the third may top the first up
            let k = if i == 2 { sym::pick("key", 0, 1) as u8 * 2 } else { i as u8 };
            d.data.public_key = key(k);
            d.data.withdrawal_credentials = bytes32(i as u8);
            d.data.amount = if i == 0 { 31 * GWEI + 5 } else { [GWEI - 6, GWEI, 32 * GWEI - 1, 33 * GWEI][sym::pick("amount", 0, 3) as usize] };
            d.data.signature[3] = 9;
            ds.push(d);
            roots.push(prove(&mut ds));
        }
        let faulty = bad < n;
        if faulty {
            ds[bad].proof[3][4] ^= 1;
        }
        #[allow(unused_mut)]
        let mut r = {
            let mut $s = m::BeaconState::default();
            $s.genesis_time = time + c.genesis_delay;
            $s.fork.previous_version = version;
            $s.fork.current_version = version;
            $s.eth1_data.block_hash = hash.clone();
            $s.eth1_data.deposit_count = n as u64;
            $s.latest_block_header.body_root = m::BeaconBlockBody::default().hash_tree_root().unwrap();
            for i in 0..8 {
                $s.randao_mixes[i] = bytes32(70);
            }
            $s
        };
        let mut ok = true;
        for (d, t) in ds.iter().zip(&roots) {
            r.eth1_data.deposit_root = *t;
            ok = ok && m::process_deposit(&mut r, d, &c).is_ok();
        }
        {
            let ($s, $c) = (&mut r, &c);
            $more;
        }
        sym::check(ok == !faulty, "deposits are accepted exactly with their proofs");
        let mut any = false;
        for i in 0..r.validators.len() {
            let b = r.balances[i];
            let v = &mut r.validators[i];
            let e = b - b % GWEI;
            v.effective_balance = if e > 32 * GWEI { 32 * GWEI } else { e };
            if v.effective_balance == 32 * GWEI {
                v.activation_eligibility_epoch = 0;
                v.activation_epoch = 0;
                any = true;
            }
        }
        r.genesis_validators_root = r.validators.hash_tree_root().unwrap();
        if $committee && ok && !any {
            // nobody to sample
            return;
        }
        let got: Result<m::BeaconState, Error> = init!($f, hash, time, &ds, $($header,)? &c);
        sym::check(got.is_ok() == ok, "there is a genesis exactly if all deposits are proven");
        let Ok(mut got) = got else {
            sym::cover("refused");
            return;
        };
        committees!($f, got, r, c);
        same_state!($f, got, r, "genesis");
        sym::cover("genesis");
        let b: m::BeaconBlock = m::get_genesis_block(&mut got).unwrap();
        let mut want = m::BeaconBlock::default();
        want.state_root = r.hash_tree_root().unwrap();
        sym::check(b == want, "the genesis block has the root of the genesis state");
    }};
}
macro_rules! committees {
    (phase0, $got:ident, $r:ident, $c:ident) => {};
    ($f:ident, $got:ident, $r:ident, $c:ident) => {
        let want = sync_committee(&$r.validators, &$r.randao_mixes, 1, $c.max_effective_balance, &$c);
        let keys: Vec<BlsPublicKey> = want.iter().map(|i| $r.validators[*i as usize].public_key.clone()).collect();
        $r.current_sync_committee.aggregate_public_key = ethereum_consensus::crypto::eth_aggregate_public_keys(&keys).unwrap();
        $r.current_sync_committee.public_keys = keys.try_into().unwrap();
        $r.next_sync_committee = $r.current_sync_committee.clone();
    };
}
macro_rules! valid {
    ($f:ident) => {{
        use harness::small::$f as m;
        let mut c = context();
        c.min_genesis_time = sym::any_u64("least time");
        c.min_genesis_active_validator_count = sym::any_usize("least validators");
        let mut s = m::BeaconState::default();
        s.genesis_time = sym::any_u64("time");
        s.slot = sym::any_u64("slot");
        let mut n = 0u64;
        for i in 0..3 {
            let mut v = active_validator(i);
            v.activation_epoch = sym::any_u64("activation");
            v.exit_epoch = sym::any_u64("exit");
            n += ((v.activation_epoch == 0) & (v.exit_epoch > 0)) as u64;
            s.validators.push(v);
        }
        let want = (s.genesis_time >= c.min_genesis_time) & (n >= c.min_genesis_active_validator_count as u64);
        sym::check(m::is_valid_genesis_state(&s, &c) == want, "a genesis state is valid from its time on with enough validators");
        sym::cover(if want { "valid" } else { "not yet" });
    }};
}
macro_rules! with_header {
    ($f:ident, $version:ident, |$s:ident| $more:expr) => {{
        let mut h = harness::small::$f::ExecutionPayloadHeader::default();
        h.block_number = sym::any_u64("block number");
        let given = sym::pick_bool("header");
        genesis!($f, $version, true, |$s, c, h| {
            if given {
                $s.latest_execution_payload_header = h.clone();
            }
            $more
        }, [given.then_some(&h)])
    }};
}
sym::harness! {
    fn h_genesis_phase0() { genesis!(phase0, genesis_fork_version, false, |s, c, h| (), []) }
    fn h_genesis_altair() { genesis!(altair, altair_fork_version, true, |s, c, h| (), []) }
    fn h_genesis_bellatrix() { with_header!(bellatrix, bellatrix_fork_version, |s| ()) }
    fn h_genesis_capella() { with_header!(capella, capella_fork_version, |s| ()) }
    fn h_genesis_deneb() { with_header!(deneb, deneb_fork_version, |s| ()) }
    fn h_genesis_electra() {
        with_header!(electra, electra_fork_version, |s| {
            s.deposit_receipts_start_index = FAR;
            for p in std::mem::take(&mut s.pending_balance_deposits).iter() {
                s.balances[p.index] += p.amount;
            }
        })
    }
    fn h_valid_phase0() { valid!(phase0) }
    fn h_valid_electra() { valid!(electra) }
}
