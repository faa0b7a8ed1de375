//! C24: applying blocks across forks.
#![no_main]
use ethereum_consensus::state_transition::{Executor, Validation};
use ethereum_consensus::types;
use harness::refs::*;
use harness::small::{self, *};
use harness::*;

type State = types::BeaconState<
    { SLOTS_PER_HISTORICAL_ROOT }, { HISTORICAL_ROOTS_LIMIT }, { ETH1_DATA_VOTES_BOUND }, { VALIDATOR_REGISTRY_LIMIT },
    { EPOCHS_PER_HISTORICAL_VECTOR }, { EPOCHS_PER_SLASHINGS_VECTOR }, { MAX_VALIDATORS_PER_COMMITTEE },
    { PENDING_ATTESTATIONS_BOUND }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM }, { MAX_EXTRA_DATA_BYTES },
>;
type Block = types::SignedBeaconBlock<
    { MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_COMMITTEE }, { MAX_ATTESTER_SLASHINGS }, { MAX_ATTESTATIONS },
    { MAX_DEPOSITS }, { MAX_VOLUNTARY_EXITS }, { SYNC_COMMITTEE_SIZE }, { BYTES_PER_LOGS_BLOOM },
    { MAX_EXTRA_DATA_BYTES }, { MAX_BYTES_PER_TRANSACTION }, { MAX_TRANSACTIONS_PER_PAYLOAD },
    { MAX_WITHDRAWALS_PER_PAYLOAD }, { MAX_BLS_TO_EXECUTION_CHANGES }, { MAX_BLOB_COMMITMENTS_PER_BLOCK },
>;

/// On to the next fork, if it is time or there is time left until then.
fn next(s: State, c: &Context) -> Result<State, Error> {
    macro_rules! step {
        ($f:ident, $s:ident, $epoch:expr, $upgrade:expr, $to:ident) => {{
            let mut s = $s;
            let at = $epoch * 4;
            if s.slot != at {
                small::$f::process_slots(&mut s, at, c)?;
            }
            State::$to($upgrade(&s, c)?)
        }};
    }
    Ok(match s {
        State::Phase0(s) => step!(phase0, s, c.altair_fork_epoch, ethereum_consensus::altair::fork::upgrade_to_altair, Altair),
        State::Altair(s) => step!(altair, s, c.bellatrix_fork_epoch, |s: &small::altair::BeaconState, c: &Context| Ok::<_, Error>(ethereum_consensus::bellatrix::fork::upgrade_to_bellatrix(s, c)), Bellatrix),
        State::Bellatrix(s) => step!(bellatrix, s, c.capella_fork_epoch, |s: &small::bellatrix::BeaconState, c: &Context| Ok::<_, Error>(ethereum_consensus::capella::fork::upgrade_to_capella(s, c)), Capella),
        State::Capella(s) => step!(capella, s, c.deneb_fork_epoch, |s: &small::capella::BeaconState, c: &Context| Ok::<_, Error>(ethereum_consensus::deneb::fork::upgrade_to_deneb(s, c)), Deneb),
        s => s,
    })
}
fn fork_of(s: &State) -> u64 {
    match s {
        State::Phase0(_) => 0,
        State::Altair(_) => 1,
        State::Bellatrix(_) => 2,
        State::Capella(_) => 3,
        State::Deneb(_) => 4,
    }
}
macro_rules! infinite {
    ($b:ident, $s:ident, $c:ident) => {{
        let mut x = [0u8; 96];
        x[0] = 0xc0;
        $b.body.sync_aggregate.sync_committee_signature = BlsSignature::try_from(x.as_ref()).unwrap();
    }};
}
macro_rules! payload {
    ($b:ident, $s:ident, $c:ident) => {{
        infinite!($b, $s, $c);
        let p = &mut $b.body.execution_payload;
        p.prev_randao = $s.randao_mixes[($b.slot / 4 % 8) as usize].clone();
        p.timestamp = $b.slot * $c.seconds_per_slot;
        p.parent_hash = $s.latest_execution_payload_header.block_hash.clone();
    }};
}
macro_rules! nothing {
    ($b:ident, $s:ident, $c:ident) => {};
}
/// A block for `slot` on `s` (of the block's fork), and whether it is to be accepted.
macro_rules! block {
    ($f:ident, $F:ident, $r:ident, $slot:ident, $upgraded:ident, $v:ident, $c:ident, $more:ident) => {{
        use small::$f as m;
        let mut x = m::SignedBeaconBlock::default();
        let b = &mut x.message;
        b.slot = $slot;
        let in_time = if $upgraded && $slot == $r.slot { true } else { m::process_slots(&mut $r, $slot, &$c).is_ok() };
        b.proposer_index = if in_time { proposer(&$r.validators, &$r.randao_mixes, $slot, $c.max_effective_balance, &$c) } else { 0 };
        b.parent_root = Root::try_from(header_root(&$r.latest_block_header).as_ref()).unwrap();
        $more!(b, $r, $c);
        let mut state = $r.clone();
        b.state_root = if in_time && m::process_block(&mut state, b, &$c).is_ok() {
            ssz_rs::prelude::HashTreeRoot::hash_tree_root(&mut state).unwrap()
        } else {
            root(9)
        };
        x.signature = any_signature("signature");
        let ok = in_time && m::state_transition_block_in_slot(&mut $r, &x, $v, &$c).is_ok();
        (Block::$F(x), ok.then(|| State::$F($r)))
    }};
}
fn apply(source: u64) {
    free_signatures();
    sym::merge(false);
    let mut c = context();
    c.shuffle_round_count = 1;
    let dest = sym::pick("block of", 0, 4);
    let e = [[0u64, 2, 3, 4, 5], [0, 2, 2, 3, 3], [0, 3, 3, 3, 4]][sym::pick("schedule", 0, if dest > source { 2 } else { 0 }) as usize];
    c.altair_fork_epoch = e[1];
    c.bellatrix_fork_epoch = e[2];
    c.capella_fork_epoch = e[3];
    c.deneb_fork_epoch = e[4];
    // up to, at and past the next fork
    let near = if source == 4 { 4 * e[4] } else { 4 * e[source as usize + 1] };
    let slot = near + 1 - sym::pick("state at", 0, if dest < source { 0 } else { 2 });
    let to = 4 * e[dest as usize].max(1) + sym::pick("block at", 0, 3) - 1;
    macro_rules! scene {
        ($f:ident, $F:ident) => {{
            let mut s = small::$f::BeaconState::default();
            s.slot = slot;
            s.fork.previous_version = [1, 0, 0, 9];
            s.fork.current_version = [2, 0, 0, 9];
            s.genesis_validators_root = root(3);
            for i in 0..8u8 {
                s.randao_mixes[i as usize] = bytes32(i + 70);
            }
            for i in 0..4u8 {
                s.validators.push(active_validator(i));
                s.balances.push(32 * GWEI);
                harness::push_flags!($f, s);
            }
            members!($f, s);
            State::$F(s)
        }};
    }
    macro_rules! members {
        (phase0, $s:ident) => {};
        ($f:ident, $s:ident) => {
            $s.current_sync_committee.public_keys = (0..4u8).map(key).collect::<Vec<_>>().try_into().unwrap();
            $s.next_sync_committee.public_keys = (0..4u8).rev().map(key).collect::<Vec<_>>().try_into().unwrap();
        };
    }
    let start = match source {
        0 => scene!(phase0, Phase0),
        1 => scene!(altair, Altair),
        2 => scene!(bellatrix, Bellatrix),
        3 => scene!(capella, Capella),
        _ => scene!(deneb, Deneb),
    };
    let validated = sym::pick_bool("validated");
    let v = if validated { Validation::Enabled } else { Validation::Disabled };
    let mut r = Ok(start.clone());
    while let Ok(s) = &r {
        if fork_of(s) >= dest {
            break;
        }
        r = next(s.clone(), &c);
    }
    let upgraded = dest > source;
    // a block of the wanted kind for a state that cannot be reached, or is past it
    let mut other = || -> (Block, Option<State>) {
        let x = match dest {
            0 => Block::Phase0(Default::default()),
            1 => Block::Altair(Default::default()),
            2 => Block::Bellatrix(Default::default()),
            3 => Block::Capella(Default::default()),
            _ => Block::Deneb(Default::default()),
        };
        (x, None)
    };
    let (block, want) = match r {
        Ok(State::Phase0(mut s)) if dest == 0 => block!(phase0, Phase0, s, to, upgraded, v, c, nothing),
        Ok(State::Altair(mut s)) if dest == 1 => block!(altair, Altair, s, to, upgraded, v, c, infinite),
        Ok(State::Bellatrix(mut s)) if dest == 2 => block!(bellatrix, Bellatrix, s, to, upgraded, v, c, infinite),
        Ok(State::Capella(mut s)) if dest == 3 => block!(capella, Capella, s, to, upgraded, v, c, payload),
        Ok(State::Deneb(mut s)) if dest == 4 => block!(deneb, Deneb, s, to, upgraded, v, c, payload),
        _ => other(),
    };
    let mut x = Executor::new(start, c);
    let ok = if validated && slot % 2 == 0 { x.apply_block(&block).is_ok() } else { x.apply_block_with_validation(&block, v).is_ok() };
    sym::check(ok == want.is_some(), "a block is applied exactly when its fork's rules accept it after the upgrades");
    sym::cover(if ok { "applied" } else { "refused" });
    match (x.state, want) {
        (_, None) => {}
        (State::Phase0(a), Some(State::Phase0(b))) => { same_state!(phase0, a, b, "executed"); }
        (State::Altair(a), Some(State::Altair(b))) => { same_state!(altair, a, b, "executed"); }
        (State::Bellatrix(a), Some(State::Bellatrix(b))) => { same_state!(bellatrix, a, b, "executed"); }
        (State::Capella(a), Some(State::Capella(b))) => { same_state!(capella, a, b, "executed"); }
        (State::Deneb(a), Some(State::Deneb(b))) => { same_state!(deneb, a, b, "executed"); }
        _ => sym::check(false, "the state is of the block's fork"),
    }
}
sym::harness! {
    fn h_phase0() { apply(0) }
    fn h_altair() { apply(1) }
    fn h_bellatrix() { apply(2) }
    fn h_capella() { apply(3) }
    fn h_deneb() { apply(4) }
}
