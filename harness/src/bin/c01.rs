//! C01: the slot clock and the slot stream.
#![no_main]
use ethereum_consensus::clock::{self, Clock, SlotStream, TimeProvider};
use harness::*;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::task::{Context as Cx, Poll, RawWaker, RawWakerVTable, Waker};
use tokio_stream::Stream;

const NS: u128 = 1_000_000_000;
/// Seconds that fit in 64 bits of nanoseconds (the year 2554).
const LAST: u64 = 18_446_744_073;

struct At(u128);
impl TimeProvider for At {
    fn get_current_time(&self) -> u128 {
        self.0
    }
}
fn per_slot() -> u64 {
    [12, 6, 1, 5, 2][sym::pick("seconds per slot", 0, if sym::thorough() { 4 } else { 2 }) as usize]
}
fn now() -> u128 {
    ((sym::range("now hi", 0, 1) as u128) << 64) | sym::any_u64("now") as u128
}

/// `slot` is the one that contains `t`.
fn contains(slot: u64, t: u128, genesis: u64, sps: u64) -> bool {
    let start = genesis as u128 * NS + slot as u128 * (sps as u128 * NS);
    (start <= t) & (t < start + sps as u128 * NS)
}
fn slot_of_time() {
    let (g, sps, t) = (sym::range("genesis", 0, LAST), per_slot(), now());
    let c = Clock::new(g, sps, 32, At(t));
    let before = t < g as u128 * NS;
    sym::check(c.before_genesis() == before, "before genesis");
    for s in [c.current_slot(), c.slot_at_time(t), clock::convert_timestamp_nanos_to_slot(t, g as u128 * NS, sps as u128 * NS)] {
        match s {
            None => {
                sym::check(before, "no slot is reported only before genesis");
                sym::cover("before");
            }
            Some(s) => {
                sym::check(!before, "no slot before genesis");
                sym::check(contains(s, t, g, sps), "the slot contains the time");
                sym::cover("after");
            }
        }
    }
}
fn seconds() {
    let (g, sps) = (sym::any_u64("genesis"), per_slot());
    let t = sym::any_u64("timestamp");
    match clock::convert_timestamp_to_slot(t, g, sps) {
        None => {
            sym::check(t < g, "no slot only before genesis");
            sym::cover("before");
        }
        Some(s) => {
            sym::check(t >= g, "no slot before genesis");
            let start = g as u128 + s as u128 * sps as u128;
            sym::check((start <= t as u128) & ((t as u128) < start + sps as u128), "the slot contains the second");
            sym::cover("after");
        }
    }
}
fn round_trip() {
    let (g, sps) = (sym::range("genesis", 0, LAST), per_slot());
    let c = Clock::new(g, sps, 32, At(0));
    let slot = sym::range("slot", 0, 1 << 40);
    let ts = c.timestamp_at_slot(slot);
    sym::check(ts == g + slot * sps, "start of a slot");
    sym::check(clock::convert_slot_to_timestamp(slot, sps as u128 * NS, g as u128 * NS) == ts, "start of a slot by conversion");
    sym::check(c.slot_at_time(ts as u128 * NS) == Some(slot), "the slot at its own start");
    sym::check(clock::convert_timestamp_to_slot(ts, g, sps) == Some(slot), "the slot at its own start, in seconds");
    if ts > 0 {
        let p = c.slot_at_time(ts as u128 * NS - 1);
        if slot > 0 {
            sym::check(p == Some(slot - 1), "one nanosecond earlier is the previous slot");
            sym::cover("previous");
        } else {
            sym::check(p.is_none(), "one nanosecond before genesis is no slot");
            sym::cover("genesis");
        }
    }
    let spe = [32, 8][sym::pick("slots per epoch", 0, 1) as usize];
    let e = Clock::new(g, sps, spe, At(0)).epoch_for(slot);
    sym::check((e * spe <= slot) & (slot < e * spe + spe), "the epoch of a slot");
}
fn durations() {
    let (g, sps) = (sym::range("genesis", 0, 1 << 32), per_slot());
    let t = sym::range("now", 0, (1 << 32) * NS as u64 - 1) as u128;
    let spe = [32, 8][sym::pick("slots per epoch", 0, 1) as usize];
    let c = Clock::new(g, sps, spe, At(t));
    let slot = sym::range("slot", 0, 1 << 29);
    let target = (g as u128 + slot as u128 * sps as u128) * NS;
    let d = c.duration_until_slot(slot);
    // seconds and the rest separately: a product of the seconds is avoided on both sides
    let nanos = |d: std::time::Duration| d.as_secs() as u128 * NS + d.subsec_nanos() as u128;
    if target >= t {
        sym::check(nanos(d) == target - t, "time left until a slot");
        sym::cover("ahead");
    } else {
        sym::check((d.as_secs() == 0) & (d.subsec_nanos() == 0), "nothing left until a past slot");
        sym::cover("past");
    }
    let n = c.duration_until_next_slot();
    let next = t + nanos(n);
    if t < g as u128 * NS {
        sym::check(next == g as u128 * NS, "before genesis the next slot is genesis");
        sym::check(c.current_epoch().is_none(), "no epoch before genesis");
        sym::cover("before genesis");
    } else {
        let s = c.current_slot().unwrap();
        sym::check(next == (g as u128 + (s as u128 + 1) * sps as u128) * NS, "time left until the next slot");
        let e = c.current_epoch().unwrap();
        sym::check((e * spe <= s) & (s < e * spe + spe), "the current epoch");
        sym::cover("after genesis");
    }
}
fn networks() {
    let slot = sym::range("slot", 0, 1 << 40);
    for (c, g) in [
        (clock::for_mainnet(), 1606824023),
        (clock::for_sepolia(), 1655733600),
        (clock::for_goerli(), 1616508000),
        (clock::for_holesky(), 1695902400),
    ] {
        sym::check(c.timestamp_at_slot(slot) == g + 12 * slot, "network clock");
        sym::check(c.slot_at_time((g as u128 + 12 * slot as u128) * NS) == Some(slot), "network clock slot");
        sym::check(c.epoch_for(slot) == slot / 32, "network clock epoch");
    }
    let (g, sps) = (sym::range("genesis", 0, LAST), per_slot());
    let c = clock::from_system_time(g, sps, 8);
    sym::check(c.timestamp_at_slot(slot) == g + sps * slot, "system clock");
    sym::check(c.epoch_for(slot) == slot / 8, "system clock epoch");
    sym::cover("end");
}

// The stream: every time the clock reads the time, or a sleep fires, time moves on by an arbitrary
// amount; a sleep never fires before its deadline.
static NOW: AtomicU64 = AtomicU64::new(0);
static DEADLINE: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);
static EXACT: AtomicU64 = AtomicU64::new(0);

struct Ticking;
impl TimeProvider for Ticking {
    fn get_current_time(&self) -> u128 {
        if EXACT.load(SeqCst) == 0 {
            NOW.fetch_add(sym::range("elapsed", 0, 40 * NS as u64), SeqCst);
        }
        NOW.load(SeqCst) as u128
    }
}
#[no_mangle]
pub extern "C" fn __sym_sleep_new(secs: u64, nanos: u32) -> u64 {
    DEADLINE.store(NOW.load(SeqCst) + secs * NS as u64 + nanos as u64, SeqCst);
    0
}
#[no_mangle]
pub extern "C" fn __sym_sleep_ready(_: u64) -> u8 {
    if !sym::pick_bool("fires") {
        return 0;
    }
    let (n, d) = (NOW.load(SeqCst), DEADLINE.load(SeqCst));
    NOW.store(sym::ite(n < d, d, n), SeqCst);
    FIRED.fetch_add(1, SeqCst);
    1
}
fn waker() -> Waker {
    const T: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &T), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &T)) }
}
fn stream(exact: bool) {
    let sps = per_slot();
    let g = sym::range("genesis", 1, 200);
    EXACT.store(exact as u64, SeqCst);
    NOW.store(sym::range("start", 0, 400 * NS as u64), SeqCst);
    let start = NOW.load(SeqCst);
    let mut s: SlotStream<Ticking> = Clock::new(g, sps, 32, Ticking).into_stream();
    let after = NOW.load(SeqCst);
    let w = waker();
    let mut cx = Cx::from_waker(&w);
    let mut last: Option<u64> = None;
    for _ in 0..if sym::thorough() { 5 } else { 4 } {
        let f0 = FIRED.load(SeqCst);
        match Pin::new(&mut s).poll_next(&mut cx) {
            Poll::Pending => sym::cover("pending"),
            Poll::Ready(None) => sym::check(false, "the stream never ends"),
            Poll::Ready(Some(slot)) => {
                let t1 = NOW.load(SeqCst);
                if FIRED.load(SeqCst) == f0 {
                    sym::check(last.is_none(), "only the first slot comes without waiting");
                    sym::cover("first slot is the current one");
                    // the slot of some moment while the stream was made
                    sym::check(begun(slot, after, g, sps) & !begun(slot + 1, start, g, sps), "the first slot is the current one");
                }
                sym::check(begun(slot, t1, g, sps), "no slot is announced before it begins");
                if let Some(l) = last {
                    sym::check(slot > l, "slots are announced in order and once");
                    if exact {
                        sym::check(slot == l + 1, "no slot is skipped");
                    }
                    sym::cover("later slot");
                } else if FIRED.load(SeqCst) != f0 && exact {
                    sym::check(slot == 0, "from before genesis the first slot is 0");
                    sym::cover("genesis");
                }
                last = Some(slot);
            }
        }
    }
    sym::cover("end");
}
/// `slot` has begun at `t` (nanoseconds).
fn begun(slot: u64, t: u64, g: u64, sps: u64) -> bool {
    (g + slot * sps) * NS as u64 <= t
}

sym::harness! {
    fn h_slot_of_time() { slot_of_time() }
    fn h_seconds() { seconds() }
    fn h_round_trip() { round_trip() }
    fn h_durations() { durations() }
    fn h_networks() { networks() }
    fn h_stream() { stream(false) }
    fn h_stream_prompt() { stream(true) }
}
