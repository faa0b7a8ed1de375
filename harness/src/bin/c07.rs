//! C07: justification and finalization.
#![no_main]
use harness::refs::{active, committee, total_active};
use harness::*;

/// The outcome of weighing: bits, and which of the possible checkpoints each place holds.
struct Out {
    bits: [bool; 4],
    justified: (u64, Root),
    finalized: (u64, Root),
}
fn sel(c: bool, a: &(u64, Root), b: &(u64, Root)) -> (u64, Root) {
    let mut r = [0u8; 32];
    for i in 0..32 {
        r[i] = sym::ite(c, a.1[i] as u64, b.1[i] as u64) as u8;
    }
    (sym::ite(c, a.0, b.0), Root::try_from(r.as_ref()).unwrap())
}
/// `current` epoch, target balances reached, and the boundary roots of the two epochs.
fn weigh(bits: [bool; 4], prev: &Checkpoint, cur: &Checkpoint, fin: &Checkpoint, epoch: u64, total: u64, pt: u64, ct: u64, proot: &Root, croot: &Root) -> Out {
    let of = |c: &Checkpoint| (c.epoch, c.root.clone());
    let (oldp, oldc) = (of(prev), of(cur));
    let pj = pt as u128 * 3 >= total as u128 * 2;
    let cj = ct as u128 * 3 >= total as u128 * 2;
    let b = [cj, bits[0] | pj, bits[1], bits[2]];
    let mut j = sel(pj, &(epoch - 1, proot.clone()), &oldc);
    j = sel(cj, &(epoch, croot.clone()), &j);
    let mut f = of(fin);
    f = sel(b[1] & b[2] & b[3] & (oldp.0 + 3 == epoch), &oldp, &f);
    f = sel(b[1] & b[2] & (oldp.0 + 2 == epoch), &oldp, &f);
    f = sel(b[0] & b[1] & b[2] & (oldc.0 + 2 == epoch), &oldc, &f);
    f = sel(b[0] & b[1] & (oldc.0 + 1 == epoch), &oldc, &f);
    Out { bits: b, justified: j, finalized: f }
}
macro_rules! history {
    ($s:ident, $epoch:ident, $k:ident, $bits:ident, $in_epoch:expr) => {
        let $k = sym::pick("epoch in history", 0, 3);
        let $epoch = 4 * sym::range("histories", 0, 1 << 40) + $k;
        sym::assume($epoch >= 2);
        $s.slot = 4 * $epoch + $in_epoch;
        for i in 0..$s.block_roots.len() {
            $s.block_roots[i] = root(i as u8);
        }
        let $bits: [bool; 4] = [sym::any_bool("bit"), sym::any_bool("bit"), sym::any_bool("bit"), sym::any_bool("bit")];
        for i in 0..4 {
            $s.justification_bits.set(i, $bits[i]);
        }
        for (c, n) in [(&mut $s.previous_justified_checkpoint, 100), (&mut $s.current_justified_checkpoint, 101), (&mut $s.finalized_checkpoint, 102)] {
            c.epoch = sym::range("checkpoint", 0, 1 << 43);
            c.root = root(n);
        }
    };
}
macro_rules! agree {
    ($f:ident, $s:ident, $r:ident, $w:expr) => {
        let w = $w;
        let j = &$s.current_justified_checkpoint;
        let f = &$s.finalized_checkpoint;
        sym::check(($s.justification_bits[0] == w.bits[0]) & ($s.justification_bits[1] == w.bits[1])
            & ($s.justification_bits[2] == w.bits[2]) & ($s.justification_bits[3] == w.bits[3]), "justification bits");
        sym::check((j.epoch == w.justified.0) & sym::eq_bytes(j.root.as_ref(), w.justified.1.as_ref()), "current justified checkpoint");
        sym::check((f.epoch == w.finalized.0) & sym::eq_bytes(f.root.as_ref(), w.finalized.1.as_ref()), "finalized checkpoint");
        sym::check($s.previous_justified_checkpoint == $r.current_justified_checkpoint, "previous justified checkpoint");
        $r.justification_bits = $s.justification_bits.clone();
        $r.previous_justified_checkpoint = $s.previous_justified_checkpoint.clone();
        $r.current_justified_checkpoint = $s.current_justified_checkpoint.clone();
        $r.finalized_checkpoint = $s.finalized_checkpoint.clone();
        same_state!($f, $s, $r, "nothing else changes");
    };
}
macro_rules! weighed {
    ($f:ident) => {{
        use harness::small::$f as m;
        let c = context();
        let mut s = m::BeaconState::default();
        history!(s, epoch, k, bits, sym::range("slot in epoch", 1, 3));
        let mut r = s.clone();
        let total = sym::range("total", 0, 1 << 60);
        let pt = sym::range("previous target", 0, 1 << 60);
        let ct = sym::range("current target", 0, 1 << 60);
        m::weigh_justification_and_finalization(&mut s, total, pt, ct, &c).unwrap();
        let (pr, cr) = (root(((k + 3) % 4 * 4) as u8), root((k * 4) as u8));
        let w = weigh(bits, &r.previous_justified_checkpoint, &r.current_justified_checkpoint, &r.finalized_checkpoint, epoch, total, pt, ct, &pr, &cr);
        if w.finalized.0 != r.finalized_checkpoint.epoch {
            sym::cover("finalized");
        }
        if w.justified.0 == epoch {
            sym::cover("justified");
        }
        agree!($f, s, r, w);
    }};
}
/// From participation flags to checkpoints.
macro_rules! flags {
    ($f:ident) => {{
        use harness::small::$f as m;
        let c = context();
        let mut s = m::BeaconState::default();
        history!(s, epoch, k, bits, 3);
        sym::assume(k == 1);
        for i in 0..2u8 {
            let mut v = active_validator(i);
            odd(&mut v);
            v.effective_balance = sym::range("effective balance", 0, 2048) * GWEI;
            // slashed, then in the target set of either epoch
            let how = sym::pick("took part", 0, 4);
            v.slashed = how == 4;
            let (p, q) = (how == 1 || how >= 3, how >= 2);
            match sym::pick("activity", 0, 2) {
                1 => v.activation_epoch = epoch,
                2 => v.exit_epoch = epoch,
                _ => {}
            }
            s.validators.push(v);
            s.balances.push(sym::range("balance", 0, 1 << 50));
            s.previous_epoch_participation.push(2 * p as u8 + 5 * sym::pick_bool("other flags") as u8);
            s.current_epoch_participation.push(2 * q as u8 + 5 * !p as u8);
            s.inactivity_scores.push(0);
        }
        let mut r = s.clone();
        m::process_justification_and_finalization(&mut s, &c).unwrap();
        let sum = |e: u64, p: &[u8]| {
            let mut t = 0;
            for (v, p) in r.validators.iter().zip(p) {
                t += sym::ite(active(v, e) & !v.slashed & (p & 2 != 0), v.effective_balance, 0);
            }
            sym::ite(t < GWEI, GWEI, t)
        };
        let total = total_active(&r.validators, epoch, &c);
        let pt = sum(epoch - 1, &r.previous_epoch_participation);
        let ct = sum(epoch, &r.current_epoch_participation);
        let (pr, cr) = (root(((k + 3) % 4 * 4) as u8), root((k * 4) as u8));
        let w = weigh(bits, &r.previous_justified_checkpoint, &r.current_justified_checkpoint, &r.finalized_checkpoint, epoch, total, pt, ct, &pr, &cr);
        sym::cover("end");
        agree!($f, s, r, w);
    }};
}
/// The first two epochs leave everything alone.
macro_rules! early {
    ($f:ident) => {{
        use harness::small::$f as m;
        let c = context();
        let mut s = m::BeaconState::default();
        s.slot = sym::pick("slot", 0, 7);
        for i in 0..4 {
            s.justification_bits.set(i, sym::any_bool("bit"));
        }
        s.current_justified_checkpoint.epoch = sym::range("epoch", 0, 1);
        s.previous_justified_checkpoint.root = root(3);
        s.validators.push(active_validator(0));
        s.balances.push(32 * GWEI);
        let r = s.clone();
        m::process_justification_and_finalization(&mut s, &c).unwrap();
        same_state!($f, s, r, "the first two epochs");
        sym::cover("end");
    }};
}
/// From pending attestations to checkpoints.
fn attested() {
    use harness::small::phase0 as m;
    let mut c = context();
    c.slots_per_epoch = 2;
    c.shuffle_round_count = 1;
    let mut s = m::BeaconState::default();
    let epoch = if sym::thorough() { [2, 3, 11][sym::pick("epoch", 0, 2) as usize] } else { 3 };
    s.slot = 2 * epoch + 1;
    for i in 0..s.block_roots.len() {
        s.block_roots[i] = root(i as u8);
    }
    let bits: [bool; 4] = [sym::any_bool("bit"), true, sym::any_bool("bit"), false];
    for i in 0..4 {
        s.justification_bits.set(i, bits[i]);
    }
    s.previous_justified_checkpoint.epoch = epoch - 2;
    s.current_justified_checkpoint.epoch = epoch - 1;
    for i in 0..3u8 {
        let mut v = active_validator(i);
        odd(&mut v);
            v.effective_balance = sym::range("effective balance", 0, 2048) * GWEI;
        v.slashed = i == 1 && sym::pick_bool("slashed");
        s.validators.push(v);
    }
    let mut hit = [[false; 3]; 2];
    for (which, e) in [(0, epoch - 1), (1, epoch)] {
        // two attestations of one committee may overlap
        for (n, slot) in [2 * e, 2 * e + 1, 2 * e + 1].into_iter().take(3 - which).enumerate() {
            let mut a = m::PendingAttestation::default();
            a.data.slot = slot;
            a.data.target.epoch = e;
            let right = n == 1 || sym::pick_bool("right target");
            a.data.target.root = if right { root((2 * e % 16) as u8) } else { root(77) };
            let com = committee(&s.validators, &s.randao_mixes, slot, 0, &c);
            let mut b = vec![];
            for &v in &com {
                let on = sym::pick_bool("attested");
                b.push(on);
                hit[which][v] |= on & right;
            }
            a.aggregation_bits = b.as_slice().try_into().unwrap();
            if which == 0 {
                s.previous_epoch_attestations.push(a);
            } else {
                s.current_epoch_attestations.push(a);
            }
        }
    }
    let mut r = s.clone();
    m::process_justification_and_finalization(&mut s, &c).unwrap();
    let sum = |h: &[bool; 3]| {
        let mut t = 0;
        for (v, h) in r.validators.iter().zip(h) {
            t += sym::ite(!v.slashed & *h, v.effective_balance, 0);
        }
        sym::ite(t < GWEI, GWEI, t)
    };
    let total = total_active(&r.validators, epoch, &c);
    let w = weigh(bits, &r.previous_justified_checkpoint, &r.current_justified_checkpoint, &r.finalized_checkpoint, epoch, total,
        sum(&hit[0]), sum(&hit[1]), &root(((2 * epoch - 2) % 16) as u8), &root((2 * epoch % 16) as u8));
    sym::cover("end");
    agree!(phase0, s, r, w);
}
sym::harness! {
    fn h_weigh_phase0() { weighed!(phase0) }
    fn h_weigh_altair() { weighed!(altair) }
    fn h_weigh_bellatrix() { weighed!(bellatrix) }
    fn h_weigh_capella() { weighed!(capella) }
    fn h_weigh_deneb() { weighed!(deneb) }
    fn h_weigh_electra() { weighed!(electra) }
    fn h_flags_altair() { flags!(altair) }
    fn h_flags_bellatrix() { flags!(bellatrix) }
    fn h_flags_electra() { flags!(electra) }
    fn h_attested_phase0() { attested() }
    fn h_early_phase0() { early!(phase0) }
    fn h_early_altair() { early!(altair) }
    fn h_early_deneb() { early!(deneb) }
}
