//! From a seed to a scenario: which volume, which history, which faults, which schedule.
use crate::disk::*;
use crate::gen::*;
use crate::hurt::{self, HK};
use crate::rng::*;
use crate::run::*;
use crate::vol::*;
use crate::world::*;

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
];

/// Number of runs of the quick and thorough checks.
pub fn runs(prop: &str, thorough: bool) -> u64 {
    let q = match prop {
        "C03" => 60_000,
        "C06" | "C18" => 100_000,
        "C15" => 80_000,
        "C07" => 300_000,
        "C08" | "C09" => 160_000,
        "C17" => 120_000,
        _ => 240_000,
    };
    if thorough {
        q * 12
    } else {
        q
    }
}

fn tweak(prop: &str, r: &mut Rng, s: &mut VolSpec) {
    let mut on = |r: &mut Rng, f: u64, n: u64| {
        if r.below(10) < n {
            s.flags |= f;
        } else {
            s.flags &= !f;
        }
    };
    match prop {
        "C01" | "C02" => {
            on(r, F_SPLIT, 6);
            on(r, F_SPARSE, 6);
        }
        "C10" => {
            on(r, F_AL, 8);
            on(r, F_SPLIT, 6);
        }
        "C18" => {
            on(r, F_AL, 6);
            on(r, F_SPLIT, 5);
        }
        _ => {}
    }
    match prop {
        "C08" | "C09" => {
            s.n_dirs = r.range(1, 2) as u32;
            s.n_files = r.range(1, 3) as u32;
            s.max_entries = *r.pick(&[3, 10, 40, 150, 400]);
            s.flags |= if r.chance(1, 3) { F_CUSTOM_IDX } else { 0 };
        }
        "C12" => s.mft_frags = r.range(1, 12) as u32,
        "C06" => {
            s.n_dirs = r.range(0, 1) as u32;
            s.max_entries = *r.pick(&[10, 40, 60]);
        }
        _ => {}
    }
    s.sanitize();
}

fn profile(r: &mut Rng) -> Profile {
    *r.pick(&[P_MIX, P_MIX, P_MIX, P_DATA, P_CURSOR, P_FIND, P_ENUM, P_ATTR, P_META, P_LOC, P_POS])
}

/// The device calls of the steps without any fault.
fn dry(vol: &std::sync::Arc<Volume>, steps: &[Step]) -> Vec<StepTrace> {
    let v: Vec<(usize, Step)> = steps.iter().cloned().enumerate().collect();
    let mut cfg = Cfg::new(vol, &v, Policy::Faulty);
    cfg.keep_trace = true;
    cfg.stop_on_bad = false;
    run_history(cfg).steps.into_iter().map(|s| s.tr).collect()
}

pub fn make(prop: &str, seed: u64) -> Result<Scenario, String> {
    let mut r = Rng::sub(seed, 7);
    let mut spec = VolSpec::random(&mut Rng::sub(seed, 8));
    tweak(prop, &mut r, &mut spec);
    let vol = volume(&spec, None)?;
    let mut sc = Scenario { prop: prop.into(), seed, mode: Mode::Clean, spec, rev: None, steps: vec![], faults: vec![], pre: vec![], tasks: 1, sector: 0 };
    let g = |r: &mut Rng| Gen::new(Rng::new(r.u64()), &vol, 0, 0, N_SLOTS);
    let clean = |r: &mut Rng, sc: &mut Scenario, p: Profile, lo: u64, hi: u64, foreign: u64, soft: u64| {
        let mut x = g(r);
        x.foreign = foreign;
        // Mounting without the table first is legal, too.
        if r.chance(1, 10) && !p.iter().any(|o| o.0 == Op::Find) {
            x.mount(false);
        } else {
            x.mount(true);
        }
        x.grow(p, r.range(lo, hi) as usize);
        sc.steps = x.steps;
        if r.below(10) < soft {
            let t = dry(&vol, &sc.steps);
            soft_faults(r, 0, &t, &mut sc.faults);
        }
        if soft > 0 && r.chance(1, 8) {
            // The same must hold when the device fails for a while and operations are repeated.
            sc.mode = Mode::Retry;
            let t = dry(&vol, &sc.steps);
            hard_faults(r, 0, &t, true, &mut sc.faults);
        }
    };
    match prop {
        "C01" => clean(&mut r, &mut sc, P_DATA, 8, 30, 10, 6),
        "C02" => clean(&mut r, &mut sc, P_CURSOR, 20, 70, 10, 3),
        "C08" => clean(&mut r, &mut sc, P_FIND, 10, 60, 5, 2),
        "C09" => clean(&mut r, &mut sc, P_ENUM, 8, 30, 5, 2),
        "C10" => clean(&mut r, &mut sc, P_ATTR, 8, 30, 5, 2),
        "C13" => {
            let whole = vol.blocks.iter().all(|b| !matches!(b.kind, BK::Record(_) | BK::Index { .. }) || b.pieces.len() == 1);
            if whole && r.chance(1, 5) {
                damaged(&mut r, &vol, &mut sc)
            } else {
                clean(&mut r, &mut sc, P_POS, 10, 40, 5, 2)
            }
        }
        "C14" => {
            let p = profile(&mut r);
            clean(&mut r, &mut sc, p, 10, 40, 5, 0)
        }
        "C11" => {
            if r.chance(1, 5) {
                frozen(&mut r, &vol, &mut sc);
            } else {
                clean(&mut r, &mut sc, P_META, 8, 30, 5, 3)
            }
        }
        "C12" => {
            if r.chance(1, 4) {
                bad_boot(&mut r, &vol, &mut sc);
            } else {
                clean(&mut r, &mut sc, P_LOC, 8, 40, 5, 2)
            }
        }
        "C04" | "C05" => {
            let p = profile(&mut r);
            clean(&mut r, &mut sc, p, 4, 30, 10, 0);
            sc.mode = if prop == "C04" { Mode::Faulty } else { Mode::Retry };
            let t = dry(&vol, &sc.steps);
            if r.chance(1, 4) {
                soft_faults(&mut r, 0, &t, &mut sc.faults);
            }
            hard_faults(&mut r, 0, &t, prop == "C05", &mut sc.faults);
        }
        "C07" => {
            let p = if r.chance(1, 4) { P_BLOCKS } else { profile(&mut r) };
            let mut x = g(&mut r);
            x.cap = 20_000;
            x.mount(true);
            x.grow(p, r.range(4, 25) as usize);
            sc.steps = x.steps;
            sc.mode = Mode::Corrupt;
            let t = dry(&vol, &sc.steps);
            media_faults(&mut r, &vol, 0, &t, &mut sc.faults);
            if r.chance(1, 10) {
                hard_faults(&mut r, 0, &t, false, &mut sc.faults);
            }
        }
        "C06" => {
            if r.chance(1, 4) {
                foreign(&mut r, &vol, &mut sc, true)
            } else {
                torn(&mut r, &vol, &mut sc)
            }
        }
        "C16" => foreign(&mut r, &vol, &mut sc, false),
        "C18" => contain(&mut r, &vol, &mut sc),
        "C03" => {
            if r.chance(1, 2) {
                inter(&mut r, &vol, &mut sc)
            } else {
                threads(&mut r, &vol, &mut sc)
            }
        }
        "C15" => {
            let p = profile(&mut r);
            clean(&mut r, &mut sc, p, 4, 30, 5, 0);
            let t = dry(&vol, &sc.steps);
            match r.below(5) {
                0 => {}
                1 => soft_faults(&mut r, 0, &t, &mut sc.faults),
                2 => {
                    sc.mode = Mode::Faulty;
                    hard_faults(&mut r, 0, &t, false, &mut sc.faults);
                    soft_faults(&mut r, 0, &t, &mut sc.faults);
                }
                3 => {
                    sc.mode = Mode::Retry;
                    hard_faults(&mut r, 0, &t, true, &mut sc.faults);
                }
                _ => {
                    sc.mode = Mode::Corrupt;
                    media_faults(&mut r, &vol, 0, &t, &mut sc.faults);
                }
            }
        }
        "C17" => sector(&mut r, &vol, &mut sc),
        _ => return Err(format!("unknown property {prop}")),
    }
    Ok(sc)
}

/// Values of loaded files stay as they are when the medium changes afterwards.
fn frozen(r: &mut Rng, vol: &Volume, sc: &mut Scenario) {
    let mut st = vec![step(Op::Mount, 0, 0, 0, 1, 0, 0)];
    let mut open = vec![];
    for d in 0..r.range(1, 6) as usize {
        let m = r.idx(vol.files.len());
        st.push(step(Op::Open, 0, d, 0, vol.files[m].rec, 0, 0));
        open.push(m);
    }
    // Values that live in the record are frozen, too.
    let mut vals = vec![];
    for (s, m) in open.iter().enumerate() {
        let f = &vol.files[*m];
        if f.al.is_some() {
            continue;
        }
        for (l, lg) in f.logical.iter().enumerate() {
            if lg.is_res() && r.chance(1, 2) && vals.len() < 8 {
                let d = 8 + vals.len();
                st.push(step(Op::Stream, 0, d, s, 0, l as u64, 0));
                vals.push(d);
            }
        }
    }
    let at = st.len() as u32;
    for b in &vol.blocks {
        if matches!(b.kind, BK::Record(_) | BK::Boot | BK::Upcase) {
            let k = *r.pick(&[FK::Noise, FK::Zero]);
            for (p, n) in &b.pieces {
                sc.faults.push(fault(k, 0, at, 0, *p, *n, r.u64() >> 20));
            }
        }
    }
    for _ in 0..r.range(3, 20) {
        if !vals.is_empty() && r.chance(1, 3) {
            let s = *r.pick(&vals);
            let len = r.skewed(2000);
            let k = r.below(4);
            st.push(step(Op::Read, 0, 0, s, len, k, 0));
            continue;
        }
        let s = r.idx(open.len());
        let al = vol.files[open[s]].al.is_some();
        match r.below(3) {
            0 => st.push(step(Op::Info, 0, 0, s, 0, 0, 0)),
            1 if !al => {
                let (a, b) = (r.below(6), r.below(vol.files[open[s]].names.len() as u64 + 2));
                st.push(step(Op::NameOf, 0, 0, s, a, b, 0))
            }
            _ if !al => st.push(step(Op::Meta, 0, 0, s, 0, 0, 0)),
            _ => st.push(step(Op::Info, 0, 0, s, 0, 0, 0)),
        }
    }
    sc.steps = st;
}

fn bad_boot(r: &mut Rng, vol: &Volume, sc: &mut Scenario) {
    sc.mode = Mode::BadBoot;
    let up = r.below(2);
    sc.steps = vec![step(Op::Mount, 0, 0, 0, up, 0, 1)];
    let ss = 1u64 << vol.spec.sector_shift;
    let (o, w, z) = match r.below(6) {
        0 => {
            let z = loop {
                let z = match r.below(3) {
                    0 => r.below(65536),
                    1 => *r.pick(&[0u64, 1, 256, 8192, 16384, 32768, 65535, 511, 513, 4095, 4097]),
                    _ => ss ^ (1 << r.below(16)),
                };
                if !(z.is_power_of_two() && (512..=4096).contains(&z)) {
                    break z;
                }
            };
            (11, 2, z)
        }
        1 => {
            let z = loop {
                let z = r.below(256);
                let per: u64 = if z > 128 {
                    let e = 256 - z;
                    if e > 12 {
                        break z;
                    }
                    1 << e
                } else if z == 0 || !z.is_power_of_two() {
                    break z;
                } else {
                    z
                };
                // Together with the sector size.
                if per * ss > 2 << 20 {
                    break z;
                }
            };
            (13, 1, z)
        }
        2 => (48, 8, *r.pick(&[0u64, u64::MAX, 1 << 63, i64::MAX as u64, u64::MAX / vol.cs + 1])),
        3 => {
            let z = loop {
                let z = r.below(256) as i64;
                let v = z as u8 as i8 as i64;
                if v <= 0 && !(-12..=-10).contains(&v) || v > 0 && v as u64 * vol.cs > 4096 {
                    break z as u64;
                }
            };
            (64, 1, z)
        }
        4 => (510, 1, (0x55 ^ r.range(1, 255)) & 0xff),
        _ => (511, 1, (0xaa ^ r.range(1, 255)) & 0xff),
    };
    sc.faults.push(fault(FK::Set, 0, 0, 0, o, w, z));
    if r.chance(1, 4) {
        let (x, y) = (1 + r.skewed(600), *r.pick(&[0u64, 0, 512]));
        sc.faults.push(fault(FK::ShortAll, 0, 0, 0, x, y, 0));
    }
}

/// Damage that is noticed when a block is read: the error says where it is.
fn damaged(r: &mut Rng, vol: &Volume, sc: &mut Scenario) {
    sc.mode = Mode::Corrupt;
    let used: Vec<&Block> = vol
        .blocks
        .iter()
        .filter(|b| match b.kind {
            BK::Record(n) => vol.rec_state[n as usize] == RecState::Used,
            BK::Index { .. } => true,
            _ => false,
        })
        .collect();
    let mut st = vec![step(Op::Mount, 0, 0, 0, 1, 0, 0)];
    let at = 1u32;
    let set = |sc: &mut Scenario, p: u64, n: u64, z: u64| sc.faults.push(fault(FK::Set, 0, at, 0, p, n, z));
    for _ in 0..r.range(1, 4) {
        if r.chance(1, 10) {
            // The boot sector's own mark.
            let (o, good) = *r.pick(&[(510u64, 0x55u64), (511, 0xaa)]);
            set(sc, o, 1, good ^ r.range(1, 255));
            st.push(step(Op::Mount, 0, 0, 0, 0, 0, 1));
            continue;
        }
        let b = *r.pick(&used);
        match r.below(6) {
            0 | 1 => {
                // The end of a sector.
                let s = r.below(b.len() / 512);
                set(sc, b.at(s * 512 + 510), *r.pick(&[1u64, 2]), r.below(65536));
            }
            2 => {
                let z = r.u64() & 0xffff_ffff;
                set(sc, b.at(0), 4, *r.pick(&[0u64, 0x4441_4142, z]))
            }
            3 => set(sc, b.at(6), 2, 0),
            4 => {
                if let BK::Record(_) = b.kind {
                    set(sc, b.at(*r.pick(&[24u64, 28])), 4, vol.rs + 8 + (r.skewed(1 << 30) & !7));
                } else {
                    set(sc, b.at(0), 1, r.below(256));
                }
            }
            _ => {
                // A type nobody knows, or a namespace.
                if let BK::Record(n) = b.kind {
                    let Some(a) = vol.files.iter().flat_map(|f| f.attrs.iter()).filter(|a| a.rec == n).nth(r.idx(4)) else { continue };
                    if n < 16 {
                        continue;
                    }
                    let Some(p) = vol.attr_pos(a) else { continue };
                    match (&a.body, a.ty) {
                        (Body::Res { voff, .. }, 0x30) if r.chance(2, 3) => {
                            let p = p + *voff as u64 + 65;
                            if p % 512 < 510 {
                                set(sc, p, 1, r.range(4, 255));
                            }
                        }
                        _ => set(sc, p, 4, *r.pick(&[1u64, 0x11, 0x110, 0x2000_0000, 0xffff_fffe])),
                    }
                }
            }
        }
        match b.kind {
            BK::Record(n) => {
                let (d, e) = (r.idx(4), 4 + r.idx(4));
                st.push(step(Op::Open, 0, d, 0, n, 0, 0));
                st.push(step(Op::NameOf, 0, 0, d, r.below(6), r.below(4), 0));
                st.push(step(Op::Meta, 0, 0, d, 0, 0, 0));
                st.push(step(Op::Attrs, 0, e, d, 0, 0, 0));
                st.push(step(Op::AttrAll, 0, 0, e, 0, 0, 0));
            }
            BK::Index { idx, slot } => {
                let (d, e, k) = (r.idx(4), 4 + r.idx(4), 8 + r.idx(4));
                st.push(step(Op::Open, 0, d, 0, vol.files[vol.idx_file[idx]].rec, 0, 0));
                st.push(step(Op::RecVcn, 0, 0, d, 0, idx as u64, slot));
                st.push(step(Op::Dir, 0, e, d, 1, idx as u64, 0));
                st.push(step(Op::Entries, 0, k, e, 0, 0, 0));
                st.push(step(Op::EntAll, 0, 0, k, 0, 0, 0));
            }
            _ => {}
        }
    }
    sc.steps = st;
    if r.chance(1, 4) {
        let (x, y) = (64 + r.skewed(600), *r.pick(&[0u64, 0, 512]));
        sc.faults.push(fault(FK::ShortAll, 0, 0, 0, x, y, 0));
    }
}

fn torn(r: &mut Rng, vol: &std::sync::Arc<Volume>, sc: &mut Scenario) {
    sc.mode = Mode::Torn;
    // What is being rewritten?
    let idxs: Vec<usize> = (0..vol.idxs.len()).filter(|i| vol.idxs[*i].alloc_l.is_some()).collect();
    let users: Vec<usize> = (0..vol.files.len()).filter(|m| !vol.files[*m].is_sys).collect();
    let is_idx = !idxs.is_empty() && r.chance(1, 2);
    let target = if is_idx { *r.pick(&idxs) } else { *r.pick(&users) };
    let high = 0x100 * r.range(1, 255);
    let rev = Rev { target, is_idx, rev: *r.pick(&[1u64, 1, 1, 2, 7, 255, 256, high, 65534]), usn: 0 };
    sc.rev = Some(rev);
    let blocks: Vec<&Block> = vol
        .blocks
        .iter()
        .filter(|b| match b.kind {
            BK::Record(n) => !is_idx && vol.files[target].recs.iter().any(|r| r.0 == n),
            BK::Index { idx, .. } => is_idx && idx == target,
            _ => false,
        })
        .collect();
    if blocks.is_empty() {
        return;
    }
    let m = if is_idx { vol.idx_file[target] } else { target };
    let f = &vol.files[m];
    let mut st = vec![step(Op::Mount, 0, 0, 0, 1, 0, 0)];
    let mut slot = 0usize;
    let mut fresh = || {
        slot += 1;
        slot % N_SLOTS
    };
    st.push(step(Op::Open, 0, 0, 0, f.rec, 0, 0));
    let n = r.range(2, 10);
    let few = &blocks[r.idx(blocks.len())..];
    let few = &few[..few.len().min(3)];
    if r.chance(1, 4) {
        // The old update sequence number happens to be what one version stores at the end of a sector.
        let from = if r.chance(1, 2) { None } else { Some(rev) };
        if let Ok(v) = volume(&sc.spec, from) {
            let b = *r.pick(few);
            let word = |o: u64| {
                let mut w = [0u8; 2];
                v.img.read(b.at(o), &mut w);
                u16::from_le_bytes(w)
            };
            let k = r.range(1, (b.len() / 512).max(1));
            sc.rev = Some(Rev { usn: word(word(4) as u64 + 2 * k), ..rev });
        }
    }
    for _ in 0..n {
        if is_idx {
            match r.below(8) {
                0..=3 => {
                    let BK::Index { slot, .. } = r.pick(few).kind else { return };
                    st.push(step(Op::RecVcn, 0, 0, 0, 0, target as u64, slot));
                }
                4 => {
                    let d = fresh();
                    st.push(step(Op::Recs, 0, d, 0, 0, target as u64, 0));
                    st.push(step(Op::RecAll, 0, 0, d, 0, 0, 0));
                }
                5 | 6 => {
                    let (d, e) = (fresh(), fresh());
                    st.push(step(Op::Dir, 0, d, 0, 1, target as u64, 0));
                    st.push(step(Op::Entries, 0, e, d, 0, 0, 0));
                    st.push(step(Op::EntAll, 0, 0, e, 0, 0, 0));
                }
                _ => {
                    let (d, e) = (fresh(), fresh());
                    st.push(step(Op::Dir, 0, d, 0, 1, target as u64, 0));
                    st.push(step(Op::Finder, 0, e, d, 0, 0, 0));
                    let a = r.below(vol.idxs[target].entries.len().max(1) as u64);
                    st.push(step(Op::Find, 0, 0, e, a, 0, r.u64() >> 12));
                }
            }
        } else {
            match r.below(6) {
                0..=3 => {
                    let BK::Record(n) = r.pick(few).kind else { return };
                    let d = fresh();
                    st.push(step(Op::Open, 0, d, 0, n, 0, 0));
                    st.push(step(Op::Meta, 0, 0, d, 0, 0, 0));
                    if n == f.rec {
                        st.push(step(Op::Info, 0, 0, d, 0, 0, 0));
                    }
                }
                _ => {
                    let (d, e) = (fresh(), fresh());
                    st.push(step(Op::Open, 0, d, 0, f.rec, 0, 0));
                    st.push(step(Op::Attrs, 0, e, d, 0, 0, 0));
                    st.push(step(Op::AttrAll, 0, 0, e, 0, 0, 0));
                }
            }
        }
    }
    sc.steps = st;
    let t = dry(vol, &sc.steps);
    // The writer: single sectors of some blocks reach the medium in some order, at some points.
    let writes = 1 + r.skewed(3);
    for _ in 0..writes {
        let b = *r.pick(few);
        let sectors = b.len() / 512;
        let mut order: Vec<u64> = (0..sectors).collect();
        if r.chance(1, 3) {
            r.shuffle(&mut order);
        }
        let k = r.range(1, sectors) as usize;
        let (mut s, mut c) = (r.below(sc.steps.len() as u64) as u32, 0u32);
        let mut mid = r.chance(1, 2);
        let one = r.chance(1, 2);
        for sec in &order[..k] {
            if mid {
                // Between the reader's own calls, preferably those reading this block.
                let v: Vec<usize> = (0..t.len()).filter(|n| t[*n].trace.iter().any(|c| c.read && c.pos <= b.at(0) && b.at(0) < c.pos + c.len)).collect();
                if let Some(x) = v.get(r.idx(v.len().max(1))) {
                    s = *x as u32;
                    c = 1 + r.below(t[*x].calls.max(1) as u64) as u32;
                    // The reader gets the block in portions.
                    if r.chance(3, 4) {
                        sc.faults.push(fault(FK::ShortAll, 0, s, 0, *r.pick(&[512u64, 512, 1024, 300]), 512, 0));
                        c = 1 + r.below((t[*x].bytes / 512 + t[*x].calls as u64).max(1)) as u32;
                    }
                } else {
                    mid = false;
                }
            }
            sc.faults.push(fault(FK::Alt, 0, s, c, b.at(sec * 512), 512, 0));
            if !one {
                if mid {
                    c += r.below(3) as u32;
                } else if r.chance(1, 2) {
                    s = (s + r.below(3) as u32).min(sc.steps.len() as u32 - 1);
                }
            }
            if one {
                mid = false;
            }
        }
    }
}

/// One element inside a structure cannot be decoded: what does not need it is still delivered.
fn contain(r: &mut Rng, vol: &std::sync::Arc<Volume>, sc: &mut Scenario) {
    sc.mode = Mode::Hurt;
    let z = r.u64() >> 16;
    let own = 12usize;
    let mut x = Gen::new(Rng::new(r.u64()), vol, 0, 0, N_SLOTS - own);
    x.no_meta_streams = true;
    x.mount(true);
    let p = profile(r);
    let early = r.range(0, 6) as usize;
    x.grow(p, early);
    let Some((h, _)) = hurt::expand(vol, z) else {
        sc.steps = x.steps;
        return;
    };
    let f = &vol.files[h.file];
    let base = N_SLOTS - own;
    let mut next = 0;
    let mut fresh = move || {
        next += 1;
        base + (next - 1) % own
    };
    // Handles made before the damage.
    let mut keep = None;
    if r.chance(1, 3) {
        let d = fresh();
        x.steps.push(step(Op::Open, 0, d, 0, f.rec, 0, 0));
        keep = Some(d);
    }
    let at = x.steps.len() as u32;
    sc.faults.push(fault(FK::Elem, 0, at, 0, 0, 0, z));
    let users: Vec<usize> = (0..f.logical.len()).filter(|l| f.logical[*l].ty == T_DATA && !f.is_sys).collect();
    for _ in 0..r.range(1, 4) {
        let d = match keep {
            Some(k) if r.chance(1, 3) => k,
            _ => {
                let d = fresh();
                x.steps.push(step(Op::Open, 0, d, 0, if r.chance(1, 3) { h.rec } else { f.rec }, 0, 0));
                d
            }
        };
        let n = r.range(1, 4);
        for _ in 0..n {
            let st = &mut x.steps;
            match r.below(12) {
                0 => st.push(step(Op::Info, 0, 0, d, 0, 0, 0)),
                1 => st.push(step(Op::NameOf, 0, 0, d, r.below(6), r.below(4), 0)),
                2 => st.push(step(Op::Meta, 0, 0, d, 0, 0, 0)),
                3 => {
                    let e = fresh();
                    st.push(step(Op::Attrs, 0, e, d, 0, 0, 0));
                    for _ in 0..r.range(0, 4) {
                        st.push(step(Op::AttrNext, 0, 0, e, r.below(2), 0, 0));
                    }
                    st.push(step(Op::AttrAll, 0, 0, e, r.below(2), 0, 0));
                    st.push(step(Op::AttrAll, 0, 0, e, r.below(2), 0, 0));
                }
                4 if f.al.is_some() => {
                    let e = fresh();
                    st.push(step(Op::AlOpen, 0, e, d, 0, 0, 0));
                    st.push(step(Op::AlAll, 0, 0, e, r.below(2), 0, 0));
                    st.push(step(Op::AlNext, 0, 0, e, r.below(2), 0, 0));
                    st.push(step(Op::AlAll, 0, 0, e, r.below(2), 0, 0));
                }
                5 => {
                    if let Some(n) = hurt::rec_attrs(f, h.rec).iter().position(|a| *a == h.attr) {
                        let (e, o, g) = (fresh(), fresh(), fresh());
                        st.push(step(Op::Open, 0, o, 0, h.rec, 0, 0));
                        st.push(step(Op::Runs, 0, e, o, 0, n as u64, 0));
                        for _ in 0..(h.run + 2).min(30) {
                            st.push(step(Op::RunNext, 0, g, e, 0, 0, 0));
                        }
                        st.push(step(Op::Read, 0, 0, g, r.skewed(3000), 0, 0));
                    }
                }
                6 | 7 if !f.idx.is_empty() => {
                    let b = *r.pick(&f.idx) as u64;
                    let (i, e) = (fresh(), fresh());
                    st.push(step(Op::Dir, 0, i, d, r.below(2), b, 0));
                    match r.below(5) {
                        0 => {
                            st.push(step(Op::Recs, 0, e, d, 0, b, 0));
                            st.push(step(Op::RecAll, 0, 0, e, r.below(2), 0, 0));
                            st.push(step(Op::RecNext, 0, 0, e, r.below(2), 0, 0));
                        }
                        1 => {
                            st.push(step(Op::RootEnts, 0, 0, d, 0, b, 0));
                            let n = vol.idxs[b as usize].slots;
                            for _ in 0..3 {
                                st.push(step(Op::RecVcn, 0, 0, d, 0, b, r.below(n + 1)));
                            }
                        }
                        2 => {
                            st.push(step(Op::Entries, 0, e, i, 0, 0, 0));
                            for _ in 0..r.range(0, 6) {
                                st.push(step(Op::EntNext, 0, 0, e, r.below(2), 0, 0));
                            }
                            st.push(step(Op::EntAll, 0, 0, e, 0, 0, 0));
                            st.push(step(Op::EntNext, 0, 0, e, 0, 0, 0));
                            st.push(step(Op::EntAll, 0, 0, e, 0, 0, 0));
                        }
                        _ => {
                            st.push(step(Op::Finder, 0, e, i, 0, 0, 0));
                            let m = vol.idxs[b as usize].entries.len().max(1) as u64;
                            for _ in 0..r.range(1, 8) {
                                let a = if h.ent != 0 && r.chance(1, 3) { (h.ent as u64 + r.below(3)).saturating_sub(1) } else { r.below(m) };
                                st.push(step(Op::Find, 0, 0, e, a, r.skewed(7), r.u64() >> 12));
                            }
                        }
                    }
                }
                8 => st.push(step(Op::Vol, 0, 0, 0, r.below(2), 0, 0)),
                9 if h.is_mft(vol) || f.rec == 10 => {
                    st.push(step(Op::Mount, 0, 0, 0, r.below(2), 2 * r.below(2), 1));
                    if h.is_mft(vol) {
                        let e = fresh();
                        let o = h.off / vol.rs;
                        st.push(step(Op::Open, 0, e, 0, (o + r.below(5)).saturating_sub(2), 0, 0));
                    }
                }
                _ if !users.is_empty() => {
                    let l = if users.contains(&h.logical) && r.chance(3, 4) { h.logical } else { *r.pick(&users) };
                    let size = f.logical[l].size();
                    let e = fresh();
                    st.push(step(Op::Stream, 0, e, d, r.below(3), l as u64, if r.chance(1, 2) { 0 } else { r.u64() >> 20 }));
                    for _ in 0..r.range(1, 8) {
                        let to = match r.below(5) {
                            0 => h.off,
                            1 => (h.off + r.below(5)).saturating_sub(2),
                            2 => h.off.saturating_sub(r.skewed(2000)),
                            3 => r.below(size.saturating_add(2)),
                            _ => h.off.saturating_add(r.skewed(70_000)),
                        };
                        match r.below(8) {
                            0 | 1 => st.push(step(Op::Seek, 0, 0, e, 4 * r.below(2), to, 0)),
                            2 => st.push(step(Op::Seek, 0, 0, e, 2 + 4 * r.below(2), to.wrapping_sub(size), 0)),
                            3 => st.push(step(Op::Seek, 0, 0, e, 1 + 4 * r.below(2), (r.skewed(20_000) as i64 * if r.chance(1, 2) { -1 } else { 1 }) as u64, 0)),
                            4 => st.push(step(Op::ReadAll, 0, 0, e, 100_000, r.u64() >> 12, 1 + r.skewed(9000))),
                            _ => st.push(step(Op::Read, 0, 0, e, r.skewed(9000), r.below(4), 0)),
                        }
                    }
                }
                _ => st.push(step(Op::Meta, 0, 0, d, 0, 0, 0)),
            }
        }
        if r.chance(1, 2) {
            let n = r.range(1, 8) as usize;
            x.grow(p, n);
        }
    }
    let _ = HK::AttrLen;
    sc.steps = x.steps;
    if r.chance(1, 3) {
        let t = dry(vol, &sc.steps);
        soft_faults(r, 0, &t, &mut sc.faults);
    }
}

fn foreign(r: &mut Rng, vol: &std::sync::Arc<Volume>, sc: &mut Scenario, torn: bool) {
    sc.mode = Mode::Foreign;
    let mut x = Gen::new(Rng::new(r.u64()), vol, 0, 0, N_SLOTS - 4);
    x.no_meta_streams = true;
    x.mount(true);
    let data = r.chance(1, 3);
    let p = if data { P_BLOCKS_DATA } else { P_BLOCKS };
    x.grow(p, r.range(2, 12) as usize);
    let at = x.steps.len();
    x.grow(p, r.range(2, if data { 20 } else { 10 }) as usize);
    let mut st = x.steps;
    // The block.
    let used: Vec<&Block> = vol
        .blocks
        .iter()
        .filter(|b| match b.kind {
            BK::Record(n) => vol.rec_state[n as usize] == RecState::Used,
            BK::Index { .. } => true,
            BK::Boot => !torn,
            _ => false,
        })
        .collect();
    let kind = r.below(8);
    let cand: Vec<&&Block> = used
        .iter()
        .filter(|b| match kind {
            0 => matches!(b.kind, BK::Boot),
            // The further records of the files which are used.
            _ if data && kind < 7 => match b.kind {
                BK::Record(n) => vol.files.iter().any(|f| f.rec != n && f.recs.iter().any(|r| r.0 == n) && st.iter().any(|s| s.op == Op::Open && s.a == f.rec)),
                _ => false,
            },
            1..=3 => matches!(b.kind, BK::Record(_)),
            _ => matches!(b.kind, BK::Index { .. }),
        })
        .collect();
    let b = if cand.is_empty() { *r.pick(&used) } else { **r.pick(&cand) };
    let at = at as u32;
    let put = |sc: &mut Scenario, k: FK, z: u64| {
        for (p, n) in &b.pieces {
            sc.faults.push(fault(k, 0, at, 0, *p, *n, z));
        }
    };
    if kind == 1 && r.chance(1, 4) && !st.iter().any(|s| s.op == Op::Open && s.a == 10) {
        // An up-case table of the wrong size.
        if let Some(f) = vol.by_rec.get(&10).map(|m| &vol.files[*m]) {
            if let Some(a) = f.attrs.iter().find(|a| a.ty == T_DATA) {
                if let Some(p) = vol.attr_pos(a) {
                    let z = *r.pick(&[0u64, 2, 131070, 131074, 65536, 262144, 131071]);
                    sc.faults.push(fault(FK::Set, 0, at, 0, p + 48, 8, z));
                    st.insert(at as usize, step(Op::Mount, 0, 0, 0, 1, 0, 1));
                    sc.steps = st;
                    return;
                }
            }
        }
    }
    let whole = b.pieces.len() == 1;
    match r.below(6) {
        _ if torn => {
            // Sectors of another state of the block: their update sequence numbers differ.
            let n = b.len() / 512;
            let all = r.range(1, n - 1);
            let mut left: Vec<u64> = (0..n).collect();
            for _ in 0..all {
                let k = left.remove(r.idx(left.len()));
                let mut old = [0u8; 2];
                vol.img.read(b.at(k * 512 + 510), &mut old);
                let old = u16::from_le_bytes(old) as u64;
                let new = match r.below(3) {
                    0 => old ^ 1 << r.below(16),
                    1 => old + 1 & 0xffff,
                    _ => (old + r.range(1, 0xffff)) & 0xffff,
                };
                sc.faults.push(fault(FK::Set, 0, at, 0, b.at(k * 512 + 510), 2, new));
                if r.chance(1, 2) {
                    // (the content, too, as far as it does not hold the header)
                    let from = if k == 0 { 256 } else { 0 };
                    sc.faults.push(fault(FK::Noise, 0, at, 0, b.at(k * 512 + from), 510 - from, r.u64() >> 20));
                }
            }
        }
        0 => put(sc, FK::Zero, 0),
        1 => put(sc, FK::Noise, r.u64() >> 20),
        2 if matches!(b.kind, BK::Boot) => {
            // A wrong signature.
            let z = match r.below(4) {
                0 => 0,
                1 => 0x55aa,
                2 => 0xaa55 ^ (1 << r.below(16)),
                _ => 0xaa55 ^ (r.range(1, 255) << if r.chance(1, 2) { 8 } else { 0 }),
            };
            sc.faults.push(fault(FK::Set, 0, at, 0, b.at(510), 2, z));
        }
        2 if !matches!(b.kind, BK::Boot) => {
            // A wrong signature.
            let old = if matches!(b.kind, BK::Record(_)) { 0x454c_4946u64 } else { 0x5844_4e49 };
            let z = match r.below(3) {
                0 => *r.pick(&[0x4441_4142u64, 0, 0x454c_4946, 0x5844_4e49]),
                1 => old ^ (1 << r.below(32)),
                _ => r.u64() & 0xffff_ffff,
            };
            let z = if z == old { 0x4441_4142 } else { z };
            sc.faults.push(fault(FK::Set, 0, at, 0, b.at(0), 4, z));
        }
        3 if whole && !matches!(b.kind, BK::Boot) => {
            // Sizes which do not fit the record.
            let word = |o: u64| {
                let mut w = [0u8; 4];
                vol.img.read(b.at(o), &mut w);
                u32::from_le_bytes(w) as u64
            };
            let n = b.len();
            let (o, z) = match b.kind {
                BK::Record(_) => match r.below(3) {
                    0 => (24, vol.rs + 8 + (r.skewed(1 << 30) & !7)),
                    1 => (28, vol.rs + 8 + (r.skewed(1 << 30) & !7)),
                    _ => (28, if r.chance(1, 4) { 0 } else { word(24) - 8 - (r.skewed(word(24) - 8) & !7) }),
                },
                _ => match r.below(5) {
                    0 => (28, n + 8 + (r.skewed(1 << 30) & !7)),
                    1 => (32, n + 8 + (r.skewed(1 << 30) & !7)),
                    2 => (32, if r.chance(1, 4) { 0 } else { word(28) - 8 - (r.skewed(word(28) - 8) & !7) }),
                    3 => (28, word(24) - 8 - (r.skewed(word(24) - 8) & !7)),
                    _ => (24, word(28) + 8 + if r.chance(1, 2) { r.skewed(n - word(28)) & !7 } else { r.skewed(1 << 30) & !7 }),
                },
            };
            sc.faults.push(fault(FK::Set, 0, at, 0, b.at(o), 4, z));
        }
        _ => {
            // Another block. Listing index records does not involve any expectation about their VCN.
            let listed = st.iter().any(|s| matches!(s.op, Op::Recs | Op::RecNext | Op::RecAll));
            let other: Vec<&Block> = vol
                .blocks
                .iter()
                .filter(|o| {
                    o.pieces.len() == 1
                        && match (b.kind, o.kind) {
                            (BK::Boot, BK::Boot) => false,
                            (BK::Record(_), BK::Record(_)) => false,
                            (BK::Index { idx: a, slot: s }, BK::Index { idx: c, slot: t }) => {
                                let v = |i: usize, s: u64| s * vol.idxs[i].rec_size as u64 / vol.idxs[i].unit;
                                !listed && v(a, s) != v(c, t)
                            }
                            (_, BK::Upcase) => false,
                            _ => true,
                        }
                })
                .collect();
            if other.is_empty() {
                put(sc, FK::Zero, 0);
            } else {
                let o = *r.pick(&other);
                // As much as is needed to replace the block.
                let mut off = 0;
                for (p, n) in &b.pieces {
                    sc.faults.push(fault(FK::Copy, 0, at, 0, *p, *n, o.at(0) + off));
                    off += n;
                }
            }
        }
    }
    // A step which needs the block.
    let need = match b.kind {
        BK::Boot => vec![step(Op::Mount, 0, 0, 0, 0, 0, 1)],
        BK::Record(0) => {
            let used: Vec<u64> = (0..vol.n_records).filter(|n| vol.rec_state[*n as usize] == RecState::Used).collect();
            vec![step(Op::Open, 0, N_SLOTS - 1, 0, *r.pick(&used), 0, 1)]
        }
        BK::Record(10) if r.chance(1, 2) => vec![step(Op::Mount, 0, 0, 0, 1, 0, 1)],
        BK::Record(n) => vec![step(Op::Open, 0, N_SLOTS - 1, 0, n, 0, 1)],
        BK::Index { idx, slot } => {
            let rec = vol.files[vol.idx_file[idx]].rec;
            vec![step(Op::Open, 0, N_SLOTS - 2, 0, rec, 0, 0), step(Op::RecVcn, 0, 0, N_SLOTS - 2, 1, idx as u64, slot)]
        }
        _ => vec![],
    };
    let early = r.chance(1, 2);
    for (k, s) in need.into_iter().enumerate() {
        if early {
            st.insert(at as usize + k, s);
        } else {
            st.push(s);
        }
    }
    sc.steps = st;
    if r.chance(1, 4) {
        let t = dry(vol, &sc.steps);
        soft_faults(r, 0, &t, &mut sc.faults);
    }
}

fn inter(r: &mut Rng, vol: &std::sync::Arc<Volume>, sc: &mut Scenario) {
    sc.mode = Mode::Inter;
    sc.tasks = r.range(2, 3) as u32;
    let w = N_SLOTS / sc.tasks as usize;
    let mut q: Vec<Vec<Step>> = vec![];
    for t in 0..sc.tasks as usize {
        let p = profile(r);
        let mut x = Gen::new(Rng::new(r.u64()), vol, t as u8, t * w, (t + 1) * w);
        x.grow(p, r.range(4, 20) as usize);
        let mut v = x.steps;
        v.retain(|s| s.op != Op::Mount);
        v.reverse();
        q.push(v);
    }
    sc.steps.push(step(Op::Mount, 0, 0, 0, 1, 0, 0));
    let foreign = r.below(60);
    while q.iter().any(|v| !v.is_empty()) {
        let t = r.idx(q.len());
        for _ in 0..1 + r.skewed(2) {
            if let Some(s) = q[t].pop() {
                if r.below(100) < foreign {
                    let n = vol.img.size;
                    let p = if r.chance(1, 2) { r.pick(&vol.blocks).at(0) } else { r.below(n) };
                    sc.steps.push(step(Op::Foreign, t as u8, 0, 0, p, 0, 0));
                }
                sc.steps.push(s);
            }
        }
    }
}

fn threads(r: &mut Rng, vol: &std::sync::Arc<Volume>, sc: &mut Scenario) {
    sc.mode = Mode::Threads;
    sc.tasks = r.range(2, 3) as u32;
    let p = profile(r);
    for t in 0..sc.tasks as usize {
        let p = if r.chance(1, 2) { p } else { profile(r) };
        let mut x = Gen::new(Rng::new(r.u64()), vol, t as u8, 0, N_SLOTS);
        x.grow(p, r.range(3, 15) as usize);
        x.steps.retain(|s| s.op != Op::Mount);
        let tr = {
            let mut v = vec![step(Op::Mount, 0, 0, 0, 1, 0, 0)];
            v.extend(x.steps.iter().cloned());
            dry(vol, &v)
        };
        let calls: u64 = tr.iter().skip(1).map(|s| s.calls as u64 + 1).sum();
        // A few preemptions at arbitrary points, or many.
        let n = match r.below(4) {
            0 => 1,
            1 => r.range(1, 4),
            2 => r.range(2, 12),
            _ => calls.min(60),
        };
        for _ in 0..n {
            let to = r.below(sc.tasks as u64) as u32;
            sc.pre.push(Pre { task: t as u32, call: 1 + r.below(calls.max(1)) as u32, to });
        }
        // The device may behave badly towards this task alone.
        if r.chance(1, 3) {
            let base = sc.steps.len() as u32;
            let mut fs = vec![];
            if r.chance(1, 2) {
                soft_faults(r, t as u32, &tr[1..], &mut fs);
            } else {
                hard_faults(r, t as u32, &tr[1..], false, &mut fs);
            }
            for mut f in fs {
                // Region and truncation faults concern the device as a whole.
                if matches!(f.k, FK::BadRange | FK::Trunc) {
                    continue;
                }
                f.step += base;
                sc.faults.push(f);
            }
        }
        sc.steps.extend(x.steps);
    }
}

fn sector(r: &mut Rng, vol: &std::sync::Arc<Volume>, sc: &mut Scenario) {
    let ss = *r.pick(&[512u64, 512, 1024, 4096, 512, 2048]);
    sc.sector = ss;
    let size = vol.img.size / ss * ss;
    if r.chance(3, 5) && size == vol.img.size {
        sc.mode = Mode::Raw;
        let n = r.range(3, 30);
        // Most histories stay away from the two known findings, which make whatever follows meaningless.
        let strict = r.chance(7, 8);
        let room = size.saturating_sub(1 << 17);
        for _ in 0..n {
            let o = |r: &mut Rng| {
                let base = match r.below(5) {
                    0 => size,
                    1 => r.pick(&vol.blocks).at(0),
                    2 => r.below(size),
                    3 => r.below(20) * ss,
                    _ => size - r.skewed(20_000).min(size),
                };
                match r.below(4) {
                    0 => base,
                    1 => base.saturating_sub(r.skewed(2 * ss)),
                    2 => base.saturating_add(r.skewed(2 * ss)),
                    _ => base / ss * ss,
                }
            };
            match r.below(8) {
                0 | 1 => {
                    let p = o(r);
                    sc.steps.push(step(Op::SecOp, 0, 0, 0, p, 0, 0));
                }
                2 => {
                    let d = match r.below(4) {
                        0 => r.skewed(5000),
                        1 => 0u64.wrapping_sub(r.skewed(5000)),
                        2 => ss,
                        _ => *r.pick(&[i64::MIN as u64, 0, 1, u64::MAX]),
                    };
                    sc.steps.push(step(Op::SecOp, 0, 1, 0, d, 0, 0));
                }
                k => {
                    let len = match r.below(6) {
                        0 => ss,
                        1 => r.below(4) * ss + r.below(3),
                        2 => r.skewed(20_000),
                        3 => r.below(16),
                        _ => r.skewed(3000),
                    };
                    let d = if k < 6 { 2 } else { 3 };
                    if strict {
                        let p = o(r).min(room);
                        sc.steps.push(step(Op::SecOp, 0, 0, 0, p, r.below(3), 0));
                        if r.chance(1, 4) {
                            let by = r.skewed(3000).min(room - p);
                            sc.steps.push(step(Op::SecOp, 0, 1, 0, by, r.below(3), 0));
                        }
                    }
                    sc.steps.push(step(Op::SecOp, 0, d, 0, len, 0, 0));
                }
            }
        }
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 3) {
                let s = r.below(sc.steps.len() as u64) as u32;
                let c = 1 + r.below(3) as u32;
                let f = match r.below(5) {
                    0 | 1 => fault(FK::Err, 0, s, c, r.below(HARD_KINDS), 0, 0),
                    2 => fault(FK::ShortAll, 0, s, 0, ss, ss, 0),
                    3 => fault(FK::Intr, 0, s, c, 0, 0, 0),
                    _ => fault(FK::Stall, 0, s, c, 1 + r.skewed(9000), r.below(2), 0),
                };
                sc.faults.push(f);
            }
        }
        return;
    }
    sc.mode = Mode::Sector;
    let p = profile(r);
    let mut x = Gen::new(Rng::new(r.u64()), vol, 0, 0, N_SLOTS);
    x.cap = 50_000;
    x.mount(true);
    x.grow(p, r.range(4, 25) as usize);
    sc.steps = x.steps;
    let t = dry(vol, &sc.steps);
    if r.chance(1, 2) {
        let mut fs = vec![];
        hard_faults(r, 0, &t, false, &mut fs);
        fs.retain(|f| !matches!(f.k, FK::Trunc | FK::Short | FK::Eof));
        sc.faults = fs;
    }
}

/// How cases are made, and what makes one non-trivial.
pub fn rule(prop: &str) -> String {
    let what = match prop {
        "C03" => "2-3 clients or preempted tasks with a random interleaving, each compared with running alone",
        "C04" => "a random history with injected device failures at random calls",
        "C05" => "a random history with transient device failures; failed operations are repeated on the same handle",
        "C06" => "sectors of a record being rewritten reach the medium in a random order between steps or between the reader's own device calls",
        "C07" => "a random history on a volume damaged by random or structure-aware corruption before or during operations",
        "C15" => "a random history with or without faults, executed by both builds",
        "C18" => "one element of a structure is made undecodable (a length, an offset, a run header, a subnode reference), and operations around it",
        "C16" => "a block of the volume is replaced by zeros, noise, another block or inconsistent header fields",
        "C17" => "raw seeks and reads on the sector reader, or a library history on top of it, with faults",
        _ => "a random history on a working device with short reads, interruptions and delays",
    };
    format!(
        "Every case is one seed: a random well-formed volume (geometry, MFT layout, streams, attribute lists, index trees) and {what}. \
         Non-trivial: not discarded, at least one operation was carried out and at least one of its results judged. Distinct: different digests."
    )
}

pub fn components(prop: &str) -> String {
    let mut s = "Real: the whole ntfs library (compiled from /repo/src with overflow checks), binrw, nt-string. \
                 Simulated: the block device behind Read + Seek, its clock and failures, the volume's content"
        .to_string();
    match prop {
        "C03" => s.push_str(", the scheduler of tasks (real threads, one runs at a time, switching at device calls)"),
        "C17" => s.push_str(". Real as well: /repo/examples/ntfs-shell/sector_reader.rs"),
        "C15" => s.push_str(". Both builds of the library (std and no_std) are real"),
        _ => {}
    }
    s.push_str(". No stubs inside the library.");
    s
}

pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "The volume builder and the reference model of the simulator describe NTFS as the documentation of the library does",
        "A random search finds no violation: this is exploration, not a proof",
    ];
    match prop {
        "C03" => v.push("Tasks are switched at device calls only; the library has no shared mutable state (it is free of unsafe code), so finer switching cannot be observed"),
        "C06" => v.push("Writers maintain the update sequence number of a record with every write of it"),
        "C18" => v.push("What an operation needs is derived from the documented layout and from the way the library documents to reach it (a file's attribute list before the attributes behind it, for example)"),
        "C07" => v.push("A run counts as hanging after 200000 device calls or 30 s of CPU time for one operation"),
        _ => {}
    }
    v
}
